// Threads, schedule choices, simulated time, pthread interposition.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include "internal.h"

namespace simi {

bool g_active = false;
Thread* g_cur = nullptr;
Thread g_threads[MAXT];
int g_nthreads = 0;
__thread int t_in_sim = 0;
int64_t g_now = 0;
int64_t g_skew[16];
Shared* g_sh = nullptr;
uint32_t* g_choices[sim::NSTREAMS];
bool g_log = false;
static uint64_t g_seq = 0;
static sim::Options g_opt;
static sim::Faults g_faults;
static bool g_calm = false, g_endgame = false;

// ---- choices -------------------------------------------------------------
struct Rng {
  uint64_t s[2];
  static uint64_t sm(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  void seed(uint64_t a, uint64_t b) { uint64_t x = a * 0x2545F4914F6CDD1DULL + b * 0x9E3779B97F4A7C15ULL + 1; s[0] = sm(x); s[1] = sm(x); }
  uint64_t next() {
    uint64_t a = s[0], b = s[1];
    s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return s[1] + b;
  }
  uint32_t below(uint32_t n) { return n <= 1 ? 0 : (uint32_t)(((next() >> 32) * (uint64_t)n) >> 32); }
};
static Rng g_rng[sim::NSTREAMS];
static uint32_t g_nch[sim::NSTREAMS];
bool g_replay = false;
std::map<uint32_t, uint32_t>* g_forced[sim::NSTREAMS];

void choices_begin(uint64_t seed) {
  for (int i = 0; i < sim::NSTREAMS; i++) { g_rng[i].seed(seed, i + 1); g_nch[i] = 0; }
}

static uint32_t record(sim::Stream s, uint32_t v) {
  uint32_t i = g_nch[s]++;
  if (i < MAXCHOICES) g_choices[s][i] = v; else g_sh->overflow = 1;
  g_sh->nchoices[s] = g_nch[s];
  return v;
}
static bool forced(sim::Stream s, uint32_t n, uint32_t& out) {
  if (!g_replay) return false;
  auto it = g_forced[s]->find(g_nch[s]);
  out = it == g_forced[s]->end() ? 0 : (n ? it->second % n : it->second);
  return true;
}

void hash_mix(uint64_t v) {
  uint64_t& h = g_sh->hash;
  h = (h ^ v) * 0x100000001b3ULL;
  h ^= h >> 29;
}
static void sched_mix(uint64_t v) {
  uint64_t& h = g_sh->sched_hash;
  h = (h ^ v) * 0x100000001b3ULL;
  h ^= h >> 31;
}

void logf(const char* fmt, ...) {
  if (!g_log) return;
  char b[1024];
  int k = snprintf(b, sizeof b, "[%10.3fms s%llu t%d] ", g_now / 1e6, (unsigned long long)g_sh->steps,
                   g_cur ? g_cur->id : -1);
  va_list ap;
  va_start(ap, fmt);
  k += vsnprintf(b + k, sizeof b - k - 2, fmt, ap);
  va_end(ap);
  if (k > (int)sizeof b - 2) k = sizeof b - 2;
  b[k++] = '\n';
  (void)!syscall(SYS_write, 2, b, k);
}

// ---- time & events -------------------------------------------------------
struct Ev { int64_t t; uint64_t n; std::function<void()> f; };
struct EvCmp { bool operator()(const Ev& a, const Ev& b) const { return a.t != b.t ? a.t > b.t : a.n > b.n; } };
static std::vector<Ev>* g_events;
static uint64_t g_evn = 0;
void at(int64_t when, std::function<void()> fn) {
  g_events->push_back(Ev{when < g_now ? g_now : when, g_evn++, std::move(fn)});
  std::push_heap(g_events->begin(), g_events->end(), EvCmp());
}
static void run_events() {
  while (!g_events->empty() && g_events->front().t <= g_now) {
    std::pop_heap(g_events->begin(), g_events->end(), EvCmp());
    Ev e = std::move(g_events->back());
    g_events->pop_back();
    hash_mix(e.t * 31 + 7);
    e.f();
  }
}
static int64_t next_timer() {
  int64_t t = INT64_MAX;
  if (!g_events->empty()) t = g_events->front().t;
  for (int i = 0; i < g_nthreads; i++) {
    Thread& th = g_threads[i];
    if (th.state != BLOCKED) continue;
    if (th.deadline >= 0 && th.deadline < t) t = th.deadline;
    if (th.eintr_at >= 0 && th.eintr_at < t) t = th.eintr_at;
  }
  return t;
}
static void expire() {
  for (int i = 0; i < g_nthreads; i++) {
    Thread& th = g_threads[i];
    if (th.state != BLOCKED) continue;
    if (th.deadline >= 0 && th.deadline <= g_now) {
      th.timed_out = true;
      th.state = RUNNABLE;
    } else if (th.eintr_at >= 0 && th.eintr_at <= g_now) {
      th.eintr = true;
      th.state = RUNNABLE;
    }
  }
}

// ---- happens-before ------------------------------------------------------
void hb_acquire(const VC& o) {
  VC& v = g_cur->vc;
  for (int i = 0; i < g_nthreads; i++) if (o.v[i] > v.v[i]) v.v[i] = o.v[i];
}
void hb_release(VC& o) {
  VC& v = g_cur->vc;
  for (int i = 0; i < g_nthreads; i++) if (v.v[i] > o.v[i]) o.v[i] = v.v[i];
  v.v[g_cur->id]++;
}
static std::unordered_map<const void*, VC>* g_sync;
VC& sync_vc(const void* a) {
  auto it = g_sync->find(a);
  if (it == g_sync->end()) { VC z; z.clear(); it = g_sync->emplace(a, z).first; }
  return it->second;
}

// ---- scheduling ----------------------------------------------------------
static int g_strategy = 0;
static uint32_t g_switch_den = 8;
static uint32_t g_quantum = 5;
static int64_t g_lowprio = -1;
static uint32_t g_mem_rate = 0, g_mem_gap = 0;  // memory preemption
static uint32_t g_stall_left = 0;

static long futex(uint32_t* a, int op, uint32_t v) { return syscall(SYS_futex, a, op, v, nullptr, nullptr, 0); }
static void park(Thread* t) {
  while (__atomic_load_n(&t->futex, __ATOMIC_ACQUIRE) == 0) futex(&t->futex, FUTEX_WAIT_PRIVATE, 0);
  __atomic_store_n(&t->futex, 0, __ATOMIC_RELEASE);
}
static void unpark(Thread* t) {
  __atomic_store_n(&t->futex, 1, __ATOMIC_RELEASE);
  futex(&t->futex, FUTEX_WAKE_PRIVATE, 1);
}

void make_runnable(Thread* t) {
  if (t->state == BLOCKED) t->state = RUNNABLE;
}
void wake_obj(Wait w, const void* obj) {
  for (int i = 0; i < g_nthreads; i++) {
    Thread& t = g_threads[i];
    if (t.state == BLOCKED && t.wait == w && t.obj == obj) { t.woken = true; t.state = RUNNABLE; }
  }
}
void wake_io(const void* obj) {
  for (int i = 0; i < g_nthreads; i++) {
    Thread& t = g_threads[i];
    if (t.state != BLOCKED || t.wait != W_IO) continue;
    for (auto* o : t.io) if (o == obj) { t.woken = true; t.state = RUNNABLE; break; }
  }
}

static const char* wname(Wait w) {
  static const char* n[] = {"none", "mutex", "cond", "io", "sleep", "join", "stall", "guard"};
  return n[w];
}
void thread_dump(std::string& out) {
  char b[300];
  for (int i = 0; i < g_nthreads; i++) {
    Thread& t = g_threads[i];
    snprintf(b, sizeof b, "\n  t%d node%d %s%s%s op=%s obj=%p deadline=%lld bt=", t.id, t.node,
             t.state == RUNNABLE ? "runnable" : t.state == BLOCKED ? "blocked:" : "finished",
             t.state == BLOCKED ? wname(t.wait) : "", "", t.op, t.obj, (long long)t.deadline);
    out += b;
    if (t.state == FINISHED) continue;
    snprintf(b, sizeof b, "%p", t.pc);
    out += b;
    char* fp = (char*)t.fp;
    for (int d = 0; d < 24 && fp > t.stack_lo && fp + 16 <= t.stack_hi && ((uintptr_t)fp & 7) == 0; d++) {
      void* ra = ((void**)fp)[1];
      char* nf = ((char**)fp)[0];
      if (!ra) break;
      snprintf(b, sizeof b, ",%p", ra);
      out += b;
      if (nf <= fp) break;
      fp = nf;
    }
  }
}

static void switch_to(Thread* n) {
  Thread* me = g_cur;
  if (n == me) return;
  g_sh->switches++;
  // Sites inside shared libraries move from process to process: leave them out.
  uintptr_t from = (uintptr_t)me->pc < 0x10000000 ? (uintptr_t)me->pc : 0, to = (uintptr_t)n->pc < 0x10000000 ? (uintptr_t)n->pc : 0;
  sched_mix((uint64_t)n->id * 1000003 + (from & 0xfffff));
  uint32_t pair = (uint32_t)(((from * 2654435761u) ^ (to * 40503u)) & 0xffff);
  g_sh->pairs[pair >> 3] |= 1 << (pair & 7);
  hash_mix(n->id + 1);
  me->consecutive = 0;
  g_cur = n;
  unpark(n);
  park(me);
}

static Thread* pick_next(bool cur_ok) {
  Thread* cand[MAXT];
  int n = 0;
  if (cur_ok) cand[n++] = g_cur;
  for (int i = 0; i < g_nthreads; i++) {
    Thread& t = g_threads[i];
    if (t.state == RUNNABLE && !(cur_ok && &t == g_cur)) cand[n++] = &t;
  }
  if (n == 0) return nullptr;
  if (n == 1) return cand[0];
  uint32_t out;
  if (!forced(sim::SCHED, n, out)) {
    Rng& r = g_rng[sim::SCHED];
    int strat = g_endgame ? 0 : g_strategy;
    out = 0;
    if (strat == 0) {
      if (cur_ok) {
        if (r.below(g_endgame ? 4 : g_switch_den) == 0) out = 1 + r.below(n - 1);
      } else out = r.below(n);
    } else if (strat == 1) {
      if (cur_ok && (g_cur->consecutive > 3000 || r.below(4000) == 0 || r.below(g_switch_den * 40) == 0))
        g_cur->prio = g_lowprio--;
      for (int i = 1; i < n; i++) if (cand[i]->prio > cand[out]->prio) out = i;
    } else {
      if (cur_ok && g_cur->consecutive < g_quantum) out = 0;
      else {
        // next id after current
        int best = -1;
        for (int i = cur_ok ? 1 : 0; i < n; i++)
          if (cand[i]->id > g_cur->id && (best < 0 || cand[i]->id < cand[best]->id)) best = i;
        if (best < 0) for (int i = cur_ok ? 1 : 0; i < n; i++) if (best < 0 || cand[i]->id < cand[best]->id) best = i;
        out = best < 0 ? 0 : best;
        if (r.below(16) == 0) out = r.below(n);
      }
    }
  }
  record(sim::SCHED, out);
  return cand[out];
}

[[noreturn]] static void deadlock() {
  std::string d = "no thread can ever run again";
  thread_dump(d);
  sim::fail("deadlock", "%s", d.c_str());
}

static Thread* next_or_advance(bool cur_ok) {
  while (true) {
    run_events();
    expire();
    if (Thread* t = pick_next(cur_ok && g_cur->state == RUNNABLE)) return t;
    int64_t t = next_timer();
    if (t == INT64_MAX) deadlock();
    if (t > g_now) g_now = t;
  }
}

static void draw_gap() {
  if (!g_mem_rate || g_endgame) { g_preempt = -1; return; }
  uint32_t out;
  if (!forced(sim::SCHED, 0, out)) {
    Rng& r = g_rng[sim::SCHED];
    out = r.below(1000) < g_mem_rate ? 1 + r.below(g_mem_gap) : 0;
  }
  record(sim::SCHED, out);
  g_preempt = out ? (int64_t)out : -1;
}

static void step_caps() {
  uint64_t s = g_sh->steps;
  if (s > g_opt.max_steps) {
    std::string d = "step cap reached with the workload unfinished, faults off and a fair scheduler";
    thread_dump(d);
    sim::fail("livelock", "%s", d.c_str());
  }
  if (s > g_opt.max_steps / 4 && !g_endgame) {
    g_endgame = true;
    sim::calm();
    // Tiny buffers are no livelock either.
    g_faults.sndbuf = g_faults.rcvbuf = g_faults.pipe_cap = 1 << 16;
    g_preempt = -1;
    logf("endgame");
  }
}

static void maybe_stall() {
  if (g_calm || !g_faults.stall || g_endgame) return;
  if (!sim::chance(sim::FAULT, g_faults.stall, 1000000)) return;
  // Deschedule the running thread past a timer boundary.
  int64_t t = next_timer();
  int64_t d = 1000 + (int64_t)sim::pick(sim::FAULT, 3000000);
  if (t != INT64_MAX && t - g_now < 20000000000LL && sim::chance(sim::FAULT, 1, 2)) d = t - g_now + 1 + sim::pick(sim::FAULT, 2000000);
  sim::count_fault(sim::F_STALL);
  block(W_STALL, nullptr, g_now + d, "stalled", g_cur->pc);
}

static void note_step(const char* op, void* pc) {
  g_sh->steps++;
  g_now += g_endgame ? g_opt.step_ns * 50 : g_opt.step_ns;
  g_cur->op = op;
  g_cur->pc = pc;
  g_cur->consecutive++;
}

void point(const char* op, void* pc) {
  note_step(op, pc);
  g_cur->fp = __builtin_frame_address(0);
  step_caps();
  if (g_preempt < 0 && g_mem_rate && (g_sh->steps & 7) == 0) draw_gap();
  Thread* n = next_or_advance(true);
  switch_to(n);
  maybe_stall();
}

bool block(Wait w, const void* obj, int64_t deadline, const char* op, void* pc) {
  Thread* me = g_cur;
  note_step(op, pc);
  me->fp = __builtin_frame_address(0);
  step_caps();
  me->state = BLOCKED;
  me->wait = w;
  me->obj = obj;
  me->deadline = deadline;
  me->timed_out = false;
  me->woken = false;
  me->eintr = false;
  Thread* n = next_or_advance(false);
  switch_to(n);
  me->state = RUNNABLE;
  me->wait = W_NONE;
  me->deadline = -1;
  me->eintr_at = -1;
  return me->timed_out && !me->woken;
}

void preempt_now(void* pc) {
  g_preempt = -1;
  if (!on()) return;
  InSim in;
  Thread* me = g_cur;
  g_sh->steps++;
  g_now += g_opt.step_ns;
  me->op = "memory access";
  me->pc = pc;
  me->fp = __builtin_frame_address(0);
  run_events();
  expire();
  draw_gap();
  // Prefer to switch away: that is the point of stopping here.
  Thread* cand[MAXT];
  int n = 0;
  cand[n++] = me;
  for (int i = 0; i < g_nthreads; i++) if (g_threads[i].state == RUNNABLE && &g_threads[i] != me) cand[n++] = &g_threads[i];
  uint32_t out = 0;
  if (n > 1) {
    if (!forced(sim::SCHED, n, out)) { Rng& r = g_rng[sim::SCHED]; out = r.below(n); }
    record(sim::SCHED, out);
    if (g_strategy == 1 && out) { me->prio = g_lowprio--; }
  }
  g_sh->preempts++;
  if (out) sim::count_fault(sim::F_PREEMPT);
  switch_to(cand[out]);
}

// ---- run control ---------------------------------------------------------
void end_run(int status) {
  g_sh->sim_ns = g_now;
  g_sh->accesses = g_accesses;
  g_sh->threads = g_nthreads;
  g_sh->status = status;
  _exit(0);
}

static void terminate_handler() {
  InSim in;
  const char* what = "";
  std::string type = "unknown";
  if (auto* ti = abi::__cxa_current_exception_type()) {
    int st;
    char* d = abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st);
    type = d ? d : ti->name();
    try { throw; } catch (const std::exception& e) { what = e.what(); } catch (...) {}
  }
  std::string dump;
  if (g_cur) { g_cur->fp = __builtin_frame_address(0); g_cur->pc = __builtin_return_address(0); thread_dump(dump); }
  sim::fail("terminate", "std::terminate called: uncaught %s: %s%s", type.c_str(), what, dump.c_str());
}

void sched_init_process() { std::set_terminate(terminate_handler); }

static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);

static void thread_exit(Thread* t) {
  t->state = FINISHED;
  hb_release(sync_vc(t));
  wake_obj(W_JOIN, t);
  logf("thread exit");
  Thread* n = next_or_advance(false);
  g_sh->switches++;
  hash_mix(n->id + 1);
  sched_mix((uint64_t)n->id * 1000003 + 17);
  g_cur = n;
  unpark(n);
  for (;;) { uint32_t z = 0; futex(&z, FUTEX_WAIT_PRIVATE, 0); }
}

static void* trampoline(void* p) {
  Thread* t = (Thread*)p;
  t_in_sim = 1;
  __atomic_store_n(&t->parked, 1, __ATOMIC_RELEASE);
  futex(&t->parked, FUTEX_WAKE_PRIVATE, 1);
  park(t);
  t->state = RUNNABLE;
  hb_acquire(sync_vc(t));
  t_in_sim = 0;
  void* r = t->fn(t->arg);
  t_in_sim = 1;
  t->ret = r;
  thread_exit(t);
  return nullptr;
}

static Thread* spawn(void* (*fn)(void*), void* arg, pthread_t* out) {
  if (g_nthreads >= MAXT) { g_sh->status = 4; snprintf(g_sh->kind, sizeof g_sh->kind, "too-many-threads"); g_sh->sim_ns = g_now; _exit(0); }
  if (!real_create) real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
  int id = g_nthreads;
  Thread* t = &g_threads[id];
  t->id = id;
  t->fn = fn;
  t->arg = arg;
  t->vc.clear();
  t->vc.v[id] = 1;
  t->futex = 0;
  t->parked = 0;
  t->node = g_cur ? g_cur->node : 0;
  t->stack_lo = g_stacks + (size_t)id * STACK_SIZE;
  t->stack_hi = t->stack_lo + STACK_SIZE;
  t->state = RUNNABLE;
  g_nthreads++;
  uint32_t pr;
  if (!forced(sim::SCHED, 0, pr)) pr = g_rng[sim::SCHED].below(1000);
  t->prio = record(sim::SCHED, pr);
  if (g_cur) hb_release(sync_vc(t));
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstack(&a, t->stack_lo, STACK_SIZE);
  int rc = real_create(&t->pt, &a, trampoline, t);
  if (rc) { g_sh->status = 4; snprintf(g_sh->kind, sizeof g_sh->kind, "pthread_create-%d", rc); _exit(0); }
  while (!__atomic_load_n(&t->parked, __ATOMIC_ACQUIRE)) futex(&t->parked, FUTEX_WAIT_PRIVATE, 0);
  if (out) *out = t->pt;
  return t;
}

static Thread* by_pt(pthread_t p) {
  for (int i = 0; i < g_nthreads; i++) if (g_threads[i].pt == p) return &g_threads[i];
  return nullptr;
}

static void (*g_main_fn)();
static void* main_thread(void*) {
  g_main_fn();
  InSim in;
  end_run(1);
}

void run_main(void (*fn)(), uint64_t seed) {
  ++t_in_sim;
  g_events = new std::vector<Ev>;
  g_sync = new std::unordered_map<const void*, VC>;
  g_sync->reserve(4096);
  choices_begin(seed);
  io_begin_run();
  // Swarm: pick this run's scheduler configuration.
  g_strategy = (int)sim::weighted(sim::CFG, {4, 4, 2});
  static const uint32_t dens[] = {2, 4, 8, 16, 48};
  g_switch_den = dens[sim::pick(sim::CFG, 5)];
  g_quantum = 1 + sim::pick(sim::CFG, 12);
  static const uint32_t rates[] = {0, 0, 60, 250, 700};
  g_mem_rate = rates[sim::pick(sim::CFG, 5)];
  static const uint32_t gaps[] = {30, 200, 1500, 8000};
  g_mem_gap = gaps[sim::pick(sim::CFG, 4)];
  bool reuse = sim::chance(sim::CFG, 1, 5);
  static const int64_t ns[] = {1000, 200, 5000, 20000};
  g_opt.step_ns = ns[sim::pick(sim::CFG, 4)];
  static const uint8_t fills[] = {0xa5, 0x00, 0xff, 0x01};
  mem_begin_run(reuse, fills[sim::pick(sim::CFG, 4)]);
  g_now = 1000000;
  g_main_fn = fn;
  g_active = true;
  Thread* t = spawn(main_thread, nullptr, nullptr);
  g_cur = t;
  unpark(t);
  for (;;) { uint32_t z = 0; futex(&z, FUTEX_WAIT_PRIVATE, 0); }
}
void options_applied() {
  if (!g_opt.mem_preempt) { g_mem_rate = 0; g_preempt = -1; }
  g_race_on = g_opt.races;
}

}  // namespace simi

using namespace simi;

// ---- public API ----------------------------------------------------------
namespace sim {

uint32_t pick(Stream s, uint32_t n) {
  InSim in;
  if (n <= 1) return 0;
  uint32_t out;
  if (!forced(s, n, out)) out = g_rng[s].below(n);
  hash_mix(out + 3);
  return record(s, out);
}
bool chance(Stream s, uint32_t num, uint32_t den) {
  InSim in;
  if (num == 0) return false;
  uint32_t out;
  if (!forced(s, 2, out)) out = g_rng[s].below(den) < num;
  record(s, out);
  return out;
}
uint32_t weighted(Stream s, const std::vector<uint32_t>& w) {
  InSim in;
  uint32_t out;
  if (!forced(s, (uint32_t)w.size(), out)) {
    uint32_t tot = 0;
    for (auto x : w) tot += x;
    uint32_t r = g_rng[s].below(tot);
    out = 0;
    while (r >= w[out]) r -= w[out++];
  }
  return record(s, out);
}
int64_t now_ns() { return g_now; }
uint64_t seq() { return ++g_seq; }
int64_t real_ns(int node) { return 1600000000000000000LL + g_now + g_skew[node & 15]; }
void sleep_ns(int64_t ns) {
  InSim in;
  g_cur->fp = __builtin_frame_address(0);
  block(W_SLEEP, nullptr, g_now + ns, "sleep", __builtin_return_address(0));
}
void yield() { InSim in; point("yield", __builtin_return_address(0)); }
void fail(const char* kind, const char* fmt, ...) {
  ++t_in_sim;
  g_active = false;
  snprintf(g_sh->kind, sizeof g_sh->kind, "%s", kind);
  va_list ap;
  va_start(ap, fmt);
  int k = vsnprintf(g_sh->detail, sizeof g_sh->detail, fmt, ap);
  va_end(ap);
  if (g_cur && k > 0 && k < (int)sizeof g_sh->detail - 200 && !strstr(g_sh->detail, "bt=")) {
    // Backtrace of the failing thread.
    std::string b = " bt=";
    char t[32];
    snprintf(t, sizeof t, "%p", __builtin_return_address(0));
    b += t;
    char* fp = (char*)__builtin_frame_address(0);
    for (int d = 0; d < 24 && fp > g_cur->stack_lo && fp + 16 <= g_cur->stack_hi && ((uintptr_t)fp & 7) == 0; d++) {
      void* ra = ((void**)fp)[1];
      char* nf = ((char**)fp)[0];
      if (!ra) break;
      snprintf(t, sizeof t, ",%p", ra);
      b += t;
      if (nf <= fp) break;
      fp = nf;
    }
    snprintf(g_sh->detail + k, sizeof g_sh->detail - k, "\n  t%d%s", g_cur->id, b.c_str());
  }
  for (char* p = g_sh->detail; *p; p++) if ((unsigned char)*p >= 0x7f || ((unsigned char)*p < 32 && *p != '\n')) *p = '?';
  logf("FAIL %s: %s", kind, g_sh->detail);
  end_run(2);
}
std::string g_known_keys;
bool known_finding(const char* key) {
  InSim in;
  if ((',' + g_known_keys + ',').find(std::string(",") + key + ",") == std::string::npos) return false;
  snprintf(g_sh->known, sizeof g_sh->known, "%s", key);
  return true;
}
void note(const char* fmt, ...) {
  InSim in;
  char b[400];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  for (const char* p = b; *p; p++) hash_mix((unsigned char)*p);
  logf("%s", b);
}
void sample(const char* fmt, ...) {
  InSim in;
  size_t l = strlen(g_sh->sample);
  if (l + 100 > sizeof g_sh->sample) return;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(g_sh->sample + l, sizeof g_sh->sample - l, fmt, ap);
  va_end(ap);
}
void probe(const char* name) {
  InSim in;
  for (uint32_t i = 0; i < g_sh->nprobes; i++)
    if (!strcmp(g_sh->probes[i].name, name)) { g_sh->probes[i].n++; return; }
  if (g_sh->nprobes < 96) {
    auto& p = g_sh->probes[g_sh->nprobes++];
    snprintf(p.name, sizeof p.name, "%s", name);
    p.n = 1;
  }
}
void set_node(int n) { g_cur->node = n; }
int node() { return g_cur ? g_cur->node : 0; }
void clock_jump(int n, int64_t d) { InSim in; g_skew[n & 15] += d; hash_mix(d); count_fault(F_CLOCK_JUMP); logf("clock jump node %d %lld ms", n, (long long)(d / 1000000)); }
Faults& faults() { return g_faults; }
Options& options() { return g_opt; }
void calm() { InSim in; g_calm = true; uint32_t a = g_faults.lat_min_us; uint32_t s = g_faults.sndbuf, r = g_faults.rcvbuf, p = g_faults.pipe_cap; g_faults = Faults(); g_faults.lat_min_us = g_faults.lat_max_us = a; g_faults.sndbuf = s; g_faults.rcvbuf = r; g_faults.pipe_cap = p; logf("calm"); }
bool calmed() { return g_calm; }
void count_fault(FaultKind k) { g_sh->faults[k]++; }
int tid() { return g_cur->id; }
int nthreads_live() { int n = 0; for (int i = 0; i < g_nthreads; i++) n += g_threads[i].state != FINISHED; return n; }
uint64_t steps() { return g_sh->steps; }
void set_phase(const char* w) { snprintf(g_sh->phase, sizeof g_sh->phase, "%s", w); }
Quiet::Quiet() { ++t_in_sim; }
Quiet::~Quiet() { --t_in_sim; }

}  // namespace sim

// ---- pthread interposition -------------------------------------------------
// Overlay on pthread_mutex_t: owner thread id + 1, depth of recursion, glibc's kind.
struct M { uint32_t owner, depth, pad[2]; int kind; };
#define PC __builtin_return_address(0)

// False if the deadline came first.
static bool mutex_lock_raw(M* m, const char* op, void* pc, int64_t deadline = -1) {
  Thread* me = g_cur;
  while (m->owner) {
    if (m->owner == (uint32_t)me->id + 1) {
      if ((m->kind & 3) == PTHREAD_MUTEX_RECURSIVE) { m->depth++; return true; }
      sim::fail("self-deadlock", "thread %d locks a mutex it already holds (%p) pc=%p", me->id, (void*)m, pc);
    }
    if (deadline >= 0 && g_now >= deadline) return false;
    block(W_MUTEX, m, deadline, op, pc);
  }
  m->owner = me->id + 1;
  hb_acquire(sync_vc(m));
  return true;
}
static void mutex_unlock_raw(M* m, void* pc) {
  if (m->owner != (uint32_t)g_cur->id + 1)
    sim::fail("bad-unlock", "thread %d unlocks mutex %p owned by %d pc=%p", g_cur->id, (void*)m, (int)m->owner - 1, pc);
  if (m->depth) { m->depth--; return; }
  hb_release(sync_vc(m));
  m->owner = 0;
  wake_obj(W_MUTEX, m);
}
static int64_t abs_to_mono(clockid_t c, const struct timespec* ts) {
  int64_t t = ts->tv_sec * 1000000000LL + ts->tv_nsec;
  if (c == CLOCK_REALTIME) return t - (1600000000000000000LL + g_skew[g_cur->node & 15]);
  return t - 5000000000000LL;
}
struct CondQ { std::vector<int> waiters; };
static std::unordered_map<const void*, CondQ>* g_conds;
static CondQ& cq(const void* c) {
  if (!g_conds) g_conds = new std::unordered_map<const void*, CondQ>;
  return (*g_conds)[c];
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline, void* pc) {
  InSim in;
  mem_check(c, sizeof *c, false, pc);
  mutex_unlock_raw((M*)m, pc);
  Thread* me = g_cur;
  cq(c).waiters.push_back(me->id);
  if (!sim::calmed() && sim::faults().spurious_wake && sim::chance(sim::FAULT, sim::faults().spurious_wake, 1000000)) {
    int id = me->id;
    int64_t when = g_now + 1000 + sim::pick(sim::FAULT, 500000);
    const void* cc = c;
    at(when, [id, cc] {
      Thread& t = g_threads[id];
      if (t.state == BLOCKED && t.wait == W_COND && t.obj == cc) {
        sim::count_fault(sim::F_SPUR_WAKE);
        auto& w = cq(cc).waiters;
        w.erase(std::remove(w.begin(), w.end(), id), w.end());
        t.woken = true;
        t.state = RUNNABLE;
      }
    });
  }
  bool to = block(W_COND, c, deadline, "cond_wait", pc);
  if (to) {
    auto& w = cq(c).waiters;
    w.erase(std::remove(w.begin(), w.end(), me->id), w.end());
  }
  mutex_lock_raw((M*)m, "cond relock", pc);
  return to ? ETIMEDOUT : 0;
}

extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t* at_, void* (*fn)(void*), void* arg) {
  if (!on()) {
    if (!real_create) real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
    return real_create(out, at_, fn, arg);
  }
  InSim in;
  Thread* t = spawn(fn, arg, out);
  logf("create t%d", t->id);
  point("pthread_create", PC);
  return 0;
}
int pthread_join(pthread_t p, void** ret) {
  if (!g_active) return 0;
  InSim in;
  Thread* t = by_pt(p);
  if (!t || t->joined || t->detached) sim::fail("bad-join", "join of an unknown, joined or detached thread pc=%p", PC);
  if (t == g_cur) return EDEADLK;
  point("pthread_join", PC);
  while (t->state != FINISHED) block(W_JOIN, t, -1, "join", PC);
  t->joined = true;
  hb_acquire(sync_vc(t));
  if (ret) *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t p) {
  if (!g_active) return 0;
  InSim in;
  Thread* t = by_pt(p);
  if (!t || t->joined || t->detached) sim::fail("bad-join", "detach of an unknown, joined or detached thread");
  t->detached = true;
  return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  __builtin_memset(m, 0, sizeof *m);
  if (a) pthread_mutexattr_gettype(a, &((M*)m)->kind);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (!on()) return 0;
  InSim in;
  if (((M*)m)->owner) sim::fail("destroy-locked-mutex", "mutex %p destroyed while locked pc=%p", (void*)m, PC);
  mem_check(m, sizeof *m, true, PC);
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!on()) return 0;
  InSim in;
  mem_addressable(m, sizeof *m, "mutex lock", PC);
  point("mutex_lock", PC);
  mem_addressable(m, sizeof *m, "mutex lock", PC);
  mutex_lock_raw((M*)m, "mutex_lock", PC);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!on()) return 0;
  InSim in;
  mem_addressable(m, sizeof *m, "mutex trylock", PC);
  point("mutex_trylock", PC);
  M* mm = (M*)m;
  if (mm->owner == (uint32_t)g_cur->id + 1 && (mm->kind & 3) == PTHREAD_MUTEX_RECURSIVE) { mm->depth++; return 0; }
  if (mm->owner) return EBUSY;
  mm->owner = g_cur->id + 1;
  hb_acquire(sync_vc(m));
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!on()) return 0;
  InSim in;
  mem_addressable(m, sizeof *m, "mutex unlock", PC);
  mutex_unlock_raw((M*)m, PC);
  point("mutex_unlock", PC);
  return 0;
}
static int mutex_lock_until(pthread_mutex_t* m, int64_t deadline, void* pc) {
  mem_addressable(m, sizeof *m, "mutex lock", pc);
  point("mutex_timedlock", pc);
  return mutex_lock_raw((M*)m, "mutex_timedlock", pc, deadline) ? 0 : ETIMEDOUT;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  if (!on()) return 0;
  InSim in;
  return mutex_lock_until(m, std::max<int64_t>(0, abs_to_mono(CLOCK_REALTIME, ts)), PC);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t ck, const struct timespec* ts) {
  if (!on()) return 0;
  InSim in;
  return mutex_lock_until(m, std::max<int64_t>(0, abs_to_mono(ck, ts)), PC);
}

// Readers and writers; waiters of either kind compete for a lock that is free.
struct RW { uint32_t writer, readers; };  // overlay on pthread_rwlock_t
static const void* rw_readers(RW* l) { return (char*)l + 4; }
static int rw_lock(pthread_rwlock_t* p, bool write, int64_t deadline, bool wait, void* pc) {
  if (!on()) return 0;
  InSim in;
  RW* l = (RW*)p;
  mem_addressable(l, sizeof *p, "rwlock lock", pc);
  point("rwlock_lock", pc);
  while (l->writer || (write && l->readers)) {
    if (l->writer == (uint32_t)g_cur->id + 1)
      sim::fail("self-deadlock", "thread %d locks a reader-writer lock it already holds (%p) pc=%p", g_cur->id, (void*)l, pc);
    if (!wait) return EBUSY;
    if (deadline >= 0 && g_now >= deadline) return ETIMEDOUT;
    block(W_MUTEX, l, deadline, "rwlock_lock", pc);
  }
  hb_acquire(sync_vc(l));
  if (write) { l->writer = g_cur->id + 1; hb_acquire(sync_vc(rw_readers(l))); }
  else l->readers++;
  return 0;
}
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { __builtin_memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* p) {
  if (!on()) return 0;
  InSim in;
  RW* l = (RW*)p;
  if (l->writer || l->readers) sim::fail("destroy-locked-mutex", "reader-writer lock %p destroyed while locked pc=%p", (void*)l, PC);
  mem_check(l, sizeof *p, true, PC);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rw_lock(l, false, -1, true, PC); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return rw_lock(l, true, -1, true, PC); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rw_lock(l, false, -1, false, PC); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return rw_lock(l, true, -1, false, PC); }
static int64_t rw_deadline(clockid_t c, const struct timespec* ts) { return on() ? std::max<int64_t>(0, abs_to_mono(c, ts)) : -1; }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* ts) { return rw_lock(l, false, rw_deadline(CLOCK_REALTIME, ts), true, PC); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* ts) { return rw_lock(l, true, rw_deadline(CLOCK_REALTIME, ts), true, PC); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* ts) { return rw_lock(l, false, rw_deadline(c, ts), true, PC); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* ts) { return rw_lock(l, true, rw_deadline(c, ts), true, PC); }
int pthread_rwlock_unlock(pthread_rwlock_t* p) {
  if (!on()) return 0;
  InSim in;
  RW* l = (RW*)p;
  mem_addressable(l, sizeof *p, "rwlock unlock", PC);
  if (l->writer) {
    if (l->writer != (uint32_t)g_cur->id + 1) sim::fail("bad-unlock", "thread %d unlocks reader-writer lock %p owned by %d pc=%p", g_cur->id, (void*)l, (int)l->writer - 1, PC);
    hb_release(sync_vc(l));
    l->writer = 0;
  } else {
    if (!l->readers) sim::fail("bad-unlock", "thread %d unlocks reader-writer lock %p that is not locked pc=%p", g_cur->id, (void*)l, PC);
    hb_release(sync_vc(rw_readers(l)));
    l->readers--;
  }
  wake_obj(W_MUTEX, l);
  point("rwlock_unlock", PC);
  return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { __builtin_memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) {
  if (!on()) return 0;
  InSim in;
  if (!cq(c).waiters.empty()) sim::fail("destroy-waited-cond", "condition variable %p destroyed with waiters pc=%p", (void*)c, PC);
  mem_check(c, sizeof *c, true, PC);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!on()) return 0;
  return cond_wait(c, m, -1, PC);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!on()) return 0;
  return cond_wait(c, m, abs_to_mono(CLOCK_REALTIME, ts), PC);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const struct timespec* ts) {
  if (!on()) return 0;
  return cond_wait(c, m, abs_to_mono(ck, ts), PC);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!on()) return 0;
  InSim in;
  point("cond_signal", PC);
  mem_check(c, sizeof *c, false, PC);
  auto& w = cq(c).waiters;
  if (!w.empty()) {
    size_t i = sim::pick(sim::SCHED, (uint32_t)w.size());
    int id = w[i];
    w.erase(w.begin() + i);
    g_threads[id].woken = true;
    make_runnable(&g_threads[id]);
  }
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!on()) return 0;
  InSim in;
  point("cond_broadcast", PC);
  mem_check(c, sizeof *c, false, PC);
  auto& w = cq(c).waiters;
  for (int id : w) { g_threads[id].woken = true; make_runnable(&g_threads[id]); }
  w.clear();
  return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
  // 0 = new, 1 = running, 2 = done
  volatile int* s = (volatile int*)o;
  if (!on()) { if (*s != 2) { *s = 2; fn(); } return 0; }
  {
    InSim in;
    point("once", PC);
    while (*s == 1) block(W_GUARD, (const void*)o, -1, "once", PC);
    if (*s == 2) { hb_acquire(sync_vc(o)); return 0; }
    *s = 1;
  }
  fn();
  InSim in;
  *s = 2;
  hb_release(sync_vc(o));
  wake_obj(W_GUARD, (const void*)o);
  return 0;
}
int __cxa_guard_acquire(uint64_t* g) {
  uint8_t* b = (uint8_t*)g;
  if (b[0] == 1) { if (on()) { InSim in; hb_acquire(sync_vc(g)); } return 0; }
  if (!on()) { b[1] = 1; return 1; }
  InSim in;
  point("static_init", PC);
  while (b[1]) block(W_GUARD, g, -1, "static_init", PC);
  if (b[0] == 1) { hb_acquire(sync_vc(g)); return 0; }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  uint8_t* b = (uint8_t*)g;
  b[1] = 0;
  b[0] = 1;
  if (on()) { InSim in; hb_release(sync_vc(g)); wake_obj(W_GUARD, g); }
}
void __cxa_guard_abort(uint64_t* g) {
  uint8_t* b = (uint8_t*)g;
  b[1] = 0;
  if (on()) { InSim in; wake_obj(W_GUARD, g); }
}

// ---- clocks & sleeping ----
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!g_active) return (int)syscall(SYS_clock_gettime, c, ts);
  int64_t t = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? sim::real_ns(g_cur->node) : 5000000000000LL + g_now;
  ts->tv_sec = t / 1000000000LL;
  ts->tv_nsec = t % 1000000000LL;
  return 0;
}
int gettimeofday(struct timeval* tv, void*) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* o) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (o) *o = ts.tv_sec;
  return ts.tv_sec;
}
int nanosleep(const struct timespec* r, struct timespec*) {
  if (!on()) return (int)syscall(SYS_nanosleep, r, nullptr);
  InSim in;
  block(W_SLEEP, nullptr, g_now + r->tv_sec * 1000000000LL + r->tv_nsec, "nanosleep", PC);
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* r, struct timespec*) {
  if (!on()) return (int)syscall(SYS_clock_nanosleep, c, flags, r, nullptr);
  InSim in;
  int64_t d = flags & TIMER_ABSTIME ? abs_to_mono(c, r) : g_now + r->tv_sec * 1000000000LL + r->tv_nsec;
  block(W_SLEEP, nullptr, d, "clock_nanosleep", PC);
  return 0;
}
int usleep(useconds_t us) {
  if (!on()) { struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &ts, nullptr); }
  sim::sleep_us(us);
  return 0;
}
int sched_yield() {
  if (!on()) return (int)syscall(SYS_sched_yield);
  sim::yield();
  return 0;
}
}

// Exception objects are reference counted inside the (uninstrumented) C++
// runtime: model the ordering those counts provide.
static void exception_ref(void* obj) {
  if (!obj || !on() || !g_cur) return;
  InSim in;
  VC& v = sync_vc(obj);
  hb_acquire(v);
  hb_release(v);
}
extern "C" void* __cxa_get_globals() noexcept;
extern "C" void __cxa_end_catch() {
  static void (*real)();
  if (!real) { InSim in; real = (void (*)())dlsym(RTLD_NEXT, "__cxa_end_catch"); }
  char* c = *(char**)__cxa_get_globals();
  if (c) exception_ref((*(uint64_t*)(c + 80) & 0xff) == 1 ? *(void**)c : c + 112);
  real();
}
extern "C" void sim_eptr_release(void** self) __asm__("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
extern "C" void sim_eptr_release(void** self) {
  static void (*real)(void**);
  if (!real) { InSim in; real = (void (*)(void**))dlsym(RTLD_NEXT, "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"); }
  exception_ref(*self);
  real(self);
}
