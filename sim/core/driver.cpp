// Batch, replay and minimise simulated runs.  One run = one forked child.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "internal.h"

namespace simi {
extern bool g_replay;
extern std::map<uint32_t, uint32_t>* g_forced[sim::NSTREAMS];
void run_main(void (*fn)(), uint64_t seed);
void sched_init_process();
void options_applied();
}
using namespace simi;

namespace sim {
static std::vector<Scenario>* g_scen;
std::vector<Scenario>& scenarios() { if (!g_scen) g_scen = new std::vector<Scenario>; return *g_scen; }
Register::Register(const char* p, const char* n, void (*f)(), uint32_t w) { scenarios().push_back(Scenario{p, n, f, w, w}); }
static std::string g_prop;
const char* prop() { return g_prop.c_str(); }
extern std::string g_known_keys;
}

static double wall() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec / 1e9;
}

struct Choice { uint32_t s, i, v; };
struct Replay {
  std::string prop, scenario, kind, known;
  uint64_t seed = 0, hash = 0;
  bool has_choices = false;
  std::vector<Choice> c;
};

static std::vector<sim::Scenario*> g_list;
static std::string g_only;

static void load_list(const std::string& prop) {
  g_list.clear();
  sim::g_prop = prop;
  std::vector<sim::Scenario*> v;
  for (auto& s : sim::scenarios()) if (prop == s.prop) v.push_back(&s);
  std::sort(v.begin(), v.end(), [](auto* a, auto* b) { return strcmp(a->name, b->name) < 0; });
  g_list = v;
}

static void main_entry() {
  sim::Scenario* sc;
  {
    InSim in;
    std::vector<uint32_t> w;
    for (auto* s : g_list) w.push_back(g_only.empty() || g_only == s->name ? s->weight : 0);
    sc = g_list[sim::weighted(sim::CFG, w)];
    snprintf(g_sh->scenario, sizeof g_sh->scenario, "%s", sc->name);
  }
  sc->fn();
}
namespace simi { }

static void on_signal(int sig, siginfo_t* si, void* uc_) {
  g_active = false;
  ++t_in_sim;
  auto* uc = (ucontext_t*)uc_;
  void* pc = (void*)uc->uc_mcontext.gregs[REG_RIP];
  if (sig == SIGALRM) {
    std::string d = "run made no progress in real time";
    if (g_cur) thread_dump(d);
    snprintf(g_sh->kind, sizeof g_sh->kind, "stuck-loop");
    snprintf(g_sh->detail, sizeof g_sh->detail, "%s pc=%p", d.c_str(), pc);
    end_run(2);
  }
  snprintf(g_sh->kind, sizeof g_sh->kind, "crash-%s", strsignal(sig));
  for (char* p = g_sh->kind; *p; p++) if (*p == ' ') *p = '-';
  std::string d = "signal while running";
  char b[200];
  snprintf(b, sizeof b, " addr=%p pc=%p bt=%p", si->si_addr, pc, pc);
  d += b;
  if (g_cur) {
    char* fp = (char*)uc->uc_mcontext.gregs[REG_RBP];
    for (int k = 0; k < 24 && fp > g_cur->stack_lo && fp + 16 <= g_cur->stack_hi && ((uintptr_t)fp & 7) == 0; k++) {
      void* ra = ((void**)fp)[1];
      char* nf = ((char**)fp)[0];
      if (!ra) break;
      snprintf(b, sizeof b, ",%p", ra);
      d += b;
      if (nf <= fp) break;
      fp = nf;
    }
  }
  snprintf(g_sh->detail, sizeof g_sh->detail, "%s", d.c_str());
  end_run(2);
}

static void reset_shared(uint64_t seed) {
  uint8_t keep[8192];
  memcpy(keep, g_sh->pairs, sizeof keep);
  memset((void*)g_sh, 0, sizeof *g_sh);
  memcpy(g_sh->pairs, keep, sizeof keep);
  g_sh->seed = seed;
  g_sh->hash = 0xcbf29ce484222325ULL;
  g_sh->sched_hash = 0xcbf29ce484222325ULL;
}

static void run_one(uint64_t seed, const Replay* r) {
  if (r) sim::g_known_keys = r->known;
  reset_shared(seed);
  pid_t p = fork();
  if (p < 0) { g_sh->status = 4; snprintf(g_sh->kind, sizeof g_sh->kind, "fork-failed"); return; }
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
    sched_init_process();
    if (r && r->has_choices) {
      g_replay = true;
      for (int i = 0; i < sim::NSTREAMS; i++) g_forced[i] = new std::map<uint32_t, uint32_t>;
      for (auto& c : r->c) (*g_forced[c.s])[c.i] = c.v;
    }
    alarm(60);
    run_main(main_entry, seed);
  }
  int st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st) && g_sh->status == 0) {
    g_sh->status = WTERMSIG(st) == SIGKILL ? 4 : 2;
    snprintf(g_sh->kind, sizeof g_sh->kind, "killed-signal-%d", WTERMSIG(st));
  } else if (g_sh->status == 0) {
    g_sh->status = 4;
    snprintf(g_sh->kind, sizeof g_sh->kind, "no-result-exit-%d", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
  }
  if (g_sh->status == 4) return;
}

static std::vector<Choice> sparse() {
  std::vector<Choice> v;
  for (uint32_t s = 0; s < sim::NSTREAMS; s++)
    for (uint32_t i = 0; i < std::min(g_sh->nchoices[s], MAXCHOICES); i++)
      if (g_choices[s][i]) v.push_back(Choice{s, i, g_choices[s][i]});
  return v;
}

static void write_replay(const char* path, const Replay& r, const char* detail) {
  FILE* f = fopen(path, "w");
  if (!f) { perror(path); exit(2); }
  fprintf(f, "simreplay 1\nprop %s\nscenario %s\nseed %llu\nkind %s\nhash %016llx\nknown ,%s\n", r.prop.c_str(), r.scenario.c_str(),
          (unsigned long long)r.seed, r.kind.c_str(), (unsigned long long)r.hash, r.known.c_str());
  if (r.has_choices) {
    static const char* sn[] = {"config", "ops", "schedule", "fault", "net"};
    fprintf(f, "choices %zu\n", r.c.size());
    for (auto& c : r.c) fprintf(f, "%u %u %u   # %s choice %u\n", c.s, c.i, c.v, sn[c.s], c.i);
    fprintf(f, "end\n");
  } else {
    fprintf(f, "seedonly\n");
  }
  std::string d = detail;
  fprintf(f, "detail ");
  for (char ch : d) { fputc(ch, f); if (ch == '\n') fprintf(f, "  "); }
  fprintf(f, "\n");
  fclose(f);
}
static bool read_replay(const char* path, Replay& r) {
  FILE* f = fopen(path, "r");
  if (!f) { perror(path); return false; }
  char line[16384];
  bool inch = false;
  while (fgets(line, sizeof line, f)) {
    char a[256];
    unsigned long long u;
    if (inch) {
      Choice c;
      if (sscanf(line, "%u %u %u", &c.s, &c.i, &c.v) == 3) { r.c.push_back(c); continue; }
      inch = false;
    }
    if (sscanf(line, "prop %255s", a) == 1) r.prop = a;
    else if (sscanf(line, "scenario %255s", a) == 1) r.scenario = a;
    else if (sscanf(line, "kind %255s", a) == 1) r.kind = a;
    else if (sscanf(line, "known ,%255s", a) == 1) r.known = a;
    else if (sscanf(line, "seed %llu", &u) == 1) r.seed = u;
    else if (sscanf(line, "hash %llx", &u) == 1) r.hash = u;
    else if (!strncmp(line, "choices", 7)) { r.has_choices = true; inch = true; }
    else if (!strncmp(line, "detail", 6)) break;
  }
  fclose(f);
  return true;
}

static std::string jstr(const char* s) {
  std::string o = "\"";
  for (; *s; s++) {
    unsigned char c = (unsigned char)*s;
    if (c == '"' || c == '\\') { o += '\\'; o += *s; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += *s;
  }
  return o + "\"";
}

static const char* arg(int argc, char** argv, const char* name, const char* def) {
  for (int i = 2; i + 1 < argc; i++) if (!strcmp(argv[i], name)) return argv[i + 1];
  return def;
}
static bool has(int argc, char** argv, const char* name) {
  for (int i = 2; i < argc; i++) if (!strcmp(argv[i], name)) return true;
  return false;
}

static uint64_t run_seed(uint64_t base, uint64_t idx) {
  uint64_t x = base * 0x9E3779B97F4A7C15ULL + idx * 0xD1B54A32D192ED03ULL + 0x1234567;
  x ^= x >> 31; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 29;
  return x;
}

static int batch(int argc, char** argv) {
  std::string prop = arg(argc, argv, "--prop", "");
  load_list(prop);
  if (g_list.empty()) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }
  g_only = arg(argc, argv, "--only", "");
  sim::g_known_keys = arg(argc, argv, "--known", "");
  uint64_t base = strtoull(arg(argc, argv, "--seed", "1"), 0, 10);
  for (char c : prop) base = base * 131 + (unsigned char)c;
  uint64_t count = strtoull(arg(argc, argv, "--count", "1000000000"), 0, 10);
  double limit = atof(arg(argc, argv, "--time", "1e9"));
  uint64_t w = strtoull(arg(argc, argv, "--worker", "0"), 0, 10), nw = strtoull(arg(argc, argv, "--nworkers", "1"), 0, 10);
  const char* out = arg(argc, argv, "--out", "/dev/stdout");
  const char* vio = arg(argc, argv, "--violation", "");
  const char* hashes = arg(argc, argv, "--hashes", "");
  int dup_every = atoi(arg(argc, argv, "--dup", "0"));
  bool print_hash = has(argc, argv, "--print-hash");
  if (has(argc, argv, "--pin")) {
    cpu_set_t set, have;
    CPU_ZERO(&set);
    if (sched_getaffinity(0, sizeof have, &have) == 0) {
      std::vector<int> cpus;
      for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &have)) cpus.push_back(i);
      if (!cpus.empty()) { CPU_SET(cpus[w % cpus.size()], &set); sched_setaffinity(0, sizeof set, &set); }
    }
  }
  double t0 = wall();
  uint64_t runs = 0, viol = 0, steps = 0, sw = 0, pre = 0, acc = 0, dups = 0, dup_bad = 0, harness = 0, maxsteps = 0, maxthreads = 0, faulty = 0;
  double simsec = 0;
  uint64_t faults[sim::F_KINDS] = {0};
  std::map<std::string, uint64_t> probes, scen, known;
  std::set<uint64_t> sh;
  std::vector<std::string> samples;
  std::string herr;
  for (uint64_t k = 0; k < count; k++) {
    if (wall() - t0 > limit) break;
    uint64_t idx = w + k * nw;
    uint64_t seed = run_seed(base, idx);
    run_one(seed, nullptr);
    if (g_sh->status == 4) {
      // Harness trouble (e.g. resource shortage): retry once, then give up on the run.
      run_one(seed, nullptr);
      if (g_sh->status == 4) { harness++; herr = g_sh->kind; if (harness > 20) break; continue; }
    }
    runs++;
    steps += g_sh->steps; sw += g_sh->switches; pre += g_sh->preempts; acc += g_sh->accesses;
    simsec += g_sh->sim_ns / 1e9;
    maxsteps = std::max(maxsteps, g_sh->steps);
    maxthreads = std::max<uint64_t>(maxthreads, g_sh->threads);
    bool any = false;
    for (int i = 0; i < sim::F_KINDS; i++) { faults[i] += g_sh->faults[i]; any |= g_sh->faults[i] > 0; }
    faulty += any;
    for (uint32_t i = 0; i < g_sh->nprobes; i++) probes[g_sh->probes[i].name] += g_sh->probes[i].n;
    scen[g_sh->scenario]++;
    if (prop[0] == 'S') sh.insert(g_sh->hash);   // whole execution: inputs, pieces, faults and schedule
    else if (g_sh->switches > 1 || any) sh.insert(g_sh->sched_hash);
    if (g_sh->known[0]) known[g_sh->known]++;
    if (samples.size() < 3 && g_sh->sample[0]) samples.push_back(std::string(g_sh->scenario) + " seed=" + std::to_string(seed) + ": " + g_sh->sample);
    if (print_hash) printf("%llu %016llx %s\n", (unsigned long long)seed, (unsigned long long)g_sh->hash, g_sh->kind);
    if (g_sh->status == 2) {
      viol++;
      Replay r;
      r.prop = prop; r.scenario = g_sh->scenario; r.kind = g_sh->kind; r.seed = seed; r.hash = g_sh->hash; r.known = sim::g_known_keys;
      r.has_choices = !g_sh->overflow;
      if (r.has_choices) r.c = sparse();
      std::string det = g_sh->detail;
      if (*vio) write_replay(vio, r, det.c_str());
      if (!has(argc, argv, "--keep-going")) break;
      printf("V %s seed=%llu %s %.300s\n", r.scenario.c_str(), (unsigned long long)seed, r.kind.c_str(), det.c_str());
      fflush(stdout);
    } else if (dup_every && k % dup_every == 0) {
      uint64_t h = g_sh->hash;
      run_one(seed, nullptr);
      dups++;
      if (g_sh->hash != h) { dup_bad++; fprintf(stderr, "NONDETERMINISM seed %llu scenario %s\n", (unsigned long long)seed, g_sh->scenario); }
    }
  }
  FILE* f = fopen(out, "w");
  if (!f) { perror(out); return 2; }
  fprintf(f, "{\"runs\":%llu,\"violations\":%llu,\"steps\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"accesses\":%llu,"
             "\"sim_s\":%.6f,\"wall_s\":%.3f,\"distinct_schedules\":%zu,\"dup_checked\":%llu,\"dup_mismatch\":%llu,"
             "\"harness_errors\":%llu,\"harness_error\":%s,\"max_steps\":%llu,\"max_threads\":%llu,\"runs_with_faults\":%llu",
          (unsigned long long)runs, (unsigned long long)viol, (unsigned long long)steps, (unsigned long long)sw,
          (unsigned long long)pre, (unsigned long long)acc, simsec, wall() - t0, sh.size(), (unsigned long long)dups,
          (unsigned long long)dup_bad, (unsigned long long)harness, jstr(herr.c_str()).c_str(), (unsigned long long)maxsteps,
          (unsigned long long)maxthreads, (unsigned long long)faulty);
  fprintf(f, ",\"faults\":{");
  for (int i = 0; i < sim::F_KINDS; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", fault_names[i], (unsigned long long)faults[i]);
  fprintf(f, "},\"probes\":{");
  bool c = false;
  for (auto& p : probes) { fprintf(f, "%s%s:%llu", c ? "," : "", jstr(p.first.c_str()).c_str(), (unsigned long long)p.second); c = true; }
  fprintf(f, "},\"scenarios\":{");
  c = false;
  for (auto& p : scen) { fprintf(f, "%s%s:%llu", c ? "," : "", jstr(p.first.c_str()).c_str(), (unsigned long long)p.second); c = true; }
  fprintf(f, "},\"known\":{");
  c = false;
  for (auto& p : known) { fprintf(f, "%s%s:%llu", c ? "," : "", jstr(p.first.c_str()).c_str(), (unsigned long long)p.second); c = true; }
  fprintf(f, "},\"samples\":[");
  c = false;
  for (auto& s : samples) { fprintf(f, "%s%s", c ? "," : "", jstr(s.c_str()).c_str()); c = true; }
  uint32_t bits = 0;
  for (auto b : g_sh->pairs) bits += __builtin_popcount(b);
  fprintf(f, "],\"switch_pairs\":%u}\n", bits);
  fclose(f);
  if (*hashes) {
    FILE* h = fopen(hashes, "wb");
    if (h) { for (auto x : sh) fwrite(&x, 8, 1, h); fclose(h); }
  }
  return viol ? 1 : 0;
}

static int replay(int argc, char** argv) {
  Replay r;
  if (argc < 3 || !read_replay(argv[2], r)) return 2;
  load_list(r.prop);
  if (g_list.empty()) return 2;
  g_log = has(argc, argv, "--log");
  run_one(r.seed, r.has_choices ? &r : nullptr);
  if (g_sh->status == 2) {
    bool same = r.kind == g_sh->kind && r.hash == g_sh->hash;
    printf("replay: violation kind=%s hash=%016llx scenario=%s %s\n%s\n", g_sh->kind, (unsigned long long)g_sh->hash, g_sh->scenario,
           same ? "exact" : r.kind == g_sh->kind ? "same-kind" : "different", g_sh->detail);
    return same ? 1 : r.kind == g_sh->kind ? 3 : 4;
  }
  printf("replay: status=%d hash=%016llx scenario=%s %s\n", g_sh->status, (unsigned long long)g_sh->hash, g_sh->scenario, g_sh->kind);
  return g_sh->status == 4 ? 2 : 0;
}

static int one(int argc, char** argv) {
  load_list(arg(argc, argv, "--prop", ""));
  if (g_list.empty()) return 2;
  sim::g_known_keys = arg(argc, argv, "--known", "");
  g_only = arg(argc, argv, "--only", "");
  g_log = !has(argc, argv, "--quiet");
  uint64_t seed = strtoull(arg(argc, argv, "--run-seed", "1"), 0, 10);
  run_one(seed, nullptr);
  printf("status=%d kind=%s scenario=%s hash=%016llx steps=%llu sim=%.3fs threads=%u\n%s\n", g_sh->status, g_sh->kind, g_sh->scenario,
         (unsigned long long)g_sh->hash, (unsigned long long)g_sh->steps, g_sh->sim_ns / 1e9, g_sh->threads, g_sh->detail);
  return g_sh->status == 1 ? 0 : 1;
}

// Shrink the list of non-zero choices while the same violation kind persists.
static int minimize(int argc, char** argv) {
  Replay r;
  if (argc < 4 || !read_replay(argv[2], r)) return 2;
  load_list(r.prop);
  double limit = atof(arg(argc, argv, "--time", "30"));
  double t0 = wall();
  if (!r.has_choices) {
    run_one(r.seed, nullptr);
    if (g_sh->status != 2) return 3;
    r.hash = g_sh->hash; r.kind = g_sh->kind; r.scenario = g_sh->scenario;
    write_replay(argv[3], r, g_sh->detail);
    return 0;
  }
  uint64_t tries = 0;
  std::string kind = r.kind;
  auto test = [&](const std::vector<Choice>& c, std::vector<Choice>* got) {
    Replay q = r;
    q.c = c;
    ++tries;
    run_one(r.seed, &q);
    if (g_sh->status != 2 || kind != g_sh->kind) return false;
    if (got) *got = sparse();
    return true;
  };
  std::vector<Choice> cur = r.c, norm;
  if (!test(cur, &norm)) {
    fprintf(stderr, "minimize: the recorded choices do not reproduce (status %d kind %s)\n", g_sh->status, g_sh->kind);
    return 3;
  }
  if (norm.size() <= cur.size()) cur = norm;
  size_t chunk = std::max<size_t>(1, cur.size() / 2);
  while (wall() - t0 < limit) {
    bool progress = false;
    for (size_t i = 0; i < cur.size() && wall() - t0 < limit;) {
      size_t n = std::min(chunk, cur.size() - i);
      // Drop from the end first: late choices matter least.
      size_t start = cur.size() - i - n;
      std::vector<Choice> c(cur.begin(), cur.begin() + start);
      c.insert(c.end(), cur.begin() + start + n, cur.end());
      std::vector<Choice> got;
      if (test(c, &got)) {
        cur = got.size() < c.size() ? got : c;
        progress = true;
        if (i > cur.size()) break;
      } else {
        i += n;
      }
    }
    if (chunk == 1 && !progress) break;
    if (chunk > 1) chunk = chunk / 2; 
  }
  // Lower the values.
  for (size_t i = 0; i < cur.size() && wall() - t0 < limit * 1.3; i++) {
    for (uint32_t v : {1u, cur[i].v / 2}) {
      if (v == 0 || v >= cur[i].v) continue;
      auto c = cur;
      c[i].v = v;
      if (test(c, nullptr)) { cur = c; break; }
    }
  }
  if (!test(cur, nullptr)) { fprintf(stderr, "minimize: lost the failure\n"); return 3; }
  Replay q = r;
  q.c = cur;
  q.kind = g_sh->kind;
  q.hash = g_sh->hash;
  q.scenario = g_sh->scenario;
  write_replay(argv[3], q, g_sh->detail);
  printf("minimized %zu -> %zu choices in %llu runs\n", r.c.size(), cur.size(), (unsigned long long)tries);
  return 0;
}

int main(int argc, char** argv) {
  // Addresses of shared libraries and the stack must not vary between processes.
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC") && personality(pers | ADDR_NO_RANDOMIZE) != -1) {
    setenv("SIM_REEXEC", "1", 1);
    execv("/proc/self/exe", argv);
  }
  mem_init();
  g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int i = 0; i < sim::NSTREAMS; i++)
    g_choices[i] = (uint32_t*)mmap(nullptr, MAXCHOICES * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)g_sh, 0, sizeof *g_sh);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  std::string m = argc > 1 ? argv[1] : "";
  if (m == "batch") return batch(argc, argv);
  if (m == "replay") return replay(argc, argv);
  if (m == "minimize") return minimize(argc, argv);
  if (m == "one") return one(argc, argv);
  if (m == "list") {
    for (auto& s : sim::scenarios()) printf("%s %s %u\n", s.prop, s.name, s.weight);
    return 0;
  }
  fprintf(stderr, "usage: simarpc batch|replay|minimize|one|list ...\n");
  return 2;
}
