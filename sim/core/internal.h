#pragma once
#include <poll.h>
#include <pthread.h>
#include <stdint.h>
#include <sys/types.h>
#include <deque>
#include <functional>
#include <map>
#include <queue>
#include <string>
#include <unordered_map>
#include <vector>
#include "sim.h"

namespace simi {

constexpr int MAXT = 120;

struct VC {
  uint32_t v[MAXT];
  void clear() { __builtin_memset(v, 0, sizeof v); }
};

enum State { UNUSED, RUNNABLE, BLOCKED, FINISHED };
enum Wait { W_NONE, W_MUTEX, W_COND, W_IO, W_SLEEP, W_JOIN, W_STALL, W_GUARD };

struct Thread {
  int id = 0;
  State state = UNUSED;
  Wait wait = W_NONE;
  const void* obj = nullptr;
  int64_t deadline = -1;
  bool timed_out = false;
  bool woken = false;
  uint32_t futex = 0;
  int node = 0;
  VC vc;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  pthread_t pt{};
  bool joined = false, detached = false;
  int64_t prio = 0;
  uint64_t consecutive = 0;
  char *stack_lo = nullptr, *stack_hi = nullptr;
  void* fp = nullptr;
  void* pc = nullptr;
  const char* op = "";
  std::vector<const void*> io;
  int64_t eintr_at = -1;
  bool eintr = false;
  uint32_t parked = 0;
};

extern bool g_active;
extern Thread* g_cur;
extern Thread g_threads[MAXT];
extern int g_nthreads;
extern __thread int t_in_sim;

struct InSim {
  InSim() { ++t_in_sim; }
  ~InSim() { --t_in_sim; }
};
inline bool on() { return g_active && !t_in_sim; }

// time / events
extern int64_t g_now;
extern int64_t g_skew[16];
void at(int64_t when, std::function<void()> fn);

// scheduling
void point(const char* op, void* pc);
bool block(Wait w, const void* obj, int64_t deadline, const char* op, void* pc);  // true if timed out
void make_runnable(Thread* t);
void wake_obj(Wait w, const void* obj);
void wake_io(const void* obj);
void thread_dump(std::string& out);

// happens-before
void hb_acquire(const VC& v);
void hb_release(VC& v);   // joins into v
VC& sync_vc(const void* addr);

// memory
void* internal_alloc(size_t n);
void mem_init();
void mem_begin_run(bool reuse, uint8_t fill);
void mem_check(const void* p, size_t n, bool write, void* pc);      // asan + race
void mem_addressable(const void* p, size_t n, const char* what, void* pc);
extern bool g_race_on;
extern char *g_stacks;
constexpr size_t STACK_SIZE = 512 * 1024;
extern int64_t g_preempt;      // countdown of instrumented accesses; <0 = off
void preempt_now(void* pc);
extern uint64_t g_accesses;
void alloc_stats(uint64_t& n, uint64_t& bytes);

// shared result
struct Shared {
  uint64_t seed;
  int status;           // 0 running/unset, 1 ok, 2 violation, 3 known, 4 harness error
  char kind[96];
  char detail[12000];
  char known[64];
  uint64_t hash, sched_hash;
  uint64_t steps, switches, preempts, accesses;
  int64_t sim_ns;
  uint32_t threads;
  uint64_t faults[sim::F_KINDS];
  uint32_t nprobes;
  struct { char name[48]; uint64_t n; } probes[96];
  char sample[600];
  char scenario[64];
  char phase[96];
  uint32_t nchoices[sim::NSTREAMS];
  uint32_t overflow;
  uint8_t pairs[8192];  // bitmap of (switch-from site, switch-to site) pairs
};
constexpr uint32_t MAXCHOICES = 400000;
extern Shared* g_sh;
extern uint32_t* g_choices[sim::NSTREAMS];
void hash_mix(uint64_t v);
extern bool g_log;
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void end_run(int status);

// io
void io_begin_run();
const char* const fault_names[] = {"eintr", "short_read", "short_write", "spurious_ready",
    "spurious_wakeup", "thread_stall", "accept_error", "fd_exhaustion", "conn_reset",
    "byte_corruption", "net_delay", "segment_split", "partition", "conn_refused",
    "conn_blackhole", "node_crash", "clock_jump", "clock_skew", "dns_failure", "dns_delay",
    "cancellation", "alloc_failure", "line_noise", "sink_failure", "source_failure", "preemption", "disk_error", "disk_full", "slow_host", "no_address_family"};

}  // namespace simi
