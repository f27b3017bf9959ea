// Deterministic simulator: public interface for scenarios.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace sim {

// Independent choice streams; every nondeterministic decision of a run is an
// outcome drawn from one of them (0 is always the simplest outcome).
enum Stream { CFG = 0, OPS = 1, SCHED = 2, FAULT = 3, NET = 4, NSTREAMS = 5 };

// Uniform outcome in [0, n).
uint32_t pick(Stream s, uint32_t n);
// True with probability num/den.
bool chance(Stream s, uint32_t num, uint32_t den);
// Outcome index chosen with the given weights.
uint32_t weighted(Stream s, const std::vector<uint32_t>& w);
inline uint32_t range(Stream s, uint32_t lo, uint32_t hi) { return lo + pick(s, hi - lo + 1); }

int64_t now_ns();             // simulated monotonic time
inline int64_t now_ms() { return now_ns() / 1000000; }
uint64_t seq();               // global event sequence number (strictly increasing)
int64_t real_ns(int node);    // that node's wall clock
void sleep_ns(int64_t ns);
inline void sleep_us(int64_t us) { sleep_ns(us * 1000); }
inline void sleep_ms(int64_t ms) { sleep_ns(ms * 1000000); }
void yield();                 // explicit scheduling point

[[noreturn]] void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void probe(const char* name);
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// True if the failure with this key is a recorded finding (known-findings.txt)
// of the property being checked; the run is then counted under it.
bool known_finding(const char* key);

#define SIM_CHECK(cond, kind, ...)            \
  do {                                        \
    if (!(cond)) ::sim::fail(kind, __VA_ARGS__); \
  } while (0)

// Nodes and clocks.
void set_node(int node);      // node of the calling thread, inherited by its children
int node();
void clock_jump(int node, int64_t delta_ns);

// Fault configuration of this run.  Rates are per million opportunities.
struct Faults {
  uint32_t eintr = 0;           // poll()/blocking call interrupted by a signal
  uint32_t short_read = 0, short_write = 0;
  uint32_t spurious_ready = 0;  // socket readiness that evaporates (EAGAIN)
  uint32_t spurious_wake = 0;   // condition variables
  uint32_t stall = 0;           // running thread descheduled until after the next timer
  uint32_t accept_fail = 0;     // ECONNABORTED / EMFILE from accept
  uint32_t fd_exhaust = 0;      // EMFILE from pipe/socket
  int no_v6_node = -1;          // a node without IPv6: socket(AF_INET6) fails there
  uint32_t conn_reset = 0;      // per write on a socket
  uint32_t corrupt = 0;         // per network segment, flips a byte
  uint32_t lat_min_us = 50, lat_max_us = 50;
  uint32_t seg_max = 0;         // max segment size, 0 = unlimited
  uint32_t sndbuf = 65536, rcvbuf = 65536;
  uint32_t pipe_cap = 65536;
  uint32_t disk_error = 0;      // reads and writes of files that fail, per million
  uint64_t disk_size = 1ull << 40;
};
Faults& faults();
void calm();                   // stop injecting faults from now on
bool calmed();

enum FaultKind {
  F_EINTR, F_SHORT_READ, F_SHORT_WRITE, F_SPUR_READY, F_SPUR_WAKE, F_STALL, F_ACCEPT, F_EMFILE,
  F_RESET, F_CORRUPT, F_DELAY, F_SPLIT, F_PARTITION, F_REFUSE, F_BLACKHOLE, F_CRASH, F_CLOCK_JUMP,
  F_CLOCK_SKEW, F_DNS_FAIL, F_DNS_DELAY, F_CANCEL, F_BADALLOC, F_LINE_NOISE, F_SINK_FAIL, F_SOURCE_FAIL,
  F_PREEMPT, F_DISK, F_DISK_FULL, F_SLOW_HOST, F_NO_FAMILY, F_KINDS
};
void count_fault(FaultKind k);

// Network control.
void net_partition(int a, int b, bool blocked);   // stall traffic and connects between nodes
bool net_partitioned(int a, int b);
int net_reset_all(int node);                      // RST every connection with an end on node; count
struct HostAddr { uint32_t ip; bool v6; int behaviour; /*0 ok 1 refuse 2 blackhole, 10+n answers n ms late*/ };
void dns_set(const char* name, std::vector<HostAddr> addrs, int64_t delay_ns, int fail_code);
void host_set(uint32_t ip, int node);             // which node owns an ip
struct NetStats { uint64_t conns = 0, accepted = 0, refused = 0, aborted = 0, bytes = 0, segs = 0; };
NetStats& net_stats();
int open_fds();                                    // simulated descriptors currently open
int open_sockets();
int sock_opt(int fd, int level, int opt, int offset = 0);   // an option's value, 0 if it was never set
// Raw byte-level peer for malformed-input scenarios (goes through the same net).
// A char device pair: what one side writes the other reads through a lossy line.
void device_link(const char* path_a, const char* path_b);
void file_dir(const char* path);                            // a directory that files can be made in
bool file_get(const char* path, std::string* data);         // what is stored in a file; false: no such file

// Thread control.
int tid();
int nthreads_live();
void set_daemon_ok();          // threads blocked forever at the end are fine (default)
uint64_t steps();

// Thread-safe memory of the harness that is neither race checked nor preempted.
struct Quiet { Quiet(); ~Quiet(); };

// Heap of the code under test.
void alloc_fail(int64_t after);    // the operator new after that many more throws std::bad_alloc; -1: none
bool alloc_fail_pending();
struct HeapStats { uint64_t blocks, bytes, peak; };
HeapStats heap_stats();
void heap_reset_peak();

// Expectations used by crash handlers.
void set_phase(const char* what);

// Run-wide options a scenario may set at its start.
struct Options {
  uint64_t max_steps = 1200000;
  bool races = true;            // data races are violations
  bool mem_preempt = true;
  bool fd_check = true;         // use of a closed descriptor / double close is a violation
  int64_t step_ns = 1000;
};
Options& options();

struct Scenario {
  const char* prop;
  const char* name;
  void (*fn)();
  uint32_t weight;
  uint32_t thorough_weight;
};
struct Register {
  Register(const char* prop, const char* name, void (*fn)(), uint32_t weight = 10);
};
std::vector<Scenario>& scenarios();
const char* prop();            // property id this run is checking

}  // namespace sim

#define SIM_SCENARIO(PROP, NAME, WEIGHT)                                     \
  static void scen_##PROP##_##NAME();                                        \
  static ::sim::Register reg_##PROP##_##NAME(#PROP, #NAME, &scen_##PROP##_##NAME, WEIGHT); \
  static void scen_##PROP##_##NAME()
