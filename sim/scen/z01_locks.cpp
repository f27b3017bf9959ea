// Self-test: what the library may use next to what it uses now works under the simulator.
#include <signal.h>
#include <mutex>
#include <shared_mutex>
#include <thread>
#include <sys/eventfd.h>
#include <sys/uio.h>
#include <sys/socket.h>
#include <unistd.h>
#include <poll.h>
#include <string.h>
#include "common.h"
using namespace sc;
SIM_SCENARIO(Z01, locks, 10) {
  std::shared_mutex m; std::recursive_mutex r; std::timed_mutex t; int x = 0, y = 0;
  int e = eventfd(0, 0);
  int p[2]; pipe(p);
  Crew c;
  for (int i = 0; i < 4; i++) c.add([&, i] {
    for (int k = 0; k < 3; k++) {
      { std::shared_lock l(m); (void)(int volatile&)x; }
      { std::unique_lock l(m); x++; }
      { std::scoped_lock l(r); std::scoped_lock l2(r); y++; }
      if (t.try_lock_for(ms(5))) { sc::pause(); sim::sleep_ms(2); t.unlock(); } else sim::probe("timed-out");
    }
    uint64_t one = 1;
    SIM_CHECK(write(e, &one, 8) == 8, "efd", "x");
    struct iovec v[2] = {{(void*)"ab", 2}, {(void*)"cde", 3}};
    SIM_CHECK(writev(p[1], v, 2) == 5, "wv", "x");
  });
  c.join();
  SIM_CHECK(x == 12 && y == 12, "count", "x");
  uint64_t n; struct pollfd f{e, POLLIN, 0};
  SIM_CHECK(poll(&f, 1, 0) == 1, "poll", "x");
  SIM_CHECK(read(e, &n, 8) == 8 && n == 4, "efdr", "x");
  char a[8] = {}, b[16] = {};
  struct iovec v[2] = {{a, 7}, {b, 15}};
  SIM_CHECK(readv(p[0], v, 2) == 20 && !memcmp(a, "abcdeab", 7), "rv", "x");
  close(e); close(p[0]); close(p[1]);
}
