// Self-test: every run is expected to report a data race.
#include <signal.h>
#include <mutex>
#include <shared_mutex>
#include <unistd.h>
#include "common.h"
using namespace sc;
SIM_SCENARIO(Z02, race, 10) {
  std::shared_mutex m; int x = 0;
  Crew c;
  for (int i = 0; i < 2; i++) c.add([&, i] { std::shared_lock l(m); x++; });
}
