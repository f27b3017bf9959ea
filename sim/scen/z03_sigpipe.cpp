// Self-test: every run is expected to report that the process was killed.
#include <signal.h>
#include <mutex>
#include <shared_mutex>
#include <unistd.h>
#include "common.h"
using namespace sc;
SIM_SCENARIO(Z03, sigpipe, 10) {
  int p[2]; pipe(p); close(p[0]);
  signal(SIGPIPE, SIG_DFL);
  write(p[1], "x", 1);
}
