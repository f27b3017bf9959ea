#include "arpc/mutex.h"
#include "common.h"
using namespace sc;

namespace {
struct World {
  arpc::mutex mu;
  int holders = 0;      // only touched while holding mu: the race detector sees every access
  long counter = 0;
  long expect = 0;      // quiet
  CancelHub hub;
};

void critical(World& w) {
  int was = w.holders++;
  SIM_CHECK(was == 0, "mutual-exclusion", "%d threads hold the mutex at once", was + 1);
  long c = w.counter;
  if (sim::chance(OPS, 1, 2)) sim::yield();
  w.counter = c + 1;
  { sim::Quiet q; w.expect++; }
  was = --w.holders;
  SIM_CHECK(was == 0, "mutual-exclusion", "%d threads hold the mutex at once", was + 1);
}

void one_op(World& w) {
  auto& mu = w.mu;
  switch (sim::weighted(OPS, {5, 3, 4, 4, 4, 2, 2})) {
    case 0:
      mu.lock();
      critical(w);
      mu.unlock();
      break;
    case 1:
      if (mu.try_lock()) { critical(w); mu.unlock(); } else sim::probe("try_lock-contended");
      break;
    case 2: {  // lock with a timeout
      auto r = outcome([&] {
        auto [l, t] = arpc::select(mu.async_lock(), arpc::timeout(ms(sim::pick(OPS, 4))));
        if (l) { *l; critical(w); mu.unlock(); return true; }
        *t;
        return false;
      });
      SIM_CHECK(r == DONE || r == TIMEOUT, "lock-outcome", "lock with a timeout reported %d", r);
      if (r == TIMEOUT) sim::probe("lock-timed-out");
      break;
    }
    case 3: {  // lock in a context that may be cancelled at any instant
      Scope s(w.hub);
      auto r = outcome([&] { mu.lock(); critical(w); mu.unlock(); return true; });
      SIM_CHECK(r == DONE || (r == CANCELED && s.ctx.is_cancelled()), "lock-outcome", "outcome %d, cancelled=%d", r, s.ctx.is_cancelled());
      if (r == CANCELED) sim::probe("lock-cancelled");
      break;
    }
    case 4: {  // lock under a deadline
      arpc::context ctx;
      ctx.set_timeout(ms(sim::pick(OPS, 4)));
      auto r = outcome([&] { mu.lock(); critical(w); mu.unlock(); return true; });
      SIM_CHECK(r == DONE || r == LATE, "lock-outcome", "outcome %d", r);
      if (r == LATE) sim::probe("lock-deadline");
      break;
    }
    case 5: {  // cancelled while holding: release must still work
      Scope s(w.hub);
      auto r = outcome([&] { mu.lock(); return true; });
      if (r == DONE) {
        critical(w);
        if (sim::chance(OPS, 1, 2)) s.ctx.cancel();
        mu.unlock();
      } else SIM_CHECK(r == CANCELED, "lock-outcome", "outcome %d", r);
      break;
    }
    case 6: {  // wait until lockable, then race for it
      auto r = outcome([&] { arpc::wait(mu.can_lock()); return true; });
      SIM_CHECK(r == DONE, "lock-outcome", "outcome %d", r);
      r = outcome([&] { mu.maybe_lock(); return true; });
      SIM_CHECK(r == DONE || r == AGAIN, "lock-outcome", "outcome %d", r);
      if (r == DONE) { critical(w); mu.unlock(); }
      break;
    }
  }
}
}  // namespace

SIM_SCENARIO(A01, contended_lock, 10) {
  local_faults();
  auto w = std::make_unique<World>();
  int n = few(2, 5, 40), k = n > 5 ? 2 : sim::range(OPS, 1, 5);
  bool cancels = sim::chance(OPS, 2, 3);
  sim::sample("threads=%d ops=%d cancels=%d ", n, k, cancels);
  {
    Crew crew;
    for (int i = 0; i < n; i++)
      crew.add([&, k] { for (int j = 0; j < k; j++) { pause(); one_op(*w); } });
    if (cancels)
      crew.add([&] { for (int j = sim::range(OPS, 1, 6); j; j--) { pause(); w->hub.cancel_one(); } });
  }
  // Whatever happened, nobody holds it now, exactly once.
  SIM_CHECK(w->mu.try_lock(), "lock-leaked", "every operation is over and the mutex is still held");
  SIM_CHECK(!w->mu.try_lock(), "double-token", "the mutex can be acquired twice");
  w->mu.unlock();
  SIM_CHECK(w->counter == w->expect, "lost-update", "%ld protected increments, counter is %ld", w->expect, w->counter);
}

// Two mutexes taken through one select: every lock reported taken is taken, no
// lock is taken without being reported.
SIM_SCENARIO(A01, select_two, 4) {
  local_faults();
  auto a = std::make_unique<World>(), b = std::make_unique<World>();
  int n = sim::range(OPS, 2, 4), k = sim::range(OPS, 1, 4);
  {
    Crew crew;
    CancelHub& hub = a->hub;
    for (int i = 0; i < n; i++)
      crew.add([&, k] {
        for (int j = 0; j < k; j++) {
          Scope s(hub);
          auto r = outcome([&] {
            auto [la, lb] = arpc::select(a->mu.async_lock(), b->mu.async_lock());
            SIM_CHECK(la || lb, "select-empty", "select returned without an active result");
            if (la) { *la; critical(*a); }
            if (lb) { *lb; critical(*b); }
            if (la && lb) sim::probe("both-locked");
            if (la) a->mu.unlock();
            if (lb) b->mu.unlock();
            return true;
          });
          SIM_CHECK(r == DONE || r == CANCELED, "lock-outcome", "outcome %d", r);
        }
      });
    crew.add([&] { for (int j = sim::pick(OPS, 5); j; j--) { pause(); hub.cancel_one(); } });
  }
  for (auto* w : {a.get(), b.get()}) {
    SIM_CHECK(w->mu.try_lock(), "lock-leaked", "every operation is over and a mutex is still held");
    SIM_CHECK(!w->mu.try_lock(), "double-token", "a mutex can be acquired twice");
    w->mu.unlock();
    SIM_CHECK(w->counter == w->expect, "lost-update", "%ld protected increments, counter is %ld", w->expect, w->counter);
  }
}
