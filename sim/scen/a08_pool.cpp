#include <atomic>
#include "arpc/executor.h"
#include "arpc/flag.h"
#include "arpc/semaphore.h"
#include "common.h"
using namespace sc;

namespace {
struct Slot {
  int accepted = 0, rejected = 0, started = 0, finished = 0;
  long plain = 0;      // written by the task, read after it is known to be over
};
// The callable itself: move-only, counted, notices being copied or run empty.
struct Job {
  static int live;
  std::function<void()> f;
  bool armed = true;
  explicit Job(std::function<void()> x) : f(std::move(x)) { sim::Quiet q; ++live; }
  Job(Job&& o) noexcept : f(std::move(o.f)), armed(o.armed) { o.armed = false; sim::Quiet q; ++live; }
  Job(const Job&) = delete;
  ~Job() { sim::Quiet q; --live; }
  void operator()() {
    SIM_CHECK(armed, "ran-empty", "the pool ran a moved-from task");
    f();
  }
};
int Job::live = 0;
}  // namespace

// Any number of submitters; everything accepted runs once, nothing else runs.
SIM_SCENARIO(A08, submit, 10) {
  local_faults();
  unsigned nw = sim::range(OPS, 1, 4);
  static const int caps[] = {-1, 0, 1, 2, 4};
  int cap = caps[sim::pick(OPS, 5)];
  int ns = sim::range(OPS, 1, 4), per = sim::range(OPS, 1, 6);
  bool destroy_early = sim::chance(OPS, 1, 4);
  bool nested = cap < 0 && sim::chance(OPS, 1, 3);
  sim::sample("workers=%u queue=%d submitters=%d tasks=%d early=%d ", nw, cap, ns, ns * per, destroy_early);
  std::vector<Slot> s(ns * per * 2);
  int running = 0, main_tid = sim::tid();
  arpc::semaphore done(10000);
  bool destroyed = false;
  CancelHub hub;
  {
    auto owner = std::make_unique<arpc::thread_pool>(nw, cap);
    auto* const pool = owner.get();
    std::set<int> submitters;
    auto body = [&](int id) {
      {
        sim::Quiet q;
        SIM_CHECK(!destroyed, "ran-after-destruction", "a task started after its pool was destroyed");
        SIM_CHECK(++s[id].started == 1, "ran-twice", "task %d started %d times", id, s[id].started);
        SIM_CHECK(!s[id].rejected, "rejected-ran", "a rejected task ran");
        SIM_CHECK(++running <= (int)nw, "too-many", "%d tasks run at once on %u workers", running, nw);
        SIM_CHECK(!submitters.count(sim::tid()) && sim::tid() != main_tid, "ran-inline", "a task ran on its submitter's thread");
      }
      s[id].plain = id + 1;
      struct Leave { int& r; ~Leave() { sim::Quiet q; --r; } } leave{running};
      int how = sim::weighted(OPS, {4, 2, 1, 1});
      if (how == 1) pause();
      if (how == 2) {
        { sim::Quiet q; s[id].finished++; }
        { arpc::shield sh; done.put(); }
        switch (sim::pick(OPS, 6)) {
          case 0: throw arpc::errors::io_error("task failed");
          case 1: throw arpc::errors::cancelled("task cancelled");
          case 2: throw arpc::errors::deadline_exceeded("task late");
          case 3: throw std::logic_error("task wrong");
          case 4: throw id;
          default: throw "task failed";
        }
      }
      if (how == 3) {
        try { arpc::wait(arpc::timeout(ms(1))); } catch (const arpc::errors::cancelled&) {}
      }
      { sim::Quiet q; s[id].finished++; }
      arpc::shield sh;
      done.put();
    };
    auto submit = [&](int id, bool impatient) {
      auto r = outcome([&] {
        if (impatient) {
          Scope sc(hub);
          if (sim::chance(OPS, 1, 2)) sc.ctx.set_timeout(ms(sim::pick(OPS, 3)));
          pool->run(Job([&, id] { body(id); }));
        } else {
          pool->run(Job([&, id] { body(id); }));
        }
        return true;
      });
      sim::Quiet q;
      SIM_CHECK(r == DONE || (impatient && (r == CANCELED || r == LATE)), "submit-outcome", "outcome %d", r);
      if (r == DONE) s[id].accepted++;
      else { s[id].rejected++; sim::probe("rejected"); SIM_CHECK(!s[id].started, "rejected-ran", "a rejected task ran"); }
    };
    int accepted_nested = 0;
    {
      Crew crew;
      for (int k = 0; k < ns; k++)
        crew.add([&, k] {
          { sim::Quiet q; submitters.insert(sim::tid()); }
          for (int j = 0; j < per; j++) {
            if (sim::chance(OPS, 1, 2)) pause();
            int id = k * per + j;
            if (nested && sim::chance(OPS, 1, 2)) {
              int id2 = ns * per + id;
              pool->run(Job([&, id, id2] {
                { arpc::shield sh; pool->run(Job([&, id2] { body(id2); })); sim::Quiet q; s[id2].accepted++; }
                body(id);
              }));
              sim::Quiet q;
              s[id].accepted++;
              accepted_nested++;
            } else {
              submit(id, sim::chance(OPS, 1, 3));
            }
          }
        });
      crew.add([&] { for (int j = sim::pick(OPS, 5); j; j--) { pause(); hub.cancel_one(); } });
    }
    if (!destroy_early) {
      // Every accepted task gets to run though nothing else pokes the pool.
      int total = accepted_nested;
      { sim::Quiet q; for (int i = 0; i < ns * per; i++) total += s[i].accepted; }
      for (int i = 0; i < total; i++) done.get();
      for (int i = 0; i < ns * per; i++) if (s[i].accepted && s[i].finished) SIM_CHECK(s[i].plain == i + 1, "effect-lost", "a finished task's effect is not visible");
    } else {
      pause();
    }
    owner.reset();
    sim::Quiet q;
    destroyed = true;
    SIM_CHECK(running == 0, "destroyed-while-running", "the pool is gone and %d tasks still run", running);
  }
  sim::sleep_ms(5);
  for (auto& x : s) {
    SIM_CHECK(x.started == x.finished, "task-cut", "a task was started and never finished");
    SIM_CHECK(x.started <= 1, "ran-twice", "a task ran %d times", x.started);
    SIM_CHECK(x.accepted || !x.started, "rejected-ran", "a rejected task ran");
    if (!destroy_early) SIM_CHECK(!x.accepted || x.started == 1, "task-lost", "an accepted task never ran");
  }
  SIM_CHECK(Job::live == 0, "task-leak", "%d task objects alive after the pool is gone", Job::live);
}

// As many tasks as workers all meet: one left in the queue, or one idle worker, is a deadlock.
SIM_SCENARIO(A08, rendezvous, 6) {
  local_faults();
  unsigned nw = few(2, 5, 24);
  int cap = sim::chance(OPS, 1, 2) ? -1 : (int)sim::pick(OPS, 3);
  int rounds = sim::range(OPS, 1, 4);
  sim::sample("workers=%u queue=%d rounds=%d ", nw, cap, rounds);
  auto pool = std::make_unique<arpc::thread_pool>(nw, cap);
  for (int r = 0; r < rounds; r++) {
    int n = sim::range(OPS, 1, nw);
    int here = 0;
    std::mutex m;
    arpc::flag all;
    arpc::semaphore out(100);
    auto job = [&, n] {
      { std::scoped_lock l(m); if (++here == n) all.set(); }
      all.wait();
      out.put();
    };
    Crew crew;
    int threads = sim::range(OPS, 1, 2);
    for (int t = 0; t < threads; t++)
      crew.add([&, t] { for (int i = t; i < n; i += threads) { if (sim::chance(OPS, 1, 2)) pause(); pool->run(job); } });
    crew.join();
    for (int i = 0; i < n; i++) out.get();
    if (sim::chance(OPS, 1, 2)) pause();
  }
}

// A full pool refuses: exactly workers + queue tasks are accepted, the rest give up.
SIM_SCENARIO(A08, saturated, 4) {
  local_faults();
  sim::faults().stall = 0;  // a stalled worker would make "there is room" a matter of opinion
  unsigned nw = few(1, 3, 20);
  int cap = few(0, 3, 120);
  int room = nw + (cap ? cap : (int)nw);
  int ns = sim::range(OPS, 1, 3), per = room > 9 ? room / ns + sim::pick(OPS, 3) : sim::range(OPS, 1, 5);
  sim::sample("workers=%u queue=%d submitters=%d each=%d ", nw, cap, ns, per);
  auto pool = std::make_unique<arpc::thread_pool>(nw, cap);
  arpc::flag gate;
  arpc::semaphore out(1000);
  int accepted = 0, ran = 0;
  {
    Crew crew;
    for (int t = 0; t < ns; t++)
      crew.add([&] {
        for (int i = 0; i < per; i++) {
          if (sim::chance(OPS, 1, 2)) pause();
          auto r = outcome([&] {
            arpc::context c;
            c.set_timeout(ms(200));
            pool->run([&] { { sim::Quiet q; ran++; } gate.wait(); out.put(); });
            return true;
          });
          SIM_CHECK(r == DONE || r == LATE, "submit-outcome", "outcome %d", r);
          sim::Quiet q;
          if (r == DONE) accepted++; else sim::probe("refused");
        }
      });
  }
  int want = std::min(room, ns * per);
  { sim::Quiet q; SIM_CHECK(accepted == want, accepted > want ? "over-capacity" : "refused-with-room", "%d tasks accepted, there is room for %d", accepted, want); }
  gate.set();
  for (int i = 0; i < accepted; i++) out.get();
  { sim::Quiet q; SIM_CHECK(ran == accepted, "task-count", "%d accepted, %d ran", accepted, ran); }
  pool.reset();
  sim::Quiet q;
  SIM_CHECK(ran == accepted, "task-count", "%d accepted, %d ran", accepted, ran);
}

// Whatever runs when the pool goes is cancelled, all of it at once, and waited
// for; whatever was still queued is dropped.
SIM_SCENARIO(A08, farewell, 6) {
  local_faults();
  unsigned nw = few(1, 5, 24);
  int tasks = few(1, nw + 4, nw + 100);
  bool prompt = !sim::faults().stall;
  sim::sample("workers=%u tasks=%d ", nw, tasks);
  enum { WAITING = 1, OVER = 2 };
  std::vector<int> state(tasks, 0);
  std::vector<std::unique_ptr<arpc::flag>> over;
  for (int i = 0; i < tasks; i++) over.push_back(std::make_unique<arpc::flag>());
  int64_t gone_at = 0;
  uint64_t steps_then = 0;
  bool destroyed = false;
  auto pool = std::make_unique<arpc::thread_pool>(nw, -1);
  std::mutex m;
  for (int i = 0; i < tasks; i++) {
    if (sim::chance(OPS, 1, 4)) pause();
    int how = sim::pick(OPS, 5);
    pool->run(Job([&, i, how] {
      int other = -1;
      {
        std::scoped_lock l(m);
        SIM_CHECK(!destroyed, "ran-after-destruction", "a task started after its pool was destroyed");
        // A task that is shielded may still wait for one that waits for its end.
        if (how >= 3) for (int k = 0; k < tasks; k++) if (state[k] == WAITING && sim::chance(OPS, 1, 2)) other = k;
        state[i] = other >= 0 ? 3 : how == 0 ? 4 : WAITING;
      }
      if (how == 0) {
        pause();
      } else if (other >= 0) {
        arpc::shield sh;
        over[other]->wait();
        sim::probe("waited-for-another");
      } else {
        bool cancelled = false;
        try { arpc::wait(arpc::never()); } catch (const arpc::errors::cancelled&) { cancelled = true; }
        sim::Quiet q;
        SIM_CHECK(cancelled && gone_at, "gave-up-early", "a task was cancelled before its pool was destroyed");
        if (prompt) SIM_CHECK(sim::now_ns() - gone_at < 20 * 1000000LL + (int64_t)(sim::steps() - steps_then) * sim::options().step_ns, "cancelled-late", "a task was cancelled %lld ns after the destruction began", (long long)(sim::now_ns() - gone_at));
        sim::probe("cancelled");
      }
      { std::scoped_lock l(m); state[i] = OVER; }
      arpc::shield sh;
      over[i]->set();
    }));
  }
  pause();
  if (sim::chance(OPS, 1, 2)) sim::sleep_ms(1 + sim::pick(OPS, 5));
  { sim::Quiet q; gone_at = sim::now_ns(); steps_then = sim::steps(); }
  pool.reset();
  {
    std::scoped_lock l(m);
    destroyed = true;
    for (int i = 0; i < tasks; i++) SIM_CHECK(state[i] == 0 || state[i] == OVER, "destroyed-while-running", "the pool is gone and task %d still runs", i);
  }
  sim::sleep_ms(5);
  SIM_CHECK(Job::live == 0, "task-leak", "%d task objects alive after the pool is gone", Job::live);
}
