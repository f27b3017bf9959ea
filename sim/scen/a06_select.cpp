#include <algorithm>
#include "arpc/flag.h"
#include "arpc/mutex.h"
#include "arpc/pipe.h"
#include "arpc/queue.h"
#include "arpc/semaphore.h"
#include "common.h"
using namespace sc;

namespace {
// How late a wake-up may be when nothing stalls: millisecond resolution plus
// the simulated cost of the steps taken meanwhile.
struct Clock {
  int64_t t0 = sim::now_ns();
  uint64_t s0 = sim::steps();
  int64_t elapsed() const { return sim::now_ns() - t0; }
  int64_t slack() const { return 2000000 + (int64_t)(sim::steps() - s0) * sim::options().step_ns; }
};
void quiet_faults() {
  auto& f = sim::faults();
  if (sim::chance(CFG, 1, 2)) f.eintr = sim::chance(CFG, 1, 2) ? 100000 : 500000;
}
}  // namespace

// A timeout fires neither early nor late, whatever else wakes the thread up.
SIM_SCENARIO(A06, timeouts, 10) {
  quiet_faults();
  int n = sim::range(OPS, 1, 3);
  bool noise = sim::chance(OPS, 2, 3);
  bool jumps = sim::chance(OPS, 1, 4);   // The wall clock is set meanwhile, which moves deadlines but no timeout.
  static const int scale[] = {1, 3, 20, 400};
  int sc = scale[sim::pick(OPS, 4)];
  struct Noisy { arpc::channel p[2]; int seen = 0; };
  std::vector<std::unique_ptr<Noisy>> pipes;
  for (int i = 0; i < n; i++) {
    pipes.push_back(std::make_unique<Noisy>());
    arpc::pipe(pipes[i]->p);
    pipes[i]->p[0].make_non_blocking();
    pipes[i]->p[1].make_non_blocking();
  }
  arpc::flag over;
  sim::sample("threads=%d noise=%d jumps=%d scale=%dms ", n, noise, jumps, sc);
  {
    Crew noisers;
    if (jumps)
      noisers.add([&] {
        while (!over) {
          sim::sleep_us(1 + sim::pick(OPS, 3000 * sc));
          sim::clock_jump(sim::node(), ((int64_t)sim::pick(OPS, 4000) - 2000) * 1000000LL * (sim::chance(OPS, 1, 3) ? 1000 : 1));
        }
      });
    if (noise)
      noisers.add([&] {
        while (!over) {
          sim::sleep_us(1 + sim::pick(OPS, 700 * sc));
          for (auto& p : pipes) if (sim::chance(OPS, 2, 3)) {
            try { p->p[1].maybe_write("x", 1); } catch (const arpc::errors::try_again&) {}
          }
        }
      });
    {
      Crew crew;
      for (int i = 0; i < n; i++)
        crew.add([&, i] {
          auto& me = *pipes[i];
          for (int k = sim::range(OPS, 1, 3); k; k--) {
            pause();
            int a = sim::range(OPS, 0, 8) * sc, b = sim::range(OPS, 0, 8) * sc, p = sim::range(OPS, 1, 6) * sc;
            int mode = sim::pick(OPS, jumps ? 3 : 4);
            int polls = 0;
            Clock c;
            // Readable now and then, but what is read is never what we want.
            auto drain = [&] {
              char ch;
              me.p[0].maybe_read(&ch, 1);
              me.seen++;
              sim::probe("noise-seen");
              throw arpc::errors::try_again("not yet");
            };
            int64_t want = std::min(a, b);
            bool ra = false, rb = false;
            if (mode == 0) {
              auto [ta, tb, nz] = arpc::select(arpc::timeout(ms(a)), arpc::timeout(ms(b)), me.p[0].can_read().then(drain));
              ra = bool(ta); rb = bool(tb);
              SIM_CHECK(!nz, "inactive-reported", "a reaction that asked to try again was reported as active");
            } else if (mode == 1) {
              auto [nz, ta, po, tb] = arpc::select(me.p[0].can_read().then(drain), arpc::timeout(ms(a)),
                  arpc::polling(ms(p)).then([&] { polls++; throw arpc::errors::try_again("keep polling"); }), arpc::timeout(ms(b)));
              ra = bool(ta); rb = bool(tb);
              SIM_CHECK(!nz && !po, "inactive-reported", "a reaction that asked to try again was reported as active");
              SIM_CHECK((int64_t)polls * p * 1000000 <= c.elapsed() + 1000000, "polled-too-often", "%d polls every %dms in %lldns", polls, p, (long long)c.elapsed());
              if (!noise && !sim::faults().eintr)
                SIM_CHECK((polls + 1) * (p * 1000000LL + 1000000) + c.slack() >= want * 1000000, "polled-too-seldom", "%d polls every %dms in %lldms", polls, p, (long long)want);
            } else if (mode == 2) {
              std::vector<arpc::awaitable<void>> v;
              v.push_back(me.p[0].can_read().then(drain));
              v.push_back(arpc::timeout(ms(a)));
              v.push_back(arpc::timeout(ms(b)));
              auto [r] = arpc::select(std::move(v));
              SIM_CHECK(r.size() == 3 && !r[0], "inactive-reported", "a reaction that asked to try again was reported as active");
              ra = bool(r[1]); rb = bool(r[2]);
            } else {
              // The second limit is the context's deadline.
              bool late = false;
              try {
                arpc::context ctx;
                ctx.set_timeout(ms(b));
                auto [nz, ta] = arpc::select(me.p[0].can_read().then(drain), arpc::timeout(ms(a)));
                ra = bool(ta);
                SIM_CHECK(!nz, "inactive-reported", "a reaction that asked to try again was reported as active");
              } catch (const arpc::errors::deadline_exceeded&) { late = true; }
              rb = late;
              SIM_CHECK(!(ra && rb), "two-outcomes", "both");
            }
            int64_t el = c.elapsed();
            SIM_CHECK(ra || rb, "select-empty", "select returned with nothing active");
            // Deadlines are kept as wall-clock milliseconds: they may be two milliseconds early.
            int64_t early = mode == 3 ? 2000000 : 0;
            if (ra) SIM_CHECK(el >= a * 1000000LL, "timeout-early", "timeout of %dms reported after %lldns", a, (long long)el);
            if (rb) SIM_CHECK(el + early >= b * 1000000LL, "timeout-early", "timeout of %dms reported after %lldns", b, (long long)el);
            SIM_CHECK(el <= want * 1000000 + c.slack(), "timeout-late", "select with a timeout of %lldms took %lldns (allowed slack %lldns)", (long long)want, (long long)el, (long long)c.slack());
          }
        });
    }
    over.set();
  }
}

// Polling awaitables next to once-only timeouts, as arguments and in vectors.
SIM_SCENARIO(A06, polling_mix, 6) {
  bool noise = sim::chance(OPS, 1, 3);
  bool eintr = sim::chance(CFG, 1, 3);
  if (eintr) sim::faults().eintr = 200000;
  static const int scale[] = {1, 3, 20};
  int sc = scale[sim::pick(OPS, 3)];
  arpc::channel p[2];
  arpc::pipe(p);
  p[0].make_non_blocking();
  p[1].make_non_blocking();
  sim::sample("noise=%d scale=%dms ", noise, sc);
  arpc::flag over;
  Crew noisers;
  if (noise)
    noisers.add([&] {
      while (!over) {
        sim::sleep_us(1 + sim::pick(OPS, 3000 * sc));
        try { p[1].maybe_write("x", 1); } catch (const arpc::errors::try_again&) {}
      }
    });
  for (int round = sim::range(OPS, 1, 3); round; round--) {
    struct Spec { bool polling; int every, left; int64_t last; };
    std::vector<Spec> spec;
    Clock c;
    for (int i = 0; i < 8; i++) {
      Spec s{sim::chance(OPS, 1, 2), sim::range(OPS, 1, 12) * sc, (int)sim::pick(OPS, 5), c.t0};
      if (!s.polling) s.every *= 2;
      if (i == 6) { s.polling = false; s.every = 40 * sc; }   // There is an end to it.
      spec.push_back(s);
    }
    int nv = sim::pick(OPS, 4), nw = sim::pick(OPS, 3);   // How many in either vector; two are arguments.
    int used = nv + nw + 2;
    int shortest = INT32_MAX, end = INT32_MAX;
    std::vector<int> all;
    for (int i = 0; i < used - 1; i++) all.push_back(i);
    all.push_back(6);
    for (int i : all) (spec[i].polling ? shortest : end) = std::min(spec[i].polling ? shortest : end, spec[i].every);
    auto make = [&](int i) {
      Spec& s = spec[i];
      auto base = s.polling ? arpc::polling(ms(s.every)) : arpc::timeout(ms(s.every));
      return base.then([&, i] {
        Spec& s = spec[i];
        int64_t now = sim::now_ns();
        sim::Quiet q;
        if (!s.polling) {
          SIM_CHECK(now - c.t0 >= s.every * 1000000LL, "timeout-early", "timeout of %dms after %lldns", s.every, (long long)(now - c.t0));
          return;
        }
        sim::probe("polled");
        SIM_CHECK(now - s.last >= shortest * 1000000LL, "polled-too-often", "polled %lldns after the last time, with intervals from %dms", (long long)(now - s.last), shortest);
        if (!noise && !eintr)
          SIM_CHECK(now - s.last <= s.every * 1000000LL + c.slack(), "polled-too-seldom", "polled every %dms, but %lldns after the last time", s.every, (long long)(now - s.last));
        s.last = now;
        if (s.left-- > 0) throw arpc::errors::try_again("keep polling");
      });
    };
    auto drain = [&] { char ch; p[0].maybe_read(&ch, 1); throw arpc::errors::try_again("not yet"); };
    std::vector<arpc::awaitable<void>> v, w;
    int k = 0;
    for (int i = 0; i < nv; i++) v.push_back(make(all[k++]));
    int x = all[k++];
    for (int i = 0; i < nw; i++) w.push_back(make(all[k++]));
    bool noise_in_v = sim::chance(OPS, 1, 2);
    if (noise_in_v) v.push_back(p[0].can_read().then(drain));
    c = Clock();
    for (auto& s : spec) s.last = c.t0;
    auto [rv, rx, rw, rn, ry] = arpc::select(std::move(v), make(x), std::move(w), noise_in_v ? arpc::never() : p[0].can_read().then(drain), make(6));
    int64_t el = c.elapsed();
    SIM_CHECK((int)rv.size() == nv + noise_in_v && (int)rw.size() == nw, "result-shape", "wrong number of results");
    int hits = bool(rx) + bool(ry);
    for (int i = 0; i < nv; i++) hits += bool(rv[i]);
    for (int i = 0; i < nw; i++) hits += bool(rw[i]);
    SIM_CHECK(hits, "select-empty", "select returned with nothing active");
    SIM_CHECK(!rn && !(noise_in_v && rv[nv]), "inactive-reported", "a reaction that asked to try again was reported as active");
    auto report = [&](int i, bool r) {
      SIM_CHECK(!r || spec[i].polling || el >= spec[i].every * 1000000LL, "timeout-early", "timeout of %dms reported after %lldns", spec[i].every, (long long)el);
      SIM_CHECK(!spec[i].polling || r == (spec[i].left < 0), "inactive-reported", "polling reported %d after it %s", r, spec[i].left < 0 ? "succeeded" : "asked to try again");
    };
    k = 0;
    for (int i = 0; i < nv; i++) report(all[k++], bool(rv[i]));
    report(all[k++], bool(rx));
    for (int i = 0; i < nw; i++) report(all[k++], bool(rw[i]));
    report(6, bool(ry));
    SIM_CHECK(el <= end * 1000000LL + c.slack(), "timeout-late", "select with a timeout of %dms took %lldns", end, (long long)el);
    // None of the polling ones went without being polled for longer than its interval.
    if (!noise && !eintr)
      for (int i : all) if (spec[i].polling)
        SIM_CHECK(c.t0 + el - spec[i].last <= spec[i].every * 1000000LL + c.slack(), "polled-too-seldom", "polled every %dms, but not for %lldns", spec[i].every, (long long)(c.t0 + el - spec[i].last));
  }
  over.set();
}

// Whatever subset of many awaitables is ready, exactly ready ones are reported,
// and a reported one really took effect.
SIM_SCENARIO(A06, ready_subset, 8) {
  local_faults();
  int n = sim::range(OPS, 1, 6), rounds = sim::range(OPS, 1, 4);
  bool vec = sim::chance(OPS, 1, 2);
  std::vector<std::unique_ptr<arpc::queue<int>>> qs;
  for (int i = 0; i < n; i++) qs.push_back(std::make_unique<arpc::queue<int>>());
  std::vector<int> sent(n, 0), got(n, 0);
  int total = n * rounds;
  sim::sample("queues=%d items=%d vector=%d ", n, total, vec);
  Crew crew;
  crew.add([&] {
    for (int k = 0; k < total; k++) {
      if (sim::chance(OPS, 1, 2)) pause();
      int i = sim::pick(OPS, n);
      { sim::Quiet q; sent[i]++; }
      qs[i]->put(sent[i]);
    }
  });
  int nc = sim::range(OPS, 1, 2);
  int remaining = total;
  arpc::flag done;
  for (int c = 0; c < nc; c++)
    crew.add([&] {
      while (true) {
        int hits = 0;
        auto take = [&](int i, int v) {
          sim::Quiet q;
          hits++;
          got[i]++;
          SIM_CHECK(v == got[i] || nc > 1, "reordered", "queue %d delivered %d, expected %d", i, v, got[i]);
          return --remaining == 0;
        };
        if (vec) {
          std::vector<arpc::awaitable<int>> v;
          for (auto& q : qs) v.push_back(q->async_get());
          auto [r, d] = arpc::select(std::move(v), done.async_wait());
          SIM_CHECK((int)r.size() == n, "result-shape", "%zu results for %d awaitables", r.size(), n);
          bool fin = false;
          for (int i = 0; i < n; i++) if (r[i]) fin |= take(i, *r[i]);
          if (fin) done.set();
          SIM_CHECK(hits || d, "select-empty", "select returned with nothing active");
          if (hits > 1) sim::probe("several-ready");
          if (d) return;
        } else {
          auto& q0 = *qs[0];
          auto& q1 = *qs[n - 1];
          auto& q2 = *qs[n / 2];
          int i0 = 0, i1 = n - 1, i2 = n / 2;
          // Also mixes inactive inputs in between.
          auto [a, nv, b, c2, d, t] = arpc::select(q0.async_get(), arpc::never(), q1.async_get(), q2.async_get(), done.async_wait(), arpc::timeout(ms(1)));
          SIM_CHECK(!nv, "inactive-reported", "never() was reported as active");
          bool fin = false;
          if (a) fin |= take(i0, *a);
          if (b) fin |= take(i1, *b);
          if (c2) fin |= take(i2, *c2);
          for (int i = 0; i < n; i++) {
            while (true) {
              try { int x = qs[i]->maybe_get(); fin |= take(i, x); } catch (const arpc::errors::try_again&) { break; }
            }
          }
          if (fin) done.set();
          SIM_CHECK(hits || d || t, "select-empty", "select returned with nothing active");
          if (d) return;
        }
      }
    });
  crew.join();
  for (int i = 0; i < n; i++) SIM_CHECK(sent[i] == got[i], "lost", "queue %d: %d put, %d got", i, sent[i], got[i]);
}

// Timeouts and deadlines of days and weeks, through interruptions.
SIM_SCENARIO(A06, long_timeouts, 2) {
  quiet_faults();
  static const int64_t hours[] = {1, 24, 24 * 20, 24 * 25, 24 * 40, 24 * 60, 24 * 120};
  int64_t h = hours[sim::pick(OPS, 7)];
  bool dl = sim::chance(OPS, 1, 2);
  sim::sample("hours=%lld deadline=%d ", (long long)h, dl);
  Clock c;
  int64_t want = h * 3600LL * 1000000000LL;
  if (dl) {
    arpc::context ctx;
    ctx.set_timeout(std::chrono::hours(h));
    bool late = false;
    try { arpc::wait(arpc::never()); } catch (const arpc::errors::deadline_exceeded&) { late = true; }
    SIM_CHECK(late, "deadline-ignored", "wait returned without the deadline");
  } else {
    arpc::wait(arpc::timeout(std::chrono::hours(h)));
  }
  SIM_CHECK(c.elapsed() + 2000000 >= want, "timeout-early", "%lld hours reported after %lldns", (long long)h, (long long)c.elapsed());
  SIM_CHECK(c.elapsed() <= want + c.slack(), "timeout-late", "%lld hours reported after %lldns", (long long)h, (long long)c.elapsed());
}

// A blocked operation is given up promptly on cancellation or deadline, and
// never completes after reporting that.
SIM_SCENARIO(A06, interrupted_waits, 5) {
  quiet_faults();
  int n = sim::range(OPS, 1, 4);
  arpc::mutex mu;
  mu.lock();
  arpc::queue<int> q;
  arpc::semaphore sem(1);
  arpc::flag f;
  sim::sample("threads=%d ", n);
  struct W { std::unique_ptr<arpc::context> ctx; bool by_cancel; int64_t at = 0; };
  std::vector<W> w(n);
  for (auto& x : w) {
    x.ctx = std::make_unique<arpc::context>(arpc::context::current(), false);
    x.by_cancel = sim::chance(OPS, 1, 2);
    if (!x.by_cancel) { int t = sim::range(OPS, 1, 20); x.ctx->set_timeout(ms(t)); x.at = sim::now_ns() + t * 1000000LL; }
  }
  Crew crew;
  for (int i = 0; i < n; i++)
    crew.add([&, i] {
      arpc::context here(*w[i].ctx);
      Clock c;
      int kind = sim::pick(OPS, 5);
      auto r = outcome([&] {
        switch (kind) {
          case 0: mu.lock(); break;
          case 1: q.get(); break;
          case 2: sem.get(); break;
          case 3: f.wait(); break;
          default: arpc::wait(arpc::never()); break;
        }
        return true;
      });
      SIM_CHECK(r == (w[i].by_cancel ? CANCELED : LATE), "wait-outcome", "kind %d outcome %d", kind, r);
      sim::Quiet qq;
      SIM_CHECK(w[i].at != 0, "gave-up-early", "reported before it happened");
      int64_t d = sim::now_ns() - w[i].at;
      SIM_CHECK(d >= -2000000 - c.slack(), "gave-up-early", "%lldns early", (long long)-d);
      // A thread that only got to run after that moment cannot have noticed any earlier.
      d = std::min(d, c.elapsed());
      SIM_CHECK(d <= c.slack(), "gave-up-late", "%lldns late", (long long)d);
    });
  for (auto& x : w) if (x.by_cancel) {
    pause();
    { sim::Quiet qq; x.at = sim::now_ns(); }
    sim::count_fault(sim::F_CANCEL);
    x.ctx->cancel();
  }
  crew.join();
  mu.unlock();
  SIM_CHECK(mu.try_lock(), "lock-leaked", "an abandoned lock() took the mutex");
}

// A cancelled context wins over whatever else is ready, and nothing that was
// ready is consumed by the wait it interrupts.
SIM_SCENARIO(A06, cancelled_first, 4) {
  quiet_faults();
  int n = sim::range(OPS, 1, 4);
  arpc::queue<int> q;
  arpc::semaphore sem(8);
  arpc::mutex mu;
  arpc::channel p[2];
  arpc::pipe(p);
  p[0].make_non_blocking();
  arpc::flag f;
  int items = sim::pick(OPS, 5), permits = sim::pick(OPS, 5), bytes = sim::pick(OPS, 5);
  for (int i = 0; i < items; i++) q.put(i);
  for (int i = 0; i < permits; i++) sem.put();
  if (bytes) p[1].write("abcdefgh", bytes);
  if (sim::chance(OPS, 1, 2)) f.set();
  bool start_cancelled = sim::chance(OPS, 1, 2);
  sim::sample("threads=%d items=%d permits=%d bytes=%d cancelled=%d ", n, items, permits, bytes, start_cancelled);
  arpc::context ctx;
  bool cancelled = false;   // Whether cancel() has returned.
  if (start_cancelled) { ctx.cancel(); cancelled = true; }
  int got = 0, granted = 0, read = 0;
  {
    Crew crew;
    for (int i = 0; i < n; i++)
      crew.add([&] {
        arpc::context here(ctx);
        for (int k = sim::range(OPS, 1, 4); k; k--) {
          pause();
          bool before;
          { sim::Quiet qq; before = cancelled; }
          bool fl = sim::chance(OPS, 1, 2);
          int kind = sim::pick(OPS, 3), hits = 0;
          auto read1 = [&] { char c; return (int)p[0].maybe_read(&c, 1); };
          auto r = outcome([&] {
            if (kind == 0) {
              auto [a, b, c, t] = arpc::select(q.async_get(), sem.async_get(), p[0].can_read().then(read1), arpc::timeout(ms(1)));
              sim::Quiet qq;
              if (a) { *a; got++; hits++; }
              if (b) { *b; granted++; hits++; }
              if (c) { read += *c; hits++; }
              if (t) hits++;
            } else if (kind == 1) {
              std::vector<arpc::awaitable<int>> v;
              v.push_back(q.async_get());
              v.push_back(p[0].can_read().then(read1));
              auto [fs, rs, t] = arpc::select(fl ? f.async_wait() : arpc::never(), std::move(v), arpc::timeout(ms(1)));
              sim::Quiet qq;
              if (fs) hits++;
              if (rs[0]) { *rs[0]; got++; hits++; }
              if (rs[1]) { read += *rs[1]; hits++; }
              if (t) hits++;
            } else {
              auto [l, t] = arpc::select(mu.async_lock(), arpc::timeout(ms(1)));
              if (l) { hits++; mu.unlock(); }
              if (t) hits++;
            }
            SIM_CHECK(hits, "select-empty", "select returned with nothing active");
            return true;
          });
          SIM_CHECK(r == DONE || r == CANCELED, "wait-outcome", "kind %d outcome %d", kind, r);
          SIM_CHECK(!before || r == CANCELED, "cancellation-passed-over", "kind %d: a wait begun in a cancelled context returned normally", kind);
          if (r == CANCELED) sim::probe("cancelled");
        }
      });
    if (!start_cancelled) {
      pause();
      sim::count_fault(sim::F_CANCEL);
      ctx.cancel();
      sim::Quiet qq;
      cancelled = true;
    }
  }
  // What the waits did not report is all still there.
  int left = 0;
  while (outcome([&] { q.maybe_get(); return true; }) == DONE) left++;
  SIM_CHECK(left + got == items, "lost", "%d items, %d got, %d left", items, got, left);
  left = 0;
  while (outcome([&] { sem.maybe_get(); return true; }) == DONE) left++;
  SIM_CHECK(left + granted == permits, "lost", "%d permits, %d granted, %d left", permits, granted, left);
  left = 0;
  char c;
  while (outcome([&] { p[0].maybe_read(&c, 1); return true; }) == DONE) left++;
  SIM_CHECK(left + read == bytes, "lost", "%d bytes, %d read, %d left", bytes, read, left);
  SIM_CHECK(mu.try_lock(), "lock-leaked", "an abandoned lock() took the mutex");
}

// One select over a crowd: the one thing that happens is found wherever it is.
SIM_SCENARIO(A06, crowd, 3) {
  quiet_faults();
  static const int sizes[] = {0, 1, 7, 31, 61, 62, 63, 64, 65, 100, 126, 127, 128, 129, 250, 257};
  int n = sizes[sim::pick(OPS, 16)], m = sizes[sim::pick(OPS, 16)];
  int nf = sim::range(OPS, 1, 5);
  int event = sim::pick(OPS, 5);  // a flag, a timeout, cancellation, a deadline, something already there
  sim::sample("first=%d second=%d flags=%d event=%d ", n, m, nf, event);
  std::vector<std::unique_ptr<arpc::flag>> flags;
  for (int i = 0; i < nf; i++) flags.push_back(std::make_unique<arpc::flag>());
  // Where each of the two vectors has something other than never().
  std::vector<int> at(n + m, -1);
  if (n + m) for (int i = 0; i < nf; i++) {
    int p = sim::chance(OPS, 1, 3) ? (sim::chance(OPS, 1, 2) ? n + m - 1 : 0) : sim::pick(OPS, n + m);
    at[p] = i;
  }
  std::vector<int> used;
  for (int i = 0; i < n + m; i++) if (at[i] >= 0) used.push_back(i);
  if (event == 0 && used.empty()) event = 2;
  int which = used.empty() ? -1 : used[sim::pick(OPS, used.size())];
  int wait = sim::range(OPS, 1, 20), tpos = sim::pick(OPS, 3);
  arpc::context ctx(arpc::context::current(), false);
  int64_t when = 0;  // When the event happened.
  Crew crew;
  crew.add([&] {
    arpc::context here(ctx);
    if (event == 3) here.set_timeout(ms(wait));
    std::vector<arpc::awaitable<void>> v, w;
    for (int i = 0; i < n + m; i++)
      (i < n ? v : w).push_back(at[i] >= 0 ? flags[at[i]]->async_wait() : event == 1 && sim::chance(OPS, 1, 4) ? arpc::timeout(ms(100 + i)) : arpc::never());
    auto slot = [&](int p) { return event == 1 && tpos == p ? arpc::timeout(ms(wait)) : event == 4 && tpos == p ? arpc::always() : arpc::never(); };
    Clock c;
    int hits = 0, where = -1;
    auto r = outcome([&] {
      auto [a, rv, b, rw, d] = arpc::select(slot(0), std::move(v), slot(1), std::move(w), slot(2));
      SIM_CHECK((int)rv.size() == n && (int)rw.size() == m, "result-shape", "%zu and %zu results for %d and %d awaitables", rv.size(), rw.size(), n, m);
      for (int i = 0; i < n + m; i++) if (i < n ? rv[i] : rw[i - n]) { hits++; where = i; }
      SIM_CHECK(!a || ((event == 1 || event == 4) && tpos == 0), "inactive-reported", "the first was reported as active");
      SIM_CHECK(!b || ((event == 1 || event == 4) && tpos == 1), "inactive-reported", "the third was reported as active");
      SIM_CHECK(!d || ((event == 1 || event == 4) && tpos == 2), "inactive-reported", "the last was reported as active");
      SIM_CHECK(event == 0 || a || b || d, "select-empty", "event %d, yet only %d other hits", event, hits);
      return true;
    });
    SIM_CHECK(r == (event == 2 ? CANCELED : event == 3 ? LATE : DONE), "wait-outcome", "event %d outcome %d", event, r);
    if (event == 0) {
      // Several places may wait for nothing but the one flag that was set.
      SIM_CHECK(hits == 1 && where == which, "inactive-reported", "%d hits, %d instead of %d", hits, where, which);
    } else if (r == DONE) {
      SIM_CHECK(hits == 0, "inactive-reported", "place %d was reported as active", where);
    }
    if (event == 1 || event == 3) {
      SIM_CHECK(c.elapsed() >= wait * 1000000LL - 2000000 - c.slack(), "gave-up-early", "%lldns for %d ms", (long long)c.elapsed(), wait);
      SIM_CHECK(c.elapsed() <= wait * 1000000LL + c.slack(), "gave-up-late", "%lldns for %d ms", (long long)c.elapsed(), wait);
    } else {
      sim::Quiet qq;
      int64_t d = std::min(c.elapsed(), sim::now_ns() - when);
      SIM_CHECK(event == 4 || when, "gave-up-early", "event %d was reported before it happened", event);
      SIM_CHECK(event == 4 ? c.elapsed() <= c.slack() : d <= c.slack(), "gave-up-late", "event %d: %lldns late", event, (long long)d);
    }
  });
  if (event == 0 || event == 2) {
    pause();
    { sim::Quiet qq; when = sim::now_ns(); }
    if (event == 0) flags[at[which]]->set();
    else { sim::count_fault(sim::F_CANCEL); ctx.cancel(); }
  }
  crew.join();
}
