#include "arpc/server.h"
#include "arpc/usage_lock.h"
#include "common.h"
using namespace sc;

namespace {
struct Guarded {
  int gen;
  long data = 0;
  explicit Guarded(int g) : gen(g) {}
  ~Guarded() { gen = -1; }
};
struct Held { int now = 0, peak = 0; };

// What every user does with the resource it got.
template <typename P>
void use(P& p, int gen_at_least, Held& h, std::mutex& user_mu) {
  { sim::Quiet q; h.now++; h.peak = std::max(h.peak, h.now); }
  int g = p->gen;
  SIM_CHECK(g >= gen_at_least, "dropped-resource", "got resource %d although %d had been dropped", g, gen_at_least - 1);
  pause();
  { std::scoped_lock l(user_mu); p->data++; }
  if (sim::chance(OPS, 1, 3)) pause();
  SIM_CHECK(p->gen == g, "dropped-in-use", "the resource was destroyed while in use");
  { sim::Quiet q; h.now--; }
}
}  // namespace

// Getters, droppers and one thread that arms again, over several generations.
SIM_SCENARIO(A09, usage_lock, 10) {
  local_faults();
  int getters = few(1, 4, 40), gens = getters > 4 ? 2 : few(1, 4, 30);
  sim::sample("getters=%d generations=%d ", getters, gens);
  std::vector<std::unique_ptr<Guarded>> res;   // all armed since the last drop
  bool again = sim::chance(OPS, 1, 3);         // arms some without dropping those before
  Held held;
  std::mutex user_mu;
  int dropped = -1;       // last generation whose drop returned
  {
    arpc::usage_lock<Guarded, arpc::errors::unavailable> lock("gone");
    Crew crew;
    for (int i = 0; i < getters; i++)
      crew.add([&] {
        int n = sim::range(OPS, 1, 6);
        for (int j = 0; j < n; j++) {
          if (sim::chance(OPS, 1, 3)) pause();
          int before;
          { sim::Quiet q; before = dropped; }
          std::shared_ptr<Guarded> p;
          if (sim::chance(OPS, 1, 2)) {
            p = lock.get_or_null();
          } else {
            try {
              p = lock.get();
              SIM_CHECK(p != nullptr, "null-get", "get() returned null");
            } catch (const arpc::errors::unavailable&) {
            }
          }
          if (p) {
            { sim::Quiet q; sim::probe("got"); }
            use(p, before + 1, held, user_mu);
            if (sim::chance(OPS, 1, 4)) {   // hand copies around
              auto copy = p;
              p.reset();
              pause();
              SIM_CHECK(copy->gen > before, "dropped-in-use", "a copy outlived the drop");
            }
          } else {
            sim::Quiet q;
            sim::probe("unavailable");
          }
        }
      });
    crew.add([&] {
      for (int g = 0; g < gens; g++) {
        if (sim::chance(OPS, 1, 3)) pause();
        res.push_back(std::make_unique<Guarded>(g));
        lock.arm(&*res.back());
        pause();
        {
          // Armed and nobody dropping: it must be available, and be the one armed.
          auto p = lock.get_or_null();
          SIM_CHECK(p && p->gen == g, "unavailable", "the resource is armed and get_or_null() returned %s", p ? "another" : "null");
          if (sim::chance(OPS, 1, 2)) { auto r = lock.get(); SIM_CHECK(r == p, "wrong-resource", "two gets differ"); }
        }
        pause();
        if (again && g < gens - 1 && sim::chance(OPS, 1, 2)) { sim::probe("armed-again"); continue; }
        if (g == gens - 1 && sim::chance(OPS, 1, 3)) break;   // leave the last one to the destructor
        lock.drop();
        {
          sim::Quiet q;
          dropped = g;
          SIM_CHECK(held.now == 0, "drop-returned-early", "drop() returned and %d users remain", held.now);
        }
        SIM_CHECK(!lock.get_or_null(), "get-after-drop", "get_or_null() works after drop()");
        try {
          lock.get();
          SIM_CHECK(false, "get-after-drop", "get() works after drop()");
        } catch (const arpc::errors::unavailable& e) {
          SIM_CHECK(std::string(e.what()) == "gone", "wrong-message", "get() after drop() says '%s'", e.what());
        }
        if (sim::chance(OPS, 1, 3)) lock.drop();   // again: nothing to wait for
        res.clear();
      }
    });
    if (sim::chance(OPS, 1, 2)) crew.join();
  }
  sim::Quiet q;
  SIM_CHECK(held.now == 0, "drop-returned-early", "the lock is destroyed and %d users remain", held.now);
}

// Several threads drop at once: each returns only when the users are gone.
SIM_SCENARIO(A09, droppers, 5) {
  local_faults();
  int getters = few(1, 4, 40), droppers = sim::range(OPS, 1, 3);
  auto res = std::make_unique<Guarded>(0);
  arpc::usage_lock<Guarded> lock(&*res);
  Held held;
  std::mutex user_mu;
  int early = 0, gone = 0;
  bool expect_all = sim::chance(OPS, 1, 3);
  Crew crew;
  std::mutex m;
  std::condition_variable cv;
  for (int i = 0; i < getters; i++)
    crew.add([&] {
      auto p = lock.get_or_null();
      if (expect_all) { std::unique_lock l(m); ++early; cv.notify_all(); }
      if (!p) return;
      use(p, 0, held, user_mu);
      { sim::Quiet q; SIM_CHECK(gone == 0 || !p, "dropped-in-use", "a drop returned while this thread holds the resource"); }
    });
  for (int i = 0; i < droppers; i++)
    crew.add([&] {
      if (expect_all) { std::unique_lock l(m); cv.wait(l, [&] { return early == getters; }); }
      pause();
      lock.drop();
      sim::Quiet q;
      gone++;
      SIM_CHECK(held.now == 0, "drop-returned-early", "drop() returned and %d users remain", held.now);
    });
  crew.join();
  { sim::Quiet q; if (expect_all) SIM_CHECK(held.peak > 0, "unavailable", "nobody got an armed resource"); }
  res.reset();
  SIM_CHECK(!lock.get_or_null(), "get-after-drop", "available after every drop");
}

namespace {
struct Service {
  int* state;
  explicit Service(int* s) : state(s) { *state = 1; }
  ~Service() { *state = 2; }
  void serve() { SIM_CHECK(*state == 1, "dropped-in-use", "the object was destroyed in use"); }
};
}  // namespace

// The object registered with a server is destroyed only after its users left.
SIM_SCENARIO(A09, server_object, 5) {
  local_faults();
  int state = 0, users = few(1, 4, 40), in_use = 0, ready = 0;
  auto obj = std::make_unique<arpc::server_object<Service>>(&state);
  Crew crew;
  std::mutex m;
  std::condition_variable cv;
  for (int i = 0; i < users; i++)
    crew.add([&, p = obj.get()] {
      {
        auto r = p->get_ref();
        { sim::Quiet q; in_use++; }
        { std::scoped_lock l(m); ++ready; cv.notify_all(); }
        for (int j = sim::range(OPS, 1, 3); j; j--) { pause(); r->serve(); }
        { sim::Quiet q; in_use--; }
      }
    });
  { std::unique_lock l(m); cv.wait(l, [&] { return ready == users; }); }
  pause();
  obj.reset();
  { sim::Quiet q; SIM_CHECK(in_use == 0, "drop-returned-early", "the object is destroyed and %d users remain", in_use); }
  SIM_CHECK(state == 2, "not-destroyed", "state %d", state);
  crew.join();
}
