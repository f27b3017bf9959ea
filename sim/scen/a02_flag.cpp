#include "arpc/flag.h"
#include "common.h"
using namespace sc;

namespace {
bool flag_model(std::string& s, const Op& o) {
  bool v = s == "1";
  if (o.name == "set") { s = "1"; return true; }
  if (o.name == "reset") { s = "0"; return true; }
  if (o.name == "is_set" || o.name == "poll") return (o.res != 0) == v;
  if (o.name == "wait") return v;
  return false;
}
}  // namespace

// set / reset / is_set / wait from several threads, some of them in cancelled
// contexts: the history must be that of one boolean.
SIM_SCENARIO(A02, linearizable, 10) {
  local_faults();
  auto f = std::make_unique<arpc::flag>();
  History h;
  CancelHub hub;
  int n = sim::range(OPS, 2, 4), k = sim::range(OPS, 1, 4);
  bool cancels = sim::chance(OPS, 1, 2);
  sim::sample("threads=%d ops=%d cancels=%d ", n, k, cancels);
  {
    Crew waiters;
    {
      Crew crew;
      for (int i = 0; i < n; i++)
        crew.add([&, k] {
          for (int j = 0; j < k; j++) {
            pause();
            Scope s(hub);
            switch (sim::weighted(OPS, {4, 4, 3, 3, 3})) {
              case 0: { int o = h.begin("set"); f->set(); h.end(o); break; }
              case 1: { int o = h.begin("reset"); f->reset(); h.end(o); break; }
              case 2: { int o = h.begin("is_set"); bool v = sim::chance(OPS, 1, 2) ? f->is_set() : bool(*f); h.end(o, v); break; }
              case 3: {
                int o = h.begin("poll");
                auto r = outcome([&] {
                  auto [w, t] = arpc::select(f->async_wait(), arpc::always());
                  if (w) { *w; h.end(o, 1); } else { *t; h.end(o, 0); }
                  return true;
                });
                if (r != DONE) { SIM_CHECK(r == CANCELED && s.ctx.is_cancelled(), "wait-outcome", "outcome %d", r); h.drop(o); }
                break;
              }
              case 4: {
                int o = h.begin("wait");
                auto r = outcome([&] {
                  auto [w, t] = arpc::select(f->async_wait(), arpc::timeout(ms(sim::pick(OPS, 3))));
                  if (!w) { *t; return false; }
                  *w;
                  h.end(o);
                  return true;
                });
                if (r != DONE) { SIM_CHECK(r == TIMEOUT || (r == CANCELED && s.ctx.is_cancelled()), "wait-outcome", "outcome %d", r); h.drop(o); }
                break;
              }
            }
          }
        });
      if (cancels) crew.add([&] { for (int j = sim::range(OPS, 1, 6); j; j--) { pause(); hub.cancel_one(); } });
      int nw = sim::pick(OPS, 3);
      for (int i = 0; i < nw; i++)
        waiters.add([&] { pause(); int o = h.begin("wait"); f->wait(); h.end(o); });
    }
    // Every setter and resetter is done; from here on the flag stays set and
    // every waiter must return.
    int o = h.begin("set");
    f->set();
    h.end(o);
    if (sim::chance(OPS, 1, 2)) { o = h.begin("wait"); f->wait(); h.end(o); }
  }
  int o = h.begin("is_set"); h.end(o, f->is_set());
  SIM_CHECK(linearizable(h, "0", flag_model), "not-linearizable", "no order of these operations fits one boolean:%s", h.text().c_str());
  f->reset();
  f->reset();
  SIM_CHECK(!f->is_set(), "reset-ignored", "still set after reset");
  auto [w, t] = arpc::select(f->async_wait(), arpc::timeout(ms(1)));
  SIM_CHECK(!w && t, "wait-on-reset-flag", "a wait on a reset flag completed");
}

// One set() publishes earlier writes to and releases every waiter.
SIM_SCENARIO(A02, publish, 5) {
  local_faults();
  auto f = std::make_unique<arpc::flag>();
  int data = 0;
  int n = few(1, 6, 70);
  bool dead_ctx = sim::chance(OPS, 1, 2);
  int mode = sim::pick(OPS, 2);
  Crew crew;
  for (int i = 0; i < n; i++)
    crew.add([&] {
      pause();
      if (mode == 0) f->wait();
      else while (!*f) sim::sleep_us(50);
      SIM_CHECK(data == 42, "stale-data", "released before the data was published: %d", data);
      SIM_CHECK(f->is_set(), "flag-lost", "a waiter was released and the flag is not set");
    });
  crew.add([&, dead_ctx] {
    pause();
    arpc::context ctx;
    if (dead_ctx) ctx.cancel();
    data = 42;
    f->set();
    f->set();
  });
  crew.join();
  f->wait();
}
