#include "arpc/semaphore.h"
#include "common.h"
using namespace sc;

SIM_SCENARIO(A04, linearizable, 6) {
  local_faults();
  size_t cap = sim::range(OPS, 1, 3);
  auto s = std::make_unique<arpc::semaphore>(cap);
  History h;
  CancelHub hub;
  int n = sim::range(OPS, 2, 4), k = sim::range(OPS, 1, 4);
  bool cancels = sim::chance(OPS, 1, 2);
  sim::sample("capacity=%zu threads=%d ops=%d cancels=%d ", cap, n, k, cancels);
  auto attempt = [&](int kind, bool blocking, arpc::context& ctx) {
    int o = h.begin(kind ? "put" : "get");
    auto r = outcome([&] {
      if (!blocking) { if (kind) s->maybe_put(); else s->maybe_get(); h.end(o); return true; }
      auto [a, t] = arpc::select(kind ? s->async_put() : s->async_get(), arpc::timeout(ms(sim::pick(OPS, 4))));
      if (!a) { *t; return false; }
      *a;
      h.end(o);
      return true;
    });
    if (r == DONE) return;
    if (!blocking) {
      SIM_CHECK(r == AGAIN, "outcome", "outcome %d", r);
      h.ops[o].name = kind ? "put_full" : "get_empty";
      h.end(o);
    } else {
      SIM_CHECK(r == TIMEOUT || (r == CANCELED && ctx.is_cancelled()), "outcome", "outcome %d", r);
      h.drop(o);
    }
  };
  {
    Crew crew;
    for (int i = 0; i < n; i++)
      crew.add([&, k] {
        for (int j = 0; j < k; j++) {
          pause();
          Scope sc(hub);
          switch (sim::weighted(OPS, {3, 3, 3, 3, 1, 1, 1})) {
            case 0: attempt(1, false, sc.ctx); break;
            case 1: attempt(0, false, sc.ctx); break;
            case 2: attempt(1, true, sc.ctx); break;
            case 3: attempt(0, true, sc.ctx); break;
            case 4: { int o = h.begin("size"); h.end(o, s->size()); break; }
            case 5: { int o = h.begin("empty"); h.end(o, s->empty()); break; }
            case 6: { int o = h.begin("full"); h.end(o, s->full()); break; }
          }
        }
      });
    if (cancels) crew.add([&] { for (int j = sim::range(OPS, 1, 6); j; j--) { pause(); hub.cancel_one(); } });
  }
  int o = h.begin("size"); h.end(o, s->size());
  o = h.begin("empty"); h.end(o, s->empty());
  o = h.begin("full"); h.end(o, s->full());
  SIM_CHECK(linearizable(h, std::string(1, '\0'), [&](std::string& st, const Op& op) {
    size_t v = (unsigned char)st[0];
    if (op.name == "put") { if (v >= cap) return false; st[0] = (char)(v + 1); return true; }
    if (op.name == "get") { if (v == 0) return false; st[0] = (char)(v - 1); return true; }
    if (op.name == "put_full") return v >= cap;
    if (op.name == "get_empty") return v == 0;
    if (op.name == "size") return (size_t)op.res == v;
    if (op.name == "empty") return (op.res != 0) == (v == 0);
    return (op.res != 0) == (v >= cap);
  }), "not-linearizable", "no order fits a counter bounded by %zu:%s", cap, h.text().c_str());
}

// As a resource limiter: never more holders than permits, no permit lost.
SIM_SCENARIO(A04, limiter, 6) {
  local_faults();
  int cap = few(1, 3, 300), n = few(2, 6, 40), k = n > 6 ? 1 : sim::range(OPS, 1, 4);
  auto s = std::make_unique<arpc::semaphore>(cap);
  CancelHub hub;
  int inside = 0, most = 0;
  sim::sample("permits=%d threads=%d ops=%d ", cap, n, k);
  for (int i = 0; i < cap; i++) s->put();
  {
    Crew crew;
    for (int i = 0; i < n; i++)
      crew.add([&, k] {
        for (int j = 0; j < k; j++) {
          pause();
          Scope sc(hub);
          auto r = outcome([&] { s->get(); return true; });
          if (r != DONE) { SIM_CHECK(r == CANCELED && sc.ctx.is_cancelled(), "outcome", "outcome %d", r); continue; }
          {
            sim::Quiet q;
            if (++inside > most) most = inside;
            SIM_CHECK(inside <= cap, "too-many-holders", "%d holders, %d permits", inside, cap);
          }
          pause();
          { sim::Quiet q; --inside; }
          // A permit that was taken can always be given back without waiting.
          s->maybe_put();
        }
      });
    crew.add([&] { for (int j = sim::pick(OPS, 5); j; j--) { pause(); hub.cancel_one(); } });
  }
  if (most == cap) sim::probe("limiter-saturated");
  for (int i = 0; i < cap; i++) {
    auto r = outcome([&] { s->maybe_get(); return true; });
    SIM_CHECK(r == DONE, "permit-lost", "only %d of %d permits are left", i, cap);
  }
  auto r = outcome([&] { s->maybe_get(); return true; });
  SIM_CHECK(r == AGAIN, "permit-forged", "more than %d permits exist", cap);
}

// Counts of any size, by one thread.
SIM_SCENARIO(A04, bulk, 1) {
  static const uint32_t caps[] = {1, 2, 15, 16, 17, 127, 128, 129, 255, 256, 257, 1000, 4096};
  size_t cap = caps[sim::pick(OPS, 13)], n = 0;
  auto s = std::make_unique<arpc::semaphore>(cap);
  for (int phase = sim::range(OPS, 2, 6); phase; phase--) {
    bool in = sim::pick(OPS, 3), waits = sim::pick(OPS, 4) == 0;
    int k = sim::pick(OPS, 2) ? sim::range(OPS, 1, 20) : sim::range(OPS, 1, 1500);
    for (int i = 0; i < k; i++) {
      bool ok = in ? n < cap : n > 0;
      auto r = ok && waits && i < 50 ? outcome([&] { if (in) s->put(); else s->get(); return true; }) : outcome([&] { if (in) s->maybe_put(); else s->maybe_get(); return true; });
      SIM_CHECK(r == (ok ? DONE : AGAIN), "not-linearizable", "%s with a count of %zu of %zu: outcome %d", in ? "put" : "get", n, cap, r);
      if (r != DONE) break;
      n += in ? 1 : -1;
    }
    SIM_CHECK(s->size() == n && s->empty() == (n == 0) && s->full() == (n == cap), "not-linearizable", "a count of %zu of %zu reads %zu, empty %d, full %d", n, cap, s->size(), s->empty(), s->full());
    auto [g, p] = arpc::select(s->can_get(), s->can_put());
    SIM_CHECK(bool(g) == (n > 0) && bool(p) == (n < cap), "not-linearizable", "a count of %zu of %zu can be got from: %d, put into: %d", n, cap, bool(g), bool(p));
  }
  sim::sample("capacity=%zu ends at %zu ", cap, n);
}
