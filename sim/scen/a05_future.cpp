#include <functional>
#include <type_traits>
#include "arpc/future.h"
#include "arpc/result_holder.h"
#include "common.h"
using namespace sc;

namespace {
struct Tok {
  int v = 0;
  static int live;
  Tok() { sim::Quiet q; ++live; }
  explicit Tok(int x) : v(x) { sim::Quiet q; ++live; }
  Tok(Tok&& o) noexcept : v(o.v) { o.v = -1; sim::Quiet q; ++live; }
  Tok& operator=(Tok&& o) noexcept { v = o.v; o.v = -1; return *this; }
  ~Tok() { sim::Quiet q; --live; }
};
int Tok::live = 0;

// What a chain of transformations makes of an outcome.
enum Err { NONE, IO, DATA, BROKEN };
struct Out { Err e = NONE; int v = 0; };
bool operator==(const Out& a, const Out& b) { return a.e == b.e && (a.e != NONE || a.v == b.v); }
[[noreturn]] void raise(Err e) {
  if (e == IO) throw arpc::errors::io_error("io");
  if (e == DATA) throw arpc::errors::data_mismatch("data");
  throw arpc::errors::invalid_state("x");
}
struct Step { int kind; int k; Err e; };

template <typename F>
Out observe(F f) {
  Out o;
  try { o.v = f(); }
  catch (const arpc::errors::io_error& e) { o.e = IO; SIM_CHECK(std::string(e.what()) == "io", "message", "error message is '%s'", e.what()); }
  catch (const arpc::errors::data_mismatch& e) { o.e = DATA; SIM_CHECK(std::string(e.what()) == "data", "message", "error message is '%s'", e.what()); }
  catch (const arpc::errors::invalid_state& e) { o.e = BROKEN; }
  return o;
}
}  // namespace

// One promise, one future, a random chain, every way to wait for it and to drop it.
SIM_SCENARIO(A05, chain, 10) {
  local_faults();
  int rounds = sim::range(OPS, 1, 3);
  for (int round = 0; round < rounds; round++) {
    int kind = sim::weighted(OPS, {5, 2, 1, 2, 2, 1});  // value, io, data, drop, result value, result error
    int val = sim::range(OPS, 1, 100);
    std::vector<Step> steps;
    for (int n = sim::weighted(OPS, {3, 3, 2, 2}); n; n--)
      steps.push_back(Step{(int)sim::weighted(OPS, {4, 2, 2, 2, 2}), (int)sim::range(OPS, 1, 9), Err(sim::range(OPS, 1, 3))});
    auto runs = std::make_unique<std::vector<int>>(steps.size(), 0);
    // Model.
    Out want;
    want.v = val;
    want.e = kind == 1 || kind == 5 ? IO : kind == 2 ? DATA : kind == 3 ? BROKEN : NONE;
    std::vector<int> must(steps.size(), 0);
    for (size_t i = 0; i < steps.size(); i++) {
      auto& s = steps[i];
      if (s.kind == 0) { if (want.e == NONE) { want.v += s.k; must[i]++; } }
      else if (s.kind == 1) { if (want.e == NONE) { want.e = s.e; must[i]++; } }
      else if (s.kind == 2) { if (want.e == IO) { want.e = NONE; want.v = s.k; must[i]++; } }
      else if (s.kind == 3) { if (want.e == BROKEN) { want.e = NONE; want.v = s.k; must[i]++; } }
      else { must[i]++; if (want.e == NONE) want.v *= s.k; }
    }
    int wait = sim::weighted(OPS, {4, 4, 3, 2, 3});  // get, select+timeout loop, poll maybe_get, drop, get in cancellable
    bool last_void = sim::chance(OPS, 1, 4);
    sim::sample("outcome=%d steps=%zu wait=%d ", kind, steps.size(), wait);
    arpc::promise<Tok> p;
    auto f0 = p.get_future();
    Crew crew;
    CancelHub hub;
    crew.add([&, p = std::make_shared<arpc::promise<Tok>>(std::move(p))]() mutable {
      pause();
      switch (kind) {
        case 0: p->set_value(Tok(val)); break;
        case 1: p->set_exception(std::make_exception_ptr(arpc::errors::io_error("io"))); break;
        case 2: p->set_exception(std::make_exception_ptr(arpc::errors::data_mismatch("data"))); break;
        case 3: p.reset(); break;
        case 4: p->set(arpc::result_holder<Tok>(Tok(val))); break;
        case 5: p->set(arpc::result_holder<Tok>(std::make_exception_ptr(arpc::errors::io_error("io")))); break;
      }
      if (kind != 3) {
        bool again = false;
        try { p->set_value(Tok(1)); again = true; } catch (const arpc::errors::invalid_state&) {}
        SIM_CHECK(!again, "promise-set-twice", "a promise accepted a second outcome");
      }
    });
    crew.add([&, f0 = std::make_shared<arpc::future<Tok>>(std::move(f0))]() mutable {
      pause();
      arpc::future<int> f = f0->then([](Tok t) { return t.v; });
      for (size_t i = 0; i < steps.size(); i++) {
        auto s = steps[i];
        int* cnt = &(*runs)[i];
        auto ran = [cnt] { sim::Quiet q; ++*cnt; };
        switch (s.kind) {
          case 0: f = f.then([=](int x) { ran(); return x + s.k; }); break;
          case 1: f = f.then([=](int x) -> int { ran(); raise(s.e); }); break;
          case 2: f = f.except<arpc::errors::io_error>([=](const arpc::errors::io_error&) { ran(); return s.k; }); break;
          case 3: f = f.except<arpc::errors::invalid_state>([=](const arpc::errors::invalid_state&) { ran(); return s.k; }); break;
          default: f = f.decorate([=](auto& inner, auto& st) {
            // Runs on every attempt, so it may only count those that are over.
            try { int x = inner(st); ran(); return x * s.k; } catch (const arpc::errors::try_again&) { throw; } catch (...) { ran(); throw; }
          }); break;
        }
      }
      f0.reset();
      pause();
      if (wait == 3) return;  // drop it
      Out got;
      int vv = 0;
      auto once = [&](auto& fut) {
        auto val_of = [&](auto&& r) { if constexpr (std::is_void_v<typename std::decay_t<decltype(fut)>::value_type>) { *r; return vv; } else return *r; };
        switch (wait) {
          case 0: return observe([&] { if constexpr (std::is_void_v<typename std::decay_t<decltype(fut)>::value_type>) { fut.get(); return vv; } else return fut.get(); });
          case 1:
            while (true) {
              bool have = false;
              Out o = observe([&] {
                auto [r, t] = arpc::select(fut.async_get(), arpc::timeout(ms(sim::pick(OPS, 3))));
                if (!r) { *t; return 0; }
                have = true;
                return (int)val_of(r);
              });
              if (have || o.e) return o;
              sim::probe("timed-out-and-retried");
            }
          case 2:
            while (true) {
              bool have = false;
              Out o = observe([&] {
                try {
                  if constexpr (std::is_void_v<typename std::decay_t<decltype(fut)>::value_type>) { fut.maybe_get(); have = true; return vv; }
                  else { int x = fut.maybe_get(); have = true; return x; }
                } catch (const arpc::errors::try_again&) { return 0; }
              });
              if (have || o.e) return o;
              sim::sleep_us(100);
            }
          default:
            while (true) {
              bool have = false;
              try {
                Scope s(hub);
                Out o = observe([&] { if constexpr (std::is_void_v<typename std::decay_t<decltype(fut)>::value_type>) { fut.get(); have = true; return vv; } else { int x = fut.get(); have = true; return x; } });
                if (have || o.e) return o;
              } catch (const arpc::errors::cancelled&) { sim::probe("cancelled-and-retried"); }
            }
        }
      };
      if (last_void) {
        auto g = f.then([&](int x) { vv = x; });
        got = once(g);
      } else {
        got = once(f);
      }
      SIM_CHECK(got == want, "wrong-outcome", "expected error %d value %d, got error %d value %d", want.e, want.v, got.e, got.v);
      for (size_t i = 0; i < steps.size(); i++)
        SIM_CHECK((*runs)[i] == must[i], "transformation-runs", "step %zu (kind %d) ran %d times instead of %d", i, steps[i].kind, (*runs)[i], must[i]);
    });
    if (wait == 4) crew.add([&] { for (int j = sim::range(OPS, 0, 4); j; j--) { pause(); hub.cancel_one(); } });
    crew.join();
  }
  SIM_CHECK(Tok::live == 0, "outcome-leak", "%d values alive after promise and future are gone", Tok::live);
}

// Outcomes on their way: holders of results against a model, over every move, swap and access.
namespace {
struct Held { int kind = 0; std::string v; bool moved = false; };  // kind 0 empty, 1 value, 2 io error, 3 data error
Held seen(const std::function<std::string()>& f) {
  Held h;
  try { h.v = f(); h.kind = 1; }
  catch (const arpc::errors::io_error& e) { h.kind = 2; h.v = e.what(); }
  catch (const arpc::errors::data_mismatch& e) { h.kind = 3; h.v = e.what(); }
  catch (const arpc::errors::invalid_state& e) {}
  return h;
}
template <typename T>
void look(arpc::result_holder<T>& x, const Held& m) {
  SIM_CHECK(bool(x) == (m.kind != 0) && x.has_value() == (m.kind != 0), "holder", "a holder of kind %d says %d", m.kind, (bool)x);
  for (int way = 0; way < 5; way++) {
    const auto& c = x;
    Held h = seen([&]() -> std::string {
      if constexpr (std::is_void_v<T>) {
        switch (way) { case 0: *x; break; case 1: *c; break; case 2: x.value(); break; case 3: c.value(); break; default: x.value_or(); if (!m.kind) throw arpc::errors::invalid_state("-"); }
        return m.v;
      } else {
        switch (way) { case 0: return *x; case 1: return *c; case 2: return x.value(); case 3: return c->substr(); default: if (!m.kind) { SIM_CHECK(x.value_or("other") == "other", "holder", "value_or of an empty holder"); throw arpc::errors::invalid_state("-"); } return c.value_or("other"); }
      }
    });
    SIM_CHECK(h.kind == m.kind && (h.kind == 0 || h.v == m.v), "holder", "access %d gives kind %d '%s' instead of kind %d '%s'", way, h.kind, h.v.c_str(), m.kind, m.v.c_str());
  }
}
template <typename T>
void hold() {
  using H = arpc::result_holder<T>;
  std::vector<H> x(4);
  std::vector<Held> m(4);
  for (int n = 3 + sim::pick(OPS, 25); n; n--) {
    int a = sim::pick(OPS, 4), b = sim::pick(OPS, 4);
    switch (sim::weighted(OPS, {6, 3, 3, 2, 1, 4})) {
      case 0: {   // something new
        Held h;
        h.kind = 1 + sim::pick(OPS, 3);
        h.v = std::is_void_v<T> && h.kind == 1 ? "" : std::string(sim::pick(OPS, 40), 'a' + sim::pick(OPS, 26));
        std::exception_ptr e = h.kind == 2 ? std::make_exception_ptr(arpc::errors::io_error(h.v)) : h.kind == 3 ? std::make_exception_ptr(arpc::errors::data_mismatch(h.v)) : nullptr;
        if (sim::chance(OPS, 1, 2) && h.kind != 1) x[a] = H(e);
        else {
          x[a].reset();
          if (h.kind != 1) x[a].set_exception(e);
          else if constexpr (std::is_void_v<T>) x[a].set_value();
          else {
            std::string v = h.v;
            switch (sim::pick(OPS, 4)) {
              case 0: x[a].set_value(v); SIM_CHECK(v == h.v, "holder", "set_value() took what it was only shown"); break;
              case 1: x[a].set_value(std::move(v)); break;
              case 2: x[a] = H(v); SIM_CHECK(v == h.v, "holder", "a holder took what it was only shown"); break;
              default: x[a] = H(std::move(v));
            }
          }
        }
        m[a] = h;
        break;
      }
      case 1: if (a != b) { x[a] = std::move(x[b]); m[a] = m[b]; x[b].reset(); m[b] = Held(); } break;
      case 2: if (sim::chance(OPS, 1, 2)) x[a].swap(x[b]); else { using std::swap; swap(x[a], x[b]); } std::swap(m[a], m[b]); break;
      case 3: { H t(std::move(x[a])); look<T>(t, m[a]); x[a] = std::move(t); break; }
      case 4: x[a].reset(); m[a] = Held(); break;
      default: {
        if constexpr (!std::is_void_v<T>) {   // take it out
          Held h = seen([&]() -> std::string { return sim::chance(OPS, 1, 2) ? *std::move(x[a]) : std::move(x[a]).value(); });
          SIM_CHECK(h.kind == m[a].kind && (!h.kind || h.v == m[a].v), "holder", "taken out kind %d instead of %d", h.kind, m[a].kind);
          x[a].reset();
          m[a] = Held();
        }
      }
    }
    for (int k = 0; k < 4; k++) look<T>(x[k], m[k]);
  }
}
}  // namespace
SIM_SCENARIO(A05, holders, 2) {
  if (sim::chance(OPS, 1, 3)) hold<void>();
  else hold<std::string>();
}

// Many futures collected as they complete, by one consumer.
SIM_SCENARIO(A05, gather, 5) {
  local_faults();
  int n = few(1, 6, 150);
  std::vector<std::unique_ptr<arpc::promise<int>>> ps;
  std::vector<arpc::future<int>> fs;
  for (int i = 0; i < n; i++) { ps.push_back(std::make_unique<arpc::promise<int>>()); fs.push_back(ps.back()->get_future()); }
  arpc::promise<void> vp;
  auto vf = vp.get_future();
  std::vector<int> kind(n);
  for (auto& k : kind) k = sim::weighted(OPS, {4, 1, 1});
  sim::sample("futures=%d ", n);
  Crew crew;
  int np = sim::range(OPS, 1, 3);
  for (int w = 0; w < np; w++)
    crew.add([&, w] {
      for (int i = w; i < n; i += np) {
        pause();
        if (kind[i] == 0) ps[i]->set_value(i * 7);
        else if (kind[i] == 1) ps[i]->set_exception(std::make_exception_ptr(arpc::errors::io_error("io")));
        else ps[i].reset();
      }
    });
  bool vdrop = sim::chance(OPS, 1, 2);
  crew.add([&] { pause(); if (vdrop) { arpc::promise<void> gone(std::move(vp)); } else vp.set_value(); });
  std::vector<bool> have(n, false);
  int left = n;
  bool vdone = false;
  while (left || !vdone) {
    std::vector<arpc::awaitable<int>> v;
    std::vector<int> ix;
    for (int i = 0; i < n; i++) if (!have[i]) { v.push_back(fs[i].async_get()); ix.push_back(i); }
    if (vdone) {
      auto [r] = arpc::select(std::move(v));
      for (size_t j = 0; j < ix.size(); j++) if (r[j]) {
        Out o = observe([&] { return *r[j]; });
        SIM_CHECK(o == (kind[ix[j]] == 0 ? Out{NONE, ix[j] * 7} : kind[ix[j]] == 1 ? Out{IO, 0} : Out{BROKEN, 0}), "wrong-outcome", "future %d kind %d: error %d value %d", ix[j], kind[ix[j]], o.e, o.v);
        have[ix[j]] = true; left--;
      }
    } else {
      auto [r, d] = arpc::select(std::move(v), vf.async_get());
      for (size_t j = 0; j < ix.size(); j++) if (r[j]) {
        Out o = observe([&] { return *r[j]; });
        SIM_CHECK(o == (kind[ix[j]] == 0 ? Out{NONE, ix[j] * 7} : kind[ix[j]] == 1 ? Out{IO, 0} : Out{BROKEN, 0}), "wrong-outcome", "future %d kind %d: error %d value %d", ix[j], kind[ix[j]], o.e, o.v);
        have[ix[j]] = true; left--;
      }
      if (d) {
        Out o = observe([&] { *d; return 0; });
        SIM_CHECK(o == (vdrop ? Out{BROKEN, 0} : Out{NONE, 0}), "wrong-outcome", "void future: error %d", o.e);
        vdone = true;
      }
    }
  }
}

// An outcome that is the very error used internally to say "not ready".
SIM_SCENARIO(A05, try_again_outcome, 1) {
  arpc::promise<int> p;
  auto f = p.get_future();
  Crew crew;
  crew.add([&] { pause(); p.set_exception(std::make_exception_ptr(arpc::errors::try_again("busy"))); });
  auto r = outcome([&] {
    auto [v, t] = arpc::select(f.async_get(), arpc::timeout(ms(1000)));
    if (!v) { *t; return false; }
    *v;
    return true;
  });
  if (r == TIMEOUT && sim::known_finding("try-again-outcome")) return;
  SIM_CHECK(r == AGAIN, "wrong-outcome", "the promise was given a try_again error; the future reported outcome %d", r);
}
