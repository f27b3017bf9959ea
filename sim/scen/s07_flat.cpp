#include "common.h"
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
#include <map>
#include <set>
#include <algorithm>
using namespace sc;
using sim::OPS;
using sim::CFG;
using sim::FAULT;

namespace {
int g_serial = 0;
uint32_t g_range = 12;

// Elements whose order looks only at a part of them, so that it shows which of
// several equivalent elements is where.
struct Rec {
  int k = 0, serial = 0;
  std::string pad;
};
struct By {
  int mode = 0;
  int key(int v) const { return mode == 1 ? -v : mode == 2 ? v % 5 : v; }
  bool operator()(const Rec& a, const Rec& b) const { return key(a.k) < key(b.k); }
  bool operator()(int a, int b) const { return key(a) < key(b); }
  bool operator()(const std::string& a, const std::string& b) const {
    if (mode == 1) return b < a;
    if (mode == 2) return a.back() < b.back();
    return a < b;
  }
};

// Generation, copying and comparison, per type.
void make(int& v) { v = (int)sim::pick(OPS, g_range); }
void make(std::string& s) {
  // Long enough for an allocation, mostly.
  s = std::string(sim::pick(OPS, 3) ? 20 : 2, 'x') + std::to_string(sim::pick(OPS, g_range));
}
void make(Rec& r) {
  r.k = (int)sim::pick(OPS, g_range);
  r.serial = ++g_serial;
  r.pad = sim::pick(OPS, 2) ? std::string(24, 'p') : "";
}
void make(std::unique_ptr<int>& p) { p = std::make_unique<int>(++g_serial); }
template <typename A, typename B> void make(std::pair<A, B>& p) { make(const_cast<std::remove_const_t<A>&>(p.first)); make(p.second); }

int dup(const int& v) { return v; }
std::string dup(const std::string& v) { return v; }
Rec dup(const Rec& v) { return v; }
std::unique_ptr<int> dup(const std::unique_ptr<int>& p) { return p ? std::make_unique<int>(*p) : nullptr; }
template <typename A, typename B> std::pair<std::remove_const_t<A>, B> dup(const std::pair<A, B>& p) { return {dup(p.first), dup(p.second)}; }

bool same(const int& a, const int& b) { return a == b; }
bool same(const std::string& a, const std::string& b) { return a == b; }
bool same(const Rec& a, const Rec& b) { return a.k == b.k && a.serial == b.serial && a.pad == b.pad; }
bool same(const std::unique_ptr<int>& a, const std::unique_ptr<int>& b) { return !a == !b && (!a || *a == *b); }
template <typename A, typename B, typename C, typename D> bool same(const std::pair<A, B>& a, const std::pair<C, D>& b) { return same(a.first, b.first) && same(a.second, b.second); }

std::string str(const int& v) { return std::to_string(v); }
std::string str(const std::string& v) { return v.substr(0, 1) + (v.size() > 4 ? "_" : "") + v.substr(v.find_first_not_of('x') == std::string::npos ? 0 : v.find_first_not_of('x')); }
std::string str(const Rec& v) { return std::to_string(v.k) + "#" + std::to_string(v.serial); }
std::string str(const std::unique_ptr<int>& v) { return v ? std::to_string(*v) : "null"; }
template <typename A, typename B> std::string str(const std::pair<A, B>& p) { return str(p.first) + ":" + str(p.second); }
template <typename C> std::string show(const C& c) {
  std::string s;
  for (auto& x : c) { s += s.empty() ? "" : " "; s += str(x); if (s.size() > 160) return s + " ..."; }
  return "{" + s + "}";
}

template <typename K> const K& key_of(const K& v) { return v; }
template <typename A, typename B> const A& key_of(const std::pair<A, B>& v) { return v.first; }

template <typename F, typename M, bool is_multi, bool is_map, bool copyable>
struct Test {
  using V = typename F::value_type;
  using K = typename F::key_type;
  F f[2];
  M m[2];
  uint32_t copies_failed = 0;

  Test(By a, By b) : f{F(a), F(b)}, m{M(a), M(b)} {}

  void check(int i, const char* op) {
    if constexpr (is_multi) align(i, op);
    const F& x = f[i];
    const M& y = m[i];
    SIM_CHECK(x.size() == y.size() && x.empty() == y.empty(), "wrong-size", "%s: %zu elements instead of %zu: %s instead of %s", op, x.size(), y.size(), show(x).c_str(), show(y).c_str());
    auto it = x.begin();
    for (auto& e : y) {
      SIM_CHECK(it != x.end() && same(*it, e), "wrong-contents", "%s: %s instead of %s", op, show(x).c_str(), show(y).c_str());
      ++it;
    }
    SIM_CHECK(it == x.end(), "wrong-contents", "%s: too many elements", op);
    if (sim::chance(OPS, 1, 4)) {
      auto r = x.crbegin();
      for (auto q = y.rbegin(); q != y.rend(); ++q, ++r) SIM_CHECK(same(*r, *q), "wrong-contents", "%s: backwards it reads differently", op);
      SIM_CHECK(r == x.crend(), "wrong-contents", "%s: backwards it reads differently", op);
    }
    SIM_CHECK(x.key_comp().mode == y.key_comp().mode && x.value_comp().comp_.mode == y.key_comp().mode, "wrong-order", "%s: ordered by rule %d instead of %d", op, x.key_comp().mode, y.key_comp().mode);
  }
  // The order of equivalent elements is up to the container, as long as the
  // elements are the right ones: puts those of the model in the same order.
  void align(int i, const char* op) {
    valid(i, op);
    M& y = m[i];
    M z(y.key_comp());
    for (auto& e : f[i]) {
      auto r = y.equal_range(key_of(e));
      auto it = r.first;
      while (it != r.second && !same(*it, e)) ++it;
      SIM_CHECK(it != r.second, "wrong-contents", "%s: %s instead of %s", op, show(f[i]).c_str(), show(y).c_str());
      z.insert(z.end(), dup(e));
      y.erase(it);
    }
    SIM_CHECK(y.empty(), "wrong-contents", "%s: lost %s", op, show(y).c_str());
    y.swap(z);
  }
  // After an operation failed half way, whatever is there has to be in order.
  void valid(int i, const char* op) {
    const F& x = f[i];
    By by = x.key_comp();
    const V* last = nullptr;
    for (auto& e : x) {
      if (last)
        SIM_CHECK(is_multi ? !by(key_of(e), key_of(*last)) : by(key_of(*last), key_of(e)), "out-of-order", "%s left %s behind (rule %d)", op, show(x).c_str(), by.mode);
      last = &e;
    }
  }
  void resync(int i) {
    m[i] = M(f[i].key_comp());
    for (auto& e : f[i]) m[i].insert(m[i].end(), dup(e));
  }
  static std::vector<V> some(uint32_t most) {
    std::vector<V> v(sim::pick(OPS, most));
    for (auto& e : v) make(e);
    return v;
  }
  // Runs something that may fail for lack of memory; returns false if it did.
  template <typename Fn> bool attempt(Fn fn) {
    bool faulty = sim::chance(FAULT, 1, 6);
    if (faulty) sim::alloc_fail(sim::pick(FAULT, 12));
    try {
      fn();
    } catch (const std::bad_alloc&) {
      SIM_CHECK(faulty, "wrong-error", "out of memory although there is plenty");
      sim::alloc_fail(-1);
      return false;
    }
    sim::alloc_fail(-1);
    return true;
  }
  // An operation that has no effect if it fails.
  template <typename A, typename B> void atomic(const char* op, int i, A a, B b) {
    if (attempt(a)) b();
    else { sim::probe("atomic-failed"); valid(i, op); }
    check(i, op);
  }
  // One that may have some effect.
  template <typename A, typename B> void basic(const char* op, int i, A a, B b) {
    if (attempt(a)) { b(); check(i, op); }
    else { sim::probe("basic-failed"); valid(i, op); resync(i); }
  }
  template <typename R, typename S> void landed(const char* op, int i, const R& r, const S& s) {
    if constexpr (is_multi) {
      SIM_CHECK(r >= f[i].begin() && r < f[i].end() && same(*r, *s), "wrong-result", "%s returned the wrong position", op);
    } else {
      SIM_CHECK(r.second == s.second, "wrong-result", "%s said %d instead of %d", op, r.second, s.second);
      SIM_CHECK(r.first - f[i].begin() == std::distance(m[i].begin(), s.first), "wrong-result", "%s returned the wrong position", op);
    }
  }
  auto m_it(int i, size_t n) { auto it = m[i].begin(); std::advance(it, n); return it; }
  size_t m_at(int i, typename M::const_iterator it) { return std::distance(typename M::const_iterator(m[i].begin()), it); }
  size_t hint(int i, const K& k) { return sim::pick(OPS, (uint32_t)m[i].size() + 1); }

  void step() {
    int i = sim::pick(OPS, 2), j = 1 - i;
    F& x = f[i];
    M& y = m[i];
    V v;
    make(v);
    K k;
    make(k);
    // Often use a key that is there.
    if (!y.empty() && sim::pick(OPS, 2)) {
      auto it = y.begin();
      std::advance(it, sim::pick(OPS, (uint32_t)y.size()));
      k = key_of(*it);
    }
    switch (sim::pick(OPS, 24)) {
      case 0: case 1: case 2:
        if constexpr (copyable) {
          using R = decltype(x.insert(v));
          std::optional<R> r;
          bool ok = attempt([&] { r.emplace(x.insert(std::as_const(v))); });
          if (ok) { auto s = y.insert(v); landed("insert a copy", i, *r, s); }
          else { sim::probe("atomic-failed"); valid(i, "insert a copy"); }
          check(i, "insert a copy");
          break;
        }
        [[fallthrough]];
      case 3: case 4: {
        V w = dup(v);
        using R = decltype(x.insert(std::move(v)));
        std::optional<R> r;
        bool ok = attempt([&] { r.emplace(x.insert(std::move(w))); });
        if (ok) { auto s = y.insert(dup(v)); landed("insert", i, *r, s); }
        else { sim::probe("atomic-failed"); valid(i, "insert"); }
        check(i, "insert");
        break;
      }
      case 5: {
        size_t h = hint(i, key_of(v));
        size_t at = 0;
        V w = dup(v);
        if (copyable && sim::pick(OPS, 2)) {
          if constexpr (copyable) atomic("insert a copy with a hint", i, [&] { auto it = x.insert(x.begin() + h, std::as_const(w)); at = it - x.begin(); }, [&] { size_t e = m_at(i, y.insert(m_it(i, h), dup(v))); SIM_CHECK(is_multi ? at < x.size() && same(x.data()[at], v) : at == e, "wrong-result", "insert with a hint returned position %zu instead of %zu", at, e); });
        } else
          atomic("insert with a hint", i, [&] { auto it = x.insert(x.begin() + h, std::move(w)); at = it - x.begin(); }, [&] { size_t e = m_at(i, y.insert(m_it(i, h), dup(v))); SIM_CHECK(is_multi ? at < x.size() && same(x.data()[at], v) : at == e, "wrong-result", "insert with a hint returned position %zu instead of %zu", at, e); });
        break;
      }
      case 6: {
        size_t h = hint(i, key_of(v));
        size_t at = 0;
        V w = dup(v);
        atomic("emplace with a hint", i, [&] { auto it = x.emplace_hint(x.cbegin() + h, std::move(w)); at = it - x.begin(); }, [&] { size_t e = m_at(i, y.emplace_hint(m_it(i, h), dup(v))); SIM_CHECK(is_multi ? at < x.size() && same(x.data()[at], v) : at == e, "wrong-result", "emplace_hint returned position %zu instead of %zu", at, e); });
        break;
      }
      case 7: {
        using R = decltype(x.emplace(std::move(v)));
        std::optional<R> r;
        V w = dup(v);
        bool ok = attempt([&] {
          if constexpr (is_map) r.emplace(x.emplace(std::move(w.first), std::move(w.second)));
          else r.emplace(x.emplace(std::move(w)));
        });
        if (ok) { auto s = y.emplace(dup(v)); landed("emplace", i, *r, s); }
        else valid(i, "emplace");
        check(i, "emplace");
        break;
      }
      case 8:
        if constexpr (copyable) {
          auto vs = some(sim::pick(OPS, 4) ? 6 : 40);
          basic("insert a range", i, [&] { x.insert(vs.begin(), vs.end()); }, [&] { y.insert(vs.begin(), vs.end()); });
        }
        break;
      case 9:
        if constexpr (copyable) {
          V a, b, c;
          make(a), make(b), make(c);
          if (sim::pick(OPS, 2)) basic("insert a list", i, [&] { x.insert({v, a, b, c}); }, [&] { y.insert({v, a, b, c}); });
          else basic("assign a list", i, [&] { x = {v, a, b, c}; }, [&] { y = {v, a, b, c}; });
        }
        break;
      case 10: {
        if (y.empty()) break;
        size_t n = sim::pick(OPS, (uint32_t)y.size());
        auto r = sim::pick(OPS, 2) ? x.erase(x.begin() + n) : x.erase(x.cbegin() + n);
        y.erase(m_it(i, n));
        SIM_CHECK(r - x.begin() == (long)n, "wrong-result", "erase returned the wrong position");
        check(i, "erase a position");
        break;
      }
      case 11: {
        size_t a = sim::pick(OPS, (uint32_t)y.size() + 1), b = a + sim::pick(OPS, (uint32_t)std::min<size_t>(y.size() - a, 4) + 1);
        auto r = x.erase(x.begin() + a, x.begin() + b);
        y.erase(m_it(i, a), m_it(i, b));
        SIM_CHECK(r - x.begin() == (long)a, "wrong-result", "erase returned the wrong position");
        check(i, "erase a range");
        break;
      }
      case 12: case 13: {
        size_t a = x.erase(k), b = y.erase(k);
        SIM_CHECK(a == b, "wrong-result", "erasing %s removed %zu elements instead of %zu", str(k).c_str(), a, b);
        check(i, "erase a key");
        break;
      }
      case 14:
        if constexpr (is_map && !is_multi) {
          using T = typename F::mapped_type;
          bool moved = sim::pick(OPS, 2);
          K kk = dup(k);
          T* t = nullptr;
          if (attempt([&] { t = moved ? &x[std::move(kk)] : &x[std::as_const(kk)]; })) {
            auto& u = y[dup(k)];
            SIM_CHECK(same(*t, u), "wrong-result", "[%s] is %s instead of %s", str(k).c_str(), str(*t).c_str(), str(u).c_str());
            *t = dup(v.second);
            u = dup(v.second);
          } else valid(i, "operator[]");
          check(i, "operator[]");
          bool threw = false;
          try {
            auto& t = sim::pick(OPS, 2) ? x.at(key_of(v)) : const_cast<typename F::mapped_type&>(std::as_const(x).at(key_of(v)));
            auto it = y.find(key_of(v));
            SIM_CHECK(it != y.end() && same(it->second, t), "wrong-result", "at(%s) is wrong", str(key_of(v)).c_str());
          } catch (const std::out_of_range&) { threw = true; }
          SIM_CHECK(threw == !y.count(key_of(v)), "wrong-result", "at(%s) did %sthrow", str(key_of(v)).c_str(), threw ? "" : "not ");
        }
        break;
      case 15:
        if (sim::chance(OPS, 1, 4)) { x.clear(); y.clear(); check(i, "clear"); }
        break;
      case 16:
        if (sim::pick(OPS, 3) == 0) {
          if (sim::pick(OPS, 2)) atomic("reserve", i, [&] { x.reserve(sim::pick(OPS, 40)); }, [] {});
          else { auto d = attempt([&] { x.shrink_to_fit(); }); (void)d; check(i, "shrink_to_fit"); }
        } else {
          f[0].swap(f[1]);
          m[0].swap(m[1]);
          check(0, "swap");
          check(1, "swap");
        }
        break;
      case 17:
        if constexpr (copyable) {
          basic("copy assignment", i, [&] { x = std::as_const(f[j]); }, [&] { y = std::as_const(m[j]); });
          check(j, "being copied from");
        }
        break;
      case 18: {
        // A container that was moved from holds something, nobody knows what.
        const void* data = f[j].data();
        size_t n = f[j].size();
        x = std::move(f[j]);
        y = std::move(m[j]);
        SIM_CHECK(!n || x.data() == data, "moved-elements", "moving a container moved its elements");
        check(i, "move assignment");
        valid(j, "being moved from");
        resync(j);
        break;
      }
      case 19:
        if constexpr (copyable) {
          std::optional<F> c;
          if (attempt([&] { if (sim::pick(OPS, 3)) c.emplace(std::as_const(x)); else c.emplace(std::as_const(x), typename F::allocator_type()); })) {
            x.clear();
            f[j].swap(*c);
            { M c(y); y.clear(); m[j].swap(c); }
            check(j, "copy construction");
          }
          check(i, "being copied from");
        }
        break;
      case 20: {
        const void* data = x.data();
        size_t n = x.size();
        if (sim::pick(OPS, 2)) {
          F c(std::move(x));
          SIM_CHECK(!n || c.data() == data, "moved-elements", "moving a container moved its elements");
          valid(i, "being moved from");
          f[j].swap(c);
        } else {
          F c(std::move(x), typename F::allocator_type());
          SIM_CHECK(!n || c.data() == data, "moved-elements", "moving a container moved its elements");
          f[j].swap(c);
        }
        { M c(std::move(y)); m[j].swap(c); }
        check(j, "move construction");
        resync(i);
        check(i, "being moved from");
        break;
      }
      case 21:
        if constexpr (copyable) {
          auto vs = some(sim::pick(OPS, 3) ? 8 : 60);
          By by{(int)sim::pick(OPS, 3)};
          std::optional<F> c;
          if (attempt([&] { c.emplace(vs.begin(), vs.end(), by); })) {
            M d(vs.begin(), vs.end(), by);
            f[i].swap(*c);
            m[i].swap(d);
          }
          check(i, "construction from a range");
          if (sim::pick(OPS, 3) == 0) {
            V a, b;
            make(a), make(b);
            F g({v, a, b}, by);
            M h({v, a, b}, by);
            f[i].swap(g);
            m[i].swap(h);
            check(i, "construction from a list");
          }
        }
        break;
      default: {
        const F& cx = x;
        const M& cy = y;
        size_t a, b = m_at(i, cy.find(k));
        bool c = sim::pick(OPS, 2);
        // find() may return any of several equivalent elements.
        a = c ? cx.find(k) - cx.begin() : x.find(k) - x.begin();
        if (is_multi && b != y.size()) SIM_CHECK(a < x.size() && !cx.key_comp()(key_of(x.data()[a]), k) && !cx.key_comp()(k, key_of(x.data()[a])), "wrong-result", "find(%s) found something else", str(k).c_str());
        else SIM_CHECK(a == b, "wrong-result", "find(%s) is %zu instead of %zu", str(k).c_str(), a, b);
        a = c ? cx.lower_bound(k) - cx.begin() : x.lower_bound(k) - x.begin();
        b = m_at(i, cy.lower_bound(k));
        SIM_CHECK(a == b, "wrong-result", "lower_bound(%s) is %zu instead of %zu", str(k).c_str(), a, b);
        a = c ? cx.upper_bound(k) - cx.begin() : x.upper_bound(k) - x.begin();
        b = m_at(i, cy.upper_bound(k));
        SIM_CHECK(a == b, "wrong-result", "upper_bound(%s) is %zu instead of %zu", str(k).c_str(), a, b);
        a = c ? cx.equal_range(k).second - cx.equal_range(k).first : x.equal_range(k).second - x.equal_range(k).first;
        SIM_CHECK(a == cy.count(k) && cx.count(k) == a, "wrong-result", "%zu elements for %s instead of %zu", a, str(k).c_str(), cy.count(k));
        check(i, "lookup");
      }
    }
  }
  static void run() {
    auto before = sim::heap_stats();
    {
      By a{(int)sim::pick(CFG, 3)}, b{(int)sim::pick(CFG, 3)};
      Test t(a, b);
      uint32_t n = sim::range(OPS, 1, 60);
      for (uint32_t k = 0; k < n; k++) t.step();
      t.check(0, "the end");
      t.check(1, "the end");
      sim::sample("%u operations, %zu and %zu elements in the end", n, t.f[0].size(), t.f[1].size());
    }
    auto after = sim::heap_stats();
    SIM_CHECK(after.blocks == before.blocks, "leak", "%lld blocks of memory are left over", (long long)(after.blocks - before.blocks));
  }
};
void config() {
  g_serial = 0;
  g_range = sim::pick(CFG, 3) == 0 ? 60 : sim::range(CFG, 2, 16);
}
}  // namespace

SIM_SCENARIO(S07, set, 10) {
  config();
  if (sim::pick(CFG, 2)) Test<arpc::flat_set<std::string, By>, std::set<std::string, By>, false, false, true>::run();
  else Test<arpc::flat_set<Rec, By>, std::set<Rec, By>, false, false, true>::run();
}
SIM_SCENARIO(S07, multiset, 10) {
  config();
  Test<arpc::flat_multiset<Rec, By>, std::multiset<Rec, By>, true, false, true>::run();
}
SIM_SCENARIO(S07, map, 10) {
  config();
  switch (sim::pick(CFG, 3)) {
    case 0: Test<arpc::flat_map<std::string, std::string, By>, std::map<std::string, std::string, By>, false, true, true>::run(); break;
    case 1: Test<arpc::flat_map<Rec, std::unique_ptr<int>, By>, std::map<Rec, std::unique_ptr<int>, By>, false, true, false>::run(); break;
    default: Test<arpc::flat_map<int, Rec, By>, std::map<int, Rec, By>, false, true, true>::run();
  }
}
SIM_SCENARIO(S07, multimap, 10) {
  config();
  if (sim::pick(CFG, 2)) Test<arpc::flat_multimap<int, std::string, By>, std::multimap<int, std::string, By>, true, true, true>::run();
  else Test<arpc::flat_multimap<Rec, Rec, By>, std::multimap<Rec, Rec, By>, true, true, true>::run();
}
