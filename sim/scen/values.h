// Random values of every serializable kind of type, and their comparison.
#pragma once
#include <array>
#include <cmath>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <optional>
#include <set>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include "arpc/binary_codecs.h"
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
#include "arpc/result_holder.h"
#include "arpc/serializable.h"
#include "streams.h"

namespace val {
using sim::OPS;

enum class Color : int16_t { red = -2, green = 300, blue = 7 };
enum Plain { p_zero, p_one, p_two = 70000 };

struct Inner { int16_t a; std::string b; };
struct Outer { bool f; Inner in; std::vector<Inner> list; double d; };
struct Empty {};
struct Wide { int8_t a; int16_t b; int32_t c; int64_t d; uint8_t e; uint16_t f; uint32_t g; uint64_t h; float i; double j; bool k; std::string l; };
struct Base1 : arpc::serializable<Base1> { int32_t x = 0; std::string s; ARPC_FIELDS(x, s); };
struct Base2 : arpc::serializable<Base2> { std::vector<uint16_t> v; ARPC_FIELDS(v); };
struct Derived : arpc::serializable<Derived, Base1, Base2> { std::optional<std::string> o; std::map<std::string, int> m; ARPC_FIELDS(o, m); };
struct NoFields : arpc::serializable<NoFields, Base1> {};
struct Custom : arpc::serializable<Custom> {
  std::string a;
  uint64_t b = 0;
  ARPC_CUSTOM_SERIALIZATION_VERSION(3);
  template <typename S> void save(S& s) const { s(b); s(std::string_view(a)); }
  template <typename S> void load(S& s) { s(b); s(a); }
};
struct CustomAndFields : arpc::serializable<CustomAndFields, Base2> {
  int32_t f = 0;
  uint32_t extra = 0;
  ARPC_FIELDS(f);
  ARPC_CUSTOM_SERIALIZATION_VERSION(1);
  template <typename S> void save(S& s) const { s(extra); }
  template <typename S> void load(S& s) { s(extra); }
};
struct Tree : arpc::serializable<Tree> {   // grows by itself: depth is bounded by the generator
  std::unique_ptr<Tree> left, right;
  std::unique_ptr<Inner> leaf;
  ARPC_FIELDS(left, right, leaf);
};

// ---- generation ----------------------------------------------------------
inline size_t count(int depth) { return depth > 1 ? sim::pick(OPS, 3) : sim::chance(OPS, 1, 12) ? sc::size_near_edges(false) : sim::pick(OPS, 5); }

template <typename T> struct gen_impl;
template <typename T> void gen(T& v, int depth = 0) { gen_impl<T>::go(v, depth); }
template <typename T, bool A = std::is_arithmetic_v<T> || std::is_enum_v<T>> struct gen_scalar;
template <typename T> struct gen_scalar<T, true> {
  static void go(T& v, int) {
    if constexpr (std::is_same_v<T, bool>) v = sim::pick(OPS, 2);
    else if constexpr (std::is_enum_v<T>) v = (T)(sim::pick(OPS, 3) * 100);
    else if constexpr (std::is_floating_point_v<T>) {
      static const T e[] = {0, -0.0, 1, -1.5, std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::max(), (T)3.14159265358979};
      v = e[sim::pick(OPS, 9)];
    } else {
      switch (sim::pick(OPS, 4)) {
        case 0: v = (T)sim::pick(OPS, 3); break;
        case 1: v = std::numeric_limits<T>::max() - (T)sim::pick(OPS, 2); break;
        case 2: v = std::numeric_limits<T>::min() + (T)sim::pick(OPS, 2); break;
        default: v = (T)(0x9E3779B97F4A7C15ULL * (1 + sim::pick(OPS, 1 << 16)));
      }
    }
  }
};
template <typename T> struct gen_impl : gen_scalar<T> {};
template <> struct gen_impl<std::string> { static void go(std::string& v, int d) { v = sc::random_bytes(d > 1 ? sim::pick(OPS, 6) : d == 0 && sim::chance(OPS, 1, 40) ? sim::pick(OPS, 20) ? (1 + sim::pick(OPS, 4)) * 65536 - 2 + sim::pick(OPS, 5) : (1 << 21) - 2 + sim::pick(OPS, 4) : sc::size_near_edges(d == 0)); } };
template <> struct gen_impl<std::u16string> { static void go(std::u16string& v, int d) { v.assign(count(d), u'\u20ac'); for (auto& c : v) c ^= (char16_t)sim::pick(OPS, 512); } };
template <typename C> void gen_seq(C& c, int d) {
  c.clear();
  size_t n = count(d);
  if constexpr (std::is_arithmetic_v<typename C::value_type>) {
    // Now and then a lot of them, about as many as make up a block or several of 64 KiB.
    if (d == 0 && sim::chance(OPS, 1, 40)) {
      n = (1 + sim::pick(OPS, 3)) * 65536 / sizeof(typename C::value_type) - 2 + sim::pick(OPS, 5);
      uint64_t x = 0x9E3779B97F4A7C15ULL * (1 + sim::pick(OPS, 1 << 16));
      for (size_t i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; c.push_back((typename C::value_type)(x >> 20)); }
      return;
    }
  } else if (d == 0 && sim::chance(OPS, 1, 150)) {
    n = 65536 / sizeof(typename C::value_type) + sim::pick(OPS, 3) - 1;
    for (size_t i = 0; i < n; i++) c.emplace_back();
    gen(c.back(), 2);
    gen(c.front(), 2);
    return;
  }
  // Long scalar sequences repeat a short drawn prefix with a twist.
  for (size_t i = 0; i < n; i++) { typename C::value_type e{}; gen(e, d + (n > 8 ? 3 : 1)); c.push_back(std::move(e)); }
}
template <typename C> void gen_map(C& c, int d) {
  c.clear();
  size_t n = count(d);
  for (size_t i = 0; i < n; i++) { typename C::key_type k{}; typename C::mapped_type m{}; gen(k, d + 2); gen(m, d + (n > 8 ? 3 : 1)); c.insert(typename C::value_type(std::move(k), std::move(m))); }
}
template <typename C> void gen_set(C& c, int d) {
  c.clear();
  size_t n = count(d);
  for (size_t i = 0; i < n; i++) { typename C::key_type k{}; gen(k, d + 2); c.insert(std::move(k)); }
}
template <typename... A> struct gen_impl<std::vector<A...>> { static void go(std::vector<A...>& v, int d) { gen_seq(v, d); } };
template <> struct gen_impl<std::vector<bool>> { static void go(std::vector<bool>& v, int d) { v.clear(); for (size_t n = count(d); n; n--) v.push_back(sim::pick(OPS, 2)); } };
template <typename... A> struct gen_impl<std::deque<A...>> { static void go(std::deque<A...>& v, int d) { gen_seq(v, d); } };
template <typename... A> struct gen_impl<std::list<A...>> { static void go(std::list<A...>& v, int d) { gen_seq(v, d); } };
template <typename... A> struct gen_impl<std::map<A...>> { static void go(std::map<A...>& v, int d) { gen_map(v, d); } };
template <typename... A> struct gen_impl<std::multimap<A...>> { static void go(std::multimap<A...>& v, int d) { gen_map(v, d); } };
template <typename... A> struct gen_impl<std::unordered_map<A...>> { static void go(std::unordered_map<A...>& v, int d) { gen_map(v, d); } };
template <typename... A> struct gen_impl<arpc::flat_map<A...>> { static void go(arpc::flat_map<A...>& v, int d) { gen_map(v, d); } };
template <typename... A> struct gen_impl<arpc::flat_multimap<A...>> { static void go(arpc::flat_multimap<A...>& v, int d) { gen_map(v, d); } };
template <typename... A> struct gen_impl<std::set<A...>> { static void go(std::set<A...>& v, int d) { gen_set(v, d); } };
template <typename... A> struct gen_impl<std::multiset<A...>> { static void go(std::multiset<A...>& v, int d) { gen_set(v, d); } };
template <typename... A> struct gen_impl<std::unordered_set<A...>> { static void go(std::unordered_set<A...>& v, int d) { gen_set(v, d); } };
template <typename... A> struct gen_impl<arpc::flat_set<A...>> { static void go(arpc::flat_set<A...>& v, int d) { gen_set(v, d); } };
template <typename... A> struct gen_impl<arpc::flat_multiset<A...>> { static void go(arpc::flat_multiset<A...>& v, int d) { gen_set(v, d); } };
template <typename T, size_t N> struct gen_impl<std::array<T, N>> { static void go(std::array<T, N>& v, int d) { for (auto& e : v) gen(e, d + 1); } };
template <typename A, typename B> struct gen_impl<std::pair<A, B>> { static void go(std::pair<A, B>& v, int d) { gen(v.first, d + 1); gen(v.second, d + 1); } };
template <typename... A> struct gen_impl<std::tuple<A...>> { static void go(std::tuple<A...>& v, int d) { std::apply([&](auto&... e) { (gen(e, d + 1), ...); }, v); } };
template <typename T> struct gen_impl<std::optional<T>> { static void go(std::optional<T>& v, int d) { v.reset(); if (sim::pick(OPS, 2)) { v.emplace(); gen(*v, d + 1); } } };
template <typename T> struct gen_impl<std::unique_ptr<T>> { static void go(std::unique_ptr<T>& v, int d) { v.reset(); if (sim::pick(OPS, 2)) { v.reset(new T()); gen(*v, d + 1); } } };
template <typename R, typename P> struct gen_impl<std::chrono::duration<R, P>> { static void go(std::chrono::duration<R, P>& v, int) { R r; gen(r); v = std::chrono::duration<R, P>(r); } };
template <typename C, typename D> struct gen_impl<std::chrono::time_point<C, D>> { static void go(std::chrono::time_point<C, D>& v, int) { D d; gen(d); v = std::chrono::time_point<C, D>(d); } };
template <> struct gen_impl<Inner> { static void go(Inner& v, int d) { gen(v.a, d + 1); gen(v.b, d + 1); } };
template <> struct gen_impl<Empty> { static void go(Empty&, int) {} };
template <> struct gen_impl<Outer> { static void go(Outer& v, int d) { gen(v.f, d + 1); gen(v.in, d + 1); gen(v.list, d + 1); gen(v.d, d + 1); } };
template <> struct gen_impl<Wide> { static void go(Wide& v, int d) { gen(v.a); gen(v.b); gen(v.c); gen(v.d); gen(v.e); gen(v.f); gen(v.g); gen(v.h); gen(v.i); gen(v.j); gen(v.k); gen(v.l, d + 1); } };
template <> struct gen_impl<Base1> { static void go(Base1& v, int d) { gen(v.x); gen(v.s, d + 1); } };
template <> struct gen_impl<Base2> { static void go(Base2& v, int d) { gen(v.v, d + 1); } };
template <> struct gen_impl<NoFields> { static void go(NoFields& v, int d) { gen((Base1&)v, d); } };
template <> struct gen_impl<Derived> { static void go(Derived& v, int d) { gen((Base1&)v, d); gen((Base2&)v, d); gen(v.o, d + 1); gen(v.m, d + 1); } };
template <> struct gen_impl<Custom> { static void go(Custom& v, int d) { gen(v.a, d + 1); gen(v.b); } };
template <> struct gen_impl<CustomAndFields> { static void go(CustomAndFields& v, int d) { gen((Base2&)v, d); gen(v.f); gen(v.extra); } };
template <> struct gen_impl<Tree> {
  static void go(Tree& v, int d) {
    v.left.reset();
    v.right.reset();
    if (d < 6) { gen(v.left, d); gen(v.right, d); }
    gen(v.leaf, d + 1);
  }
};
template <typename T> struct gen_impl<arpc::result_holder<T>> {
  static void go(arpc::result_holder<T>& v, int d) {
    v = arpc::result_holder<T>();
    switch (sim::pick(OPS, 4)) {
      case 0: break;
      case 1: v.set_exception(std::make_exception_ptr(arpc::errors::not_found(sc::random_bytes(sim::pick(OPS, 200)) .c_str()))); break;
      case 2: v.set_exception(std::make_exception_ptr(arpc::errors::out_of_range("too far"))); break;
      default:
        if constexpr (std::is_void_v<T>) v.set_value();
        else { T t{}; gen(t, d + 1); v.set_value(std::move(t)); }
    }
  }
};

// ---- comparison ----------------------------------------------------------
template <typename T> struct same_impl;
template <typename T> bool same(const T& a, const T& b) { return same_impl<T>::go(a, b); }
template <typename T> struct same_impl {
  static bool go(const T& a, const T& b) {
    if constexpr (std::is_floating_point_v<T>) return std::memcmp(&a, &b, sizeof a) == 0;
    else return a == b;
  }
};
template <typename C> bool same_seq(const C& a, const C& b) {
  if (a.size() != b.size()) return false;
  auto i = a.begin();
  auto j = b.begin();
  for (; i != a.end(); ++i, ++j) if (!same<typename C::value_type>(*i, *j)) return false;
  return true;
}
template <typename... A> struct same_impl<std::vector<A...>> { static bool go(const std::vector<A...>& a, const std::vector<A...>& b) { return same_seq(a, b); } };
template <> struct same_impl<std::vector<bool>> { static bool go(const std::vector<bool>& a, const std::vector<bool>& b) { return a == b; } };
template <typename... A> struct same_impl<std::deque<A...>> { static bool go(const std::deque<A...>& a, const std::deque<A...>& b) { return same_seq(a, b); } };
template <typename... A> struct same_impl<std::list<A...>> { static bool go(const std::list<A...>& a, const std::list<A...>& b) { return same_seq(a, b); } };
template <typename... A> struct same_impl<std::map<A...>> { static bool go(const std::map<A...>& a, const std::map<A...>& b) { return same_seq(a, b); } };
template <typename... A> struct same_impl<std::multimap<A...>> { static bool go(const std::multimap<A...>& a, const std::multimap<A...>& b) { return same_seq(a, b); } };
template <typename... A> struct same_impl<arpc::flat_map<A...>> { static bool go(const arpc::flat_map<A...>& a, const arpc::flat_map<A...>& b) { return same_seq(a, b); } };
template <typename... A> struct same_impl<arpc::flat_multimap<A...>> { static bool go(const arpc::flat_multimap<A...>& a, const arpc::flat_multimap<A...>& b) {
  // Equal keys: compare as bags.
  if (a.size() != b.size()) return false;
  std::vector<bool> used(b.size());
  for (auto& x : a) {
    size_t k = 0;
    bool hit = false;
    for (auto& y : b) { if (!used[k] && x.first == y.first && same(x.second, y.second)) { used[k] = hit = true; break; } ++k; }
    if (!hit) return false;
  }
  return true;
} };
template <typename... A> struct same_impl<arpc::flat_set<A...>> { static bool go(const arpc::flat_set<A...>& a, const arpc::flat_set<A...>& b) { return same_seq(a, b); } };
template <typename... A> struct same_impl<arpc::flat_multiset<A...>> { static bool go(const arpc::flat_multiset<A...>& a, const arpc::flat_multiset<A...>& b) { return same_seq(a, b); } };
template <typename T, size_t N> struct same_impl<std::array<T, N>> { static bool go(const std::array<T, N>& a, const std::array<T, N>& b) { for (size_t i = 0; i < N; i++) if (!same(a[i], b[i])) return false; return true; } };
template <typename A, typename B> struct same_impl<std::pair<A, B>> { static bool go(const std::pair<A, B>& a, const std::pair<A, B>& b) { return a.first == b.first && same<B>(a.second, b.second); } };
template <typename... A> struct same_impl<std::tuple<A...>> {
  template <size_t... I> static bool all(const std::tuple<A...>& a, const std::tuple<A...>& b, std::index_sequence<I...>) { return (same(std::get<I>(a), std::get<I>(b)) && ...); }
  static bool go(const std::tuple<A...>& a, const std::tuple<A...>& b) { return all(a, b, std::index_sequence_for<A...>()); }
};
template <typename T> struct same_impl<std::optional<T>> { static bool go(const std::optional<T>& a, const std::optional<T>& b) { return a.has_value() == b.has_value() && (!a || same(*a, *b)); } };
template <typename T> struct same_impl<std::unique_ptr<T>> { static bool go(const std::unique_ptr<T>& a, const std::unique_ptr<T>& b) { return !a == !b && (!a || same(*a, *b)); } };
template <> struct same_impl<Inner> { static bool go(const Inner& a, const Inner& b) { return a.a == b.a && a.b == b.b; } };
template <> struct same_impl<Empty> { static bool go(const Empty&, const Empty&) { return true; } };
template <> struct same_impl<Outer> { static bool go(const Outer& a, const Outer& b) { return a.f == b.f && same(a.in, b.in) && same(a.list, b.list) && same(a.d, b.d); } };
template <> struct same_impl<Wide> { static bool go(const Wide& a, const Wide& b) { return a.a == b.a && a.b == b.b && a.c == b.c && a.d == b.d && a.e == b.e && a.f == b.f && a.g == b.g && a.h == b.h && same(a.i, b.i) && same(a.j, b.j) && a.k == b.k && a.l == b.l; } };
template <> struct same_impl<Base1> { static bool go(const Base1& a, const Base1& b) { return a.x == b.x && a.s == b.s; } };
template <> struct same_impl<Base2> { static bool go(const Base2& a, const Base2& b) { return a.v == b.v; } };
template <> struct same_impl<NoFields> { static bool go(const NoFields& a, const NoFields& b) { return same((const Base1&)a, (const Base1&)b); } };
template <> struct same_impl<Derived> { static bool go(const Derived& a, const Derived& b) { return same((const Base1&)a, (const Base1&)b) && same((const Base2&)a, (const Base2&)b) && a.o == b.o && a.m == b.m; } };
template <> struct same_impl<Custom> { static bool go(const Custom& a, const Custom& b) { return a.a == b.a && a.b == b.b; } };
template <> struct same_impl<CustomAndFields> { static bool go(const CustomAndFields& a, const CustomAndFields& b) { return same((const Base2&)a, (const Base2&)b) && a.f == b.f && a.extra == b.extra; } };
template <> struct same_impl<Tree> { static bool go(const Tree& a, const Tree& b) { return same(a.left, b.left) && same(a.right, b.right) && same(a.leaf, b.leaf); } };
template <typename T> std::string holder_text(const arpc::result_holder<T>& h) {
  if (!h.has_value()) return "empty";
  try {
    *h;
    return "value";
  } catch (const arpc::errors::base_error& e) {
    return std::string(e.portable_error_class_name()) + ":" + e.what();
  }
}
template <typename T> struct same_impl<arpc::result_holder<T>> {
  static bool go(const arpc::result_holder<T>& a, const arpc::result_holder<T>& b) {
    std::string t = holder_text(a);
    if (t != holder_text(b)) return false;
    if constexpr (!std::is_void_v<T>) if (t == "value") return same(*a, *b);
    return true;
  }
};

// Every type the scenarios exercise.
template <typename F>
void each_type(F f) {
  using namespace std;
  f.template operator()<bool>("bool");
  f.template operator()<char>("char");
  f.template operator()<int8_t>("int8");
  f.template operator()<uint16_t>("uint16");
  f.template operator()<int32_t>("int32");
  f.template operator()<uint64_t>("uint64");
  f.template operator()<float>("float");
  f.template operator()<double>("double");
  f.template operator()<int64_t>("int64");
  f.template operator()<long double>("long double");
  f.template operator()<char16_t>("char16");
  f.template operator()<char32_t>("char32");
  f.template operator()<wchar_t>("wchar");
  f.template operator()<vector<char>>("vector<char>");
  f.template operator()<array<bool, 9>>("array<bool,9>");
  f.template operator()<vector<tuple<int8_t, bool>>>("vector<tuple>");
  f.template operator()<map<string, map<int, string>>>("map of maps");
  f.template operator()<optional<vector<unique_ptr<string>>>>("optional<vector<unique_ptr>>");
  f.template operator()<Color>("enum class");
  f.template operator()<Plain>("enum");
  f.template operator()<string>("string");
  f.template operator()<u16string>("u16string");
  f.template operator()<vector<uint8_t>>("vector<uint8>");
  f.template operator()<vector<int32_t>>("vector<int32>");
  f.template operator()<vector<double>>("vector<double>");
  f.template operator()<vector<Color>>("vector<enum>");
  f.template operator()<vector<bool>>("vector<bool>");
  f.template operator()<vector<string>>("vector<string>");
  f.template operator()<vector<vector<int16_t>>>("vector<vector<int16>>");
  f.template operator()<vector<vector<bool>>>("vector<vector<bool>>");
  f.template operator()<deque<string>>("deque<string>");
  f.template operator()<deque<int32_t>>("deque<int32>");
  f.template operator()<list<uint16_t>>("list<uint16>");
  f.template operator()<set<string>>("set<string>");
  f.template operator()<multiset<int>>("multiset<int>");
  f.template operator()<unordered_set<string>>("unordered_set<string>");
  f.template operator()<map<string, int>>("map<string,int>");
  f.template operator()<map<int, vector<string>>>("map<int,vector<string>>");
  f.template operator()<multimap<int, string>>("multimap<int,string>");
  f.template operator()<unordered_map<int, string>>("unordered_map<int,string>");
  f.template operator()<arpc::flat_map<string, int>>("flat_map<string,int>");
  f.template operator()<arpc::flat_map<int, vector<string>>>("flat_map<int,vector<string>>");
  f.template operator()<arpc::flat_set<string>>("flat_set<string>");
  f.template operator()<arpc::flat_multiset<int>>("flat_multiset<int>");
  f.template operator()<arpc::flat_multimap<int, string>>("flat_multimap<int,string>");
  f.template operator()<array<int, 5>>("array<int,5>");
  f.template operator()<array<string, 3>>("array<string,3>");
  f.template operator()<pair<int, string>>("pair<int,string>");
  f.template operator()<tuple<int8_t, string, double, bool>>("tuple<int8,string,double,bool>");
  f.template operator()<tuple<>>("tuple<>");
  f.template operator()<Inner>("aggregate");
  f.template operator()<Outer>("nested aggregate");
  f.template operator()<Wide>("wide aggregate");
  f.template operator()<Empty>("empty aggregate");
  f.template operator()<vector<Outer>>("vector<aggregate>");
  f.template operator()<optional<string>>("optional<string>");
  f.template operator()<optional<optional<int>>>("optional<optional<int>>");
  f.template operator()<vector<optional<int>>>("vector<optional<int>>");
  f.template operator()<unique_ptr<string>>("unique_ptr<string>");
  f.template operator()<vector<unique_ptr<Inner>>>("vector<unique_ptr<aggregate>>");
  f.template operator()<chrono::milliseconds>("milliseconds");
  f.template operator()<chrono::duration<int32_t, ratio<60>>>("minutes");
  f.template operator()<chrono::system_clock::time_point>("time_point");
  f.template operator()<Base1>("fields");
  f.template operator()<Derived>("fields and bases");
  f.template operator()<NoFields>("base only");
  f.template operator()<Custom>("custom");
  f.template operator()<CustomAndFields>("custom and fields");
  f.template operator()<vector<Derived>>("vector<fields and bases>");
  f.template operator()<Tree>("tree");
  f.template operator()<arpc::result_holder<string>>("result_holder<string>");
  f.template operator()<arpc::result_holder<void>>("result_holder<void>");
  f.template operator()<map<string, vector<pair<int, optional<string>>>>>("map<string,vector<pair<int,optional<string>>>>");
}
}  // namespace val
