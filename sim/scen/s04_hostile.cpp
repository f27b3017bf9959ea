#include "arpc/packet_codecs.h"
#include "arpc/packet_protocols.h"
#include "graph.h"
using namespace sc;
using namespace val;
using namespace graph;

namespace {
// Damage to an encoding, from single bits to lengths that claim the universe.
void mutate(std::string& s) {
  static const char* lens[] = {"\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01", "\xff\xff\xff\xff\xff\xff\xff\xff\x7f", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f",
                               "\xff\xff\xff\xff\x0f", "\x80\x80\x80\x80\x08", "\xff\xff\x7f", "\x80\x01", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01", "\x80\x80\x80\x80\x80\x80\x80\x80\x80\x02"};
  for (uint32_t n = sim::range(FAULT, 1, 3); n; n--) {
    sim::count_fault(sim::F_CORRUPT);
    size_t at = s.empty() ? 0 : sim::chance(FAULT, 1, 3) ? sim::pick(FAULT, (uint32_t)std::min<size_t>(s.size(), 6)) : sim::pick(FAULT, (uint32_t)s.size());
    switch (s.empty() ? 3 : sim::pick(FAULT, 8)) {
      case 0: s[at] ^= (char)(1 << sim::pick(FAULT, 8)); break;
      case 1: s[at] = (char)sim::pick(FAULT, 256); break;
      case 2: s.erase(at, 1 + sim::pick(FAULT, 4)); break;
      case 3: { std::string x; for (uint32_t k = 1 + sim::pick(FAULT, 4); k; k--) x.push_back((char)sim::pick(FAULT, 256)); s.insert(at, x); break; }
      case 4: s.resize(at); break;
      case 5: s.replace(at, 1, lens[sim::pick(FAULT, 9)]); break;
      case 6: s.insert(at, lens[sim::pick(FAULT, 9)]); break;
      default: { size_t from = sim::pick(FAULT, (uint32_t)s.size()); s.insert(at, s.substr(from, 1 + sim::pick(FAULT, 12))); }
    }
  }
}
enum Fate { VALUE, ERROR };
// Runs one decode of hostile bytes and judges everything but the value.
template <typename F>
Fate guarded(const char* what, size_t input, bool may_cycle, F decode) {
  auto before = sim::heap_stats();
  sim::heap_reset_peak();
  Fate fate = VALUE;
  try {
    decode();
  } catch (const std::bad_alloc&) {
    sim::fail("unbounded-allocation", "%zu bytes of input made decoding %s run out of memory", input, what);
  } catch (const std::exception& e) {
    fate = ERROR;
    sim::note("%s rejected: %s", what, e.what());
  } catch (...) {
    sim::fail("wrong-error", "decoding %s threw something that is not an exception", what);
  }
  auto after = sim::heap_stats();
  uint64_t used = after.peak - before.bytes;
  SIM_CHECK(used <= (1 << 20) + 2000 * input, "unbounded-allocation", "%zu bytes of input made decoding %s take %llu bytes of memory", input, what, (unsigned long long)used);
  if (!may_cycle)
    SIM_CHECK(after.blocks == before.blocks, "leak", "decoding %s left %lld heap blocks behind (%s)", what, (long long)(after.blocks - before.blocks), fate == VALUE ? "value" : "error");
  sim::probe(fate == VALUE ? "decoded-anyway" : "rejected");
  return fate;
}
// No boolean that is neither true nor false.
bool proper(const bool& b) { unsigned char c; memcpy(&c, &b, 1); return c < 2; }
template <size_t N> bool proper(const std::array<bool, N>& a) { return std::all_of(a.begin(), a.end(), [](const bool& b) { return proper(b); }); }
bool proper(const Outer& o) { return proper(o.f); }
bool proper(const Wide& w) { return proper(w.k); }
bool proper(const std::vector<Outer>& v) { return std::all_of(v.begin(), v.end(), [](auto& o) { return proper(o); }); }
bool proper(const std::vector<std::tuple<int8_t, bool>>& v) { return std::all_of(v.begin(), v.end(), [](auto& t) { return proper(std::get<1>(t)); }); }
bool proper(const std::tuple<int8_t, std::string, double, bool>& t) { return proper(std::get<3>(t)); }
template <typename T> bool proper(const T&) { return true; }

template <typename T, typename E, typename D>
void try_type(const char* name, bool may_cycle = false, std::string valid = "") {
  if (valid.empty()) {
    T v{};
    gen(v, 1);
    arpc::string_output_stream out(valid);
    E e(out);
    e(v);
  }
  if (valid.size() > 3000) valid.resize(3000);
  {
    // Everything that is set up once, is.
    arpc::string_input_stream in(valid);
    D d(in);
    T r{};
    try { d(r); } catch (const std::exception&) {}
    try { throw arpc::errors::data_mismatch("warm"); } catch (const std::exception&) {}
  }
  std::string bytes = valid;
  if (sim::chance(FAULT, 1, 8)) { bytes = random_bytes(sim::pick(FAULT, 60)); sim::count_fault(sim::F_CORRUPT); }
  else mutate(bytes);
  if (bytes.size() > 3100) bytes.resize(3100);
  sim::note("%s from %zu bytes (%zu before the damage)", name, bytes.size(), valid.size());
  sim::sample("%s from %zu damaged bytes", name, bytes.size());
  int src = sim::pick(CFG, 3);
  std::string again;
  size_t used = 0;
  guarded(name, bytes.size(), may_cycle, [&] {
    GetcSource g(bytes, Cut{});
    ReadSource b(bytes, Cut{});
    arpc::string_input_stream s(bytes);
    arpc::input_stream& in = src == 0 ? (arpc::input_stream&)g : src == 1 ? (arpc::input_stream&)b : (arpc::input_stream&)s;
    D d(in);
    T r{};
    d(r);
    sim::Quiet q;
    SIM_CHECK(proper(r), "malformed-value", "%s decoded from damaged bytes holds a boolean that is neither true nor false", name);
    arpc::string_output_stream out(again);
    E e(out);
    e(r);
  });
  if (again.empty()) return;
  // What was decoded is a proper value: it survives a round trip.
  if (!may_cycle) {
    std::string third;
    try {
      arpc::string_input_stream in(again);
      D d(in);
      T r{};
      d(r);
      SIM_CHECK(in.pos() == again.size(), "malformed-value", "%s decoded from damaged bytes does not survive a round trip", name);
      arpc::string_output_stream out(third);
      E e(out);
      e(r);
    } catch (const std::exception& e) {
      sim::fail("malformed-value", "%s decoded from damaged bytes cannot be read back: %s", name, e.what());
    }
    SIM_CHECK(third.size() == again.size(), "malformed-value", "%s decoded from damaged bytes changes in a round trip", name);
  }
}
template <typename E, typename D>
void values() {
  uint32_t n = 0;
  each_type([&]<typename T>(const char*) { n++; });
  uint32_t k = sim::pick(OPS, n);
  each_type([&]<typename T>(const char* name) { if (k-- == 0) try_type<T, E, D>(name); });
}

// ---- object graphs from a grammar of hostile tokens -------------------------
void token(std::string& s) {
  static const char* names[] = {"graph::Shape", "graph::Circle", "a group of shapes", "graph::Tagged", "graph::Alien", "graph::Group", "Unknown", ""};
  arpc::string_output_stream out(s);
  arpc::little_endian_binary_encoder e(out);
  switch (sim::weighted(OPS, {6, 4, 2, 2})) {
    case 0: s.push_back((char)sim::pick(OPS, 6)); break;                       // ids, flags, short lengths
    case 1: {                                                                 // a class by name, with its hash or another
      std::string name = names[sim::pick(OPS, 8)];
      e(name);
      uint32_t hash = 0;
      switch (sim::pick(OPS, 5)) {
        case 0: hash = arpc::traits::type_hash_v<Circle>; break;
        case 1: hash = arpc::traits::type_hash_v<Alien>; break;
        default:
          try { hash = arpc::registry::dynamic_object_factory::get()[name].type_hash; } catch (const std::exception&) {}
      }
      e(hash);
      break;
    }
    case 2: e((int32_t)sim::pick(OPS, 100)); break;
    default: e(random_bytes(sim::pick(OPS, 4)));
  }
}
// Every pointer that was decoded has an object of a class fit for it.
struct Proper {
  std::set<const void*> seen;
  template <typename T> void leaf(const T& p, std::initializer_list<const char*> ok) {
    std::string n(p.portable_class_name());
    for (auto* c : ok) if (n == c) return;
    sim::fail("wrong-class", "an object of class %s was put into a pointer to another class", n.c_str());
  }
  void see(const Circle& c) { leaf(c, {"graph::Circle", "graph::Tagged"}); }
  void see(const Tagged& t) { leaf(t, {"graph::Tagged"}); (*this)(t.next); }
  void see(const Alien& a) { leaf(a, {"graph::Alien"}); }
  void see(const Group& g) { for (auto& k : g.kids) (*this)(k); (*this)(g.parent); (*this)(g.own); (*this)(g.round); }
  void see(const Shape& s) {
    leaf(s, {"graph::Shape", "graph::Circle", "a group of shapes", "graph::Tagged"});
    if (s.portable_class_name() == "a group of shapes") see(static_cast<const Group&>(s));
    if (s.portable_class_name() == "graph::Tagged") see(static_cast<const Tagged&>(s));
  }
  void see(const Node& n) { (*this)(n.a); (*this)(n.b); (*this)(n.w); }
  void see(const std::string&) {}
  void see(const Inner&) {}
  template <typename T> void ptr(const T* p) { if (p && seen.insert(p).second) see(*p); }
  template <typename T> void operator()(const std::shared_ptr<T>& p) { ptr(p.get()); }
  template <typename T> void operator()(const std::unique_ptr<T>& p) { ptr(p.get()); }
  template <typename T> void operator()(const std::weak_ptr<T>& p) { ptr(p.lock().get()); }
  template <typename T> void operator()(const std::vector<T>& v) { for (auto& x : v) (*this)(x); }
  template <typename... T> void operator()(const std::tuple<T...>& t) { std::apply([&](auto&... x) { ((*this)(x), ...); }, t); }
};
// Valid encodings of small graphs, to be read as something else.
template <typename P> P some_shape(int depth) {
  P p;
  switch (sim::pick(OPS, depth > 0 ? 6 : 4)) {
    case 0: p = P(new Shape()); break;
    case 1: case 2: { auto c = new Circle(); c->name = random_bytes(sim::pick(OPS, 3)); p = P(c); break; }
    case 3: p = P(new Tagged()); break;
    case 4: p = P(); break;
    default: {
      auto g = new Group();
      for (uint32_t n = sim::pick(OPS, 4); n; n--) g->kids.push_back(sim::chance(OPS, 1, 3) && !g->kids.empty() ? g->kids[0] : some_shape<std::shared_ptr<Shape>>(depth - 1));
      g->own = some_shape<std::unique_ptr<Shape>>(depth - 1);
      if (sim::chance(OPS, 1, 2)) g->round = std::make_shared<Circle>();
      p = P(g);
    }
  }
  return p;
}
std::string some_graph() {
  std::string bytes;
  arpc::string_output_stream out(bytes);
  arpc::little_endian_binary_encoder e(out);
  std::vector<std::shared_ptr<Shape>> sv;
  std::vector<std::shared_ptr<Alien>> av;
  std::shared_ptr<std::string> str = std::make_shared<std::string>(random_bytes(sim::pick(OPS, 4)));
  for (uint32_t n = sim::range(OPS, 1, 5); n; n--) switch (sim::pick(OPS, 9)) {
    case 0: case 1: { auto p = some_shape<std::shared_ptr<Shape>>(2); sv.push_back(p); e(p); break; }
    case 2: { auto p = std::make_shared<Alien>(); p->z = (int)sim::pick(OPS, 200); av.push_back(p); e(p); break; }
    case 3: { auto p = std::make_unique<Alien>(); e(p); break; }
    case 4: if (!sv.empty()) e(sv[sim::pick(OPS, (uint32_t)sv.size())]); break;
    case 5: if (!av.empty()) e(av[sim::pick(OPS, (uint32_t)av.size())]); break;
    case 6: e(str); break;
    case 7: { auto p = some_shape<std::unique_ptr<Shape>>(1); e(p); break; }
    default: { auto n1 = std::make_shared<Node>(); n1->a = sim::chance(OPS, 1, 2) ? std::make_shared<Node>() : nullptr; n1->text = str; e(n1); }
  }
  if (sim::chance(OPS, 1, 2)) bytes.insert(bytes.begin(), (char)sim::pick(OPS, 6));   // The size of a vector.
  if (sim::chance(FAULT, 1, 3)) mutate(bytes);
  // Object and class ids are single bytes: change those alone.
  for (uint32_t n = sim::pick(FAULT, 3); n && !bytes.empty(); n--) {
    char& c = bytes[sim::pick(FAULT, (uint32_t)bytes.size())];
    if ((unsigned char)c < 8) c = (char)sim::pick(FAULT, 6);
  }
  return bytes;
}
template <typename T>
void try_graph(const char* name, bool may_cycle) {
  std::string bytes;
  if (sim::chance(OPS, 1, 2)) for (uint32_t n = sim::range(OPS, 1, 14); n; n--) token(bytes);
  else bytes = some_graph();
  if (bytes.size() > 2000) bytes.resize(2000);
  sim::sample("%s from %zu bytes", name, bytes.size());
  sim::count_fault(sim::F_CORRUPT);
  { try { throw arpc::errors::data_mismatch("warm"); } catch (const std::exception&) {} }
  const int live = g_live;
  bool reuse = sim::chance(OPS, 1, 3);
  Fate f = guarded(name, bytes.size(), may_cycle, [&] {
    arpc::string_input_stream in(bytes);
    arpc::little_endian_binary_decoder d(in);
    T r{}, r2{};
    try {
      d(r);
    } catch (const std::exception&) {
      if (!reuse) throw;
      sim::probe("decoder-used-after-error");
      d(r2);   // must stay safe, whatever it yields
    }
    sim::Quiet q;
    Proper proper;
    proper(r);
    proper(r2);
  });
  if (!may_cycle) SIM_CHECK(g_live == live, "leak", "%d objects were never destroyed after decoding %s", g_live - live, name);
  (void)f;
}
using U = std::unique_ptr<Shape>;

template <typename A, typename B, typename E, typename D>
void mismatch(const char* what, const char* finding = nullptr) {
  std::string bytes;
  {
    A a{};
    gen(a, 1);
    arpc::string_output_stream out(bytes);
    E e(out);
    e(a, arpc::verify_structure{});
  }
  sim::note("%s", what);
  sim::count_fault(sim::F_CORRUPT);
  try {
    arpc::string_input_stream in(bytes);
    D d(in);
    B b{};
    d(b, arpc::verify_structure{});
  } catch (const arpc::errors::data_mismatch&) {
    return;
  } catch (const std::exception& e) {
    if (finding && sim::known_finding(finding)) return;
    sim::fail("wrong-error", "%s: incompatible structures were reported as: %s", what, e.what());
  }
  if (finding && sim::known_finding(finding)) return;
  sim::fail("mismatch-undetected", "%s: data with an incompatible structure was decoded", what);
}
// Any other structure hash than the type's own means another structure.
template <typename A, typename E, typename D>
void other_hash(const char* what) {
  std::string bytes;
  {
    A a{};
    gen(a, 1);
    arpc::string_output_stream out(bytes);
    E e(out);
    e(a, arpc::verify_structure{});
  }
  uint32_t bit = sim::pick(FAULT, 8 * sizeof(arpc::traits::type_hash_t));
  bytes[bit / 8] ^= 1 << bit % 8;
  sim::note("%s, hash bit %u", what, bit);
  sim::count_fault(sim::F_CORRUPT);
  try {
    arpc::string_input_stream in(bytes);
    D d(in);
    A b{};
    d(b, arpc::verify_structure{});
  } catch (const arpc::errors::data_mismatch&) {
    return;
  } catch (const std::exception& e) {
    sim::fail("wrong-error", "%s with another structure hash was reported as: %s", what, e.what());
  }
  sim::fail("mismatch-undetected", "%s with another structure hash was decoded", what);
}
struct V1 : arpc::serializable<V1> {
  int32_t a = 1;
  ARPC_CUSTOM_SERIALIZATION_VERSION(1);
  template <typename S> void save(S& s) const { s(a); }
  template <typename S> void load(S& s) { s(a); }
};
struct V2 : arpc::serializable<V2> {
  uint8_t a = 1, b = 2, c = 3, d = 4;
  ARPC_CUSTOM_SERIALIZATION_VERSION(2);
  template <typename S> void save(S& s) const { s(a); s(b); s(c); s(d); }
  template <typename S> void load(S& s) { s(a); s(b); s(c); s(d); }
};
struct FieldsA : arpc::serializable<FieldsA> { int32_t a = 0; std::string b; ARPC_FIELDS(a, b); };
struct FieldsB : arpc::serializable<FieldsB> { std::string a; int32_t b = 0; ARPC_FIELDS(a, b); };
struct FieldsC : arpc::serializable<FieldsC, Base1> { int32_t a = 0; std::string b; ARPC_FIELDS(a, b); };
struct FieldsD : arpc::serializable<FieldsD> { Base1 base; int32_t a = 0; std::string b; ARPC_FIELDS(base, a, b); };
}  // namespace
namespace val {
template <> struct gen_impl<V1> { static void go(V1& v, int) { gen(v.a); } };
template <> struct gen_impl<V2> { static void go(V2& v, int) { gen(v.a); gen(v.d); } };
template <> struct gen_impl<FieldsA> { static void go(FieldsA& v, int) { gen(v.a); gen(v.b, 2); } };
template <> struct gen_impl<FieldsB> { static void go(FieldsB& v, int) { gen(v.a, 2); gen(v.b); } };
template <> struct gen_impl<FieldsC> { static void go(FieldsC& v, int) { gen(v.a); gen(v.b, 2); } };
template <> struct gen_impl<FieldsD> { static void go(FieldsD& v, int) { gen(v.a); gen(v.b, 2); } };
}  // namespace val
namespace {
template <typename E, typename D>
void mismatches() {
  using namespace std;
  switch (sim::pick(OPS, 25)) {
    case 22: return other_hash<int32_t, E, D>("int32");
    case 23: return other_hash<FieldsA, E, D>("class");
    case 24: return other_hash<map<int, string>, E, D>("map");
    case 0: return mismatch<int32_t, uint32_t, E, D>("int32 as uint32");
    case 1: return mismatch<int32_t, float, E, D>("int32 as float");
    case 2: return mismatch<string, vector<uint8_t>, E, D>("string as vector<uint8>");
    case 3: return mismatch<vector<int16_t>, vector<int32_t>, E, D>("vector<int16> as vector<int32>");
    case 4: return mismatch<vector<int32_t>, array<int32_t, 4>, E, D>("vector as array");
    case 5: return mismatch<array<int32_t, 5>, array<int32_t, 4>, E, D>("array of 5 as array of 4");
    case 6: return mismatch<map<int, string>, map<string, int>, E, D>("map with key and value exchanged");
    case 7: return mismatch<set<int>, multiset<int>, E, D>("set as multiset");
    case 8: return mismatch<set<int>, vector<int>, E, D>("set as vector");
    case 9: return mismatch<map<int, string>, set<int>, E, D>("map as set");
    case 10: return mismatch<optional<int>, int, E, D>("optional as value");
    case 11: return mismatch<optional<int>, unique_ptr<int>, E, D>("optional as unique_ptr");
    case 12: return mismatch<tuple<int, string>, tuple<string, int>, E, D>("tuple with elements exchanged");
    case 13: return mismatch<tuple<int, string, bool>, tuple<int, string>, E, D>("tuple of three as tuple of two");
    case 14: return mismatch<FieldsA, FieldsB, E, D>("class with fields reordered");
    case 15: return mismatch<FieldsA, FieldsC, E, D>("class as class with a base");
    case 16: return mismatch<FieldsC, FieldsD, E, D>("base class as field");
    case 17: return mismatch<FieldsA, Inner, E, D>("class as aggregate");
    case 18: return mismatch<V1, V2, E, D>("custom serialization version 1 as version 2", "custom-version-not-hashed");
    case 19: return mismatch<V2, V1, E, D>("custom serialization version 2 as version 1", "custom-version-not-hashed");
    case 20: return mismatch<Color, int16_t, E, D>("enum as integer");
    default: return mismatch<vector<bool>, vector<char>, E, D>("vector<bool> as vector<char>");
  }
}
}  // namespace

SIM_SCENARIO(S04, values, 30) {
  if (sim::chance(CFG, 1, 3)) values<arpc::big_endian_binary_encoder, arpc::big_endian_binary_decoder>();
  else values<arpc::little_endian_binary_encoder, arpc::little_endian_binary_decoder>();
}
SIM_SCENARIO(S04, mismatch, 4) {
  if (sim::chance(CFG, 1, 3)) mismatches<arpc::big_endian_binary_encoder, arpc::big_endian_binary_decoder>();
  else mismatches<arpc::little_endian_binary_encoder, arpc::little_endian_binary_decoder>();
}
SIM_SCENARIO(S04, graphs, 20) {
  switch (sim::pick(OPS, 13)) {
    case 0: return try_graph<std::shared_ptr<Node>>("shared_ptr<Node>", true);
    case 1: return try_graph<std::vector<std::shared_ptr<Node>>>("vector<shared_ptr<Node>>", true);
    case 2: return try_graph<std::unique_ptr<Shape>>("unique_ptr<Shape>", true);
    case 3: return try_graph<std::vector<std::shared_ptr<Shape>>>("vector<shared_ptr<Shape>>", true);
    case 4: return try_graph<std::vector<std::shared_ptr<Circle>>>("vector<shared_ptr<Circle>>", true);
    case 5: return try_graph<std::tuple<std::shared_ptr<Tagged>, std::shared_ptr<Shape>, std::weak_ptr<Circle>>>("pointers to one object by several types", true);
    case 6: return try_graph<std::vector<std::shared_ptr<std::string>>>("vector<shared_ptr<string>>", false);
    case 7: return try_graph<std::tuple<std::shared_ptr<std::string>, std::shared_ptr<Inner>, std::shared_ptr<std::string>>>("shared pointers to unrelated types", false);
    case 8: return try_graph<std::tuple<std::shared_ptr<Alien>, std::shared_ptr<Shape>, std::shared_ptr<Shape>, std::shared_ptr<Alien>>>("pointers to alien, shape, shape, alien", true);
    case 9: return try_graph<std::tuple<std::shared_ptr<Shape>, std::shared_ptr<Circle>, std::shared_ptr<Alien>>>("pointers to shape, circle, alien", true);
    case 10: return try_graph<std::tuple<std::unique_ptr<Alien>, std::shared_ptr<Shape>, std::unique_ptr<Tagged>>>("pointers to alien, shape, tagged", true);
    case 11: return try_graph<std::tuple<std::shared_ptr<Shape>, std::shared_ptr<Tagged>, std::weak_ptr<Circle>, std::shared_ptr<std::string>>>("pointers to shape, tagged, circle, string", true);
    default: return try_graph<std::vector<std::shared_ptr<Alien>>>("vector<shared_ptr<Alien>>", false);
  }
}
// Checksums and byte stuffing fed with anything at all.
SIM_SCENARIO(S04, packets, 6) {
  std::string s = random_bytes(sim::pick(OPS, 600));
  if (sim::chance(OPS, 1, 2)) {
    arpc::cobs_codec().encode(s);
    mutate(s);
  }
  sim::count_fault(sim::F_CORRUPT);
  { try { throw arpc::errors::data_mismatch("warm"); } catch (const std::exception&) {} }
  int kind = sim::pick(OPS, 3);
  guarded("a packet", s.size(), false, [&] {
    switch (kind) {
      case 0: {
        std::string d = s;
        arpc::cobs_codec().decode(d);
        SIM_CHECK(d.size() <= s.size(), "malformed-value", "a packet grew when it was unstuffed");
        break;
      }
      case 1: { std::string d = s; arpc::mac_codec().decode(d); break; }
      default: {
        arpc::string_input_stream in(s);
        arpc::protected_stream_packet_protocol<> p;
        for (;;) p.receive(in);
      }
    }
  });
}

// References to objects and classes, right and wrong ones, against a reference
// decoder: what is well-formed yields the objects meant, the rest is refused.
namespace {
struct Ref {
  int id = 0;                 // of the object, 0 if null
  std::string cls, text;      // text: contents of a string, or name of a circle
  int32_t num = 0;
};
bool subclass(const std::string& c, int kind) {   // kinds: 1 Shape, 2 Circle, 3 Alien
  if (kind == 1) return c == "graph::Shape" || c == "graph::Circle";
  if (kind == 2) return c == "graph::Circle";
  return c == "graph::Alien";
}
template <typename E, typename D>
void references() {
  std::string bytes;
  std::vector<Ref> objects(1), expect;
  std::vector<std::string> classes;
  std::vector<int> kinds;     // 0 string, 1 Shape, 2 Circle, 3 Alien; +10: a unique pointer
  bool bad = false;
  std::string why;
  {
    arpc::string_output_stream out(bytes);
    E e(out);
    auto varint = [&](uint64_t v) {
      do { uint8_t b = v & 0x7f; v >>= 7; if (v) b |= 0x80; e(b); } while (v);
    };
    auto wrong = [&](const char* w) { bad = true; why = w; };
    auto body = [&](Ref& r) {
      if (r.cls == "graph::Alien") { r.num = (int32_t)sim::pick(OPS, 1000); e(r.num); return; }
      r.num = (int32_t)sim::pick(OPS, 1000);
      e(r.num);
      if (r.cls == "graph::Circle") { float f = 1; e(f); r.text = random_bytes(sim::pick(OPS, 4)); e(r.text); }
    };
    // A class reference and the object itself.
    auto dynamic = [&](Ref& r, int kind) {
      static const char* names[] = {"graph::Shape", "graph::Circle", "graph::Alien"};
      uint32_t next = (uint32_t)classes.size();
      uint32_t id = sim::chance(OPS, 1, 12) ? next + 1 + sim::pick(OPS, 3) : sim::chance(OPS, 1, 3) ? next : sim::pick(OPS, next + 1);
      std::string name = names[sim::chance(OPS, 1, 5) ? sim::pick(OPS, 3) : kind == 1 ? sim::pick(OPS, 2) : kind - 1];
      // Each class is introduced once.
      if (id == next) for (uint32_t c = 0; c < next; c++) if (classes[c] == name) id = c;
      varint(id);
      if (id > next) { wrong("class id out of order"); r.cls = name; return body(r); }
      if (id == next) {
        r.cls = name;
        if (sim::chance(FAULT, 1, 15)) name[sim::pick(FAULT, (uint32_t)name.size())] ^= 1 << sim::pick(FAULT, 7), wrong("unknown class");
        e(name);
        uint32_t hash = r.cls == names[0] ? arpc::traits::type_hash_v<Shape> : r.cls == names[1] ? arpc::traits::type_hash_v<Circle> : arpc::traits::type_hash_v<Alien>;
        if (sim::chance(FAULT, 1, 10)) hash ^= 1u << sim::pick(FAULT, 32), wrong("wrong class hash");
        e(hash);
        classes.push_back(name);
      }
      r.cls = classes[id];
      if (!bad && !subclass(r.cls, kind)) wrong("class not fit for the pointer");
      body(r);
    };
    for (uint32_t n = sim::range(OPS, 1, 12); n && !bad; n--) {
      int kind = sim::pick(OPS, 4);
      Ref r;
      if (kind && sim::chance(OPS, 1, 4)) {
        kinds.push_back(kind + 10);
        uint8_t present = sim::pick(OPS, 4) > 0;
        e(present);
        if (present) { r.id = -1; dynamic(r, kind); }
        expect.push_back(r);
        continue;
      }
      kinds.push_back(kind);
      uint32_t next = (uint32_t)objects.size();
      uint32_t id = sim::chance(OPS, 1, 12) ? next + 1 + sim::pick(OPS, 3) : sim::chance(OPS, 1, 2) ? next : sim::pick(OPS, next);
      varint(id);
      if (id > next) wrong("object id out of order");
      else if (id == next) {
        r.id = (int)id;
        if (kind == 0) { r.cls = "string"; r.text = random_bytes(sim::pick(OPS, 4)); e(r.text); }
        else dynamic(r, kind);
        objects.push_back(r);
      } else if (id) {
        r = objects[id];
        if (kind == 0 ? r.cls != "string" : !subclass(r.cls, kind)) wrong("object not fit for the pointer");
      }
      expect.push_back(r);
    }
    // What is wrong shows, whatever comes after it.
    if (bad) for (uint32_t n = sim::range(OPS, 8, 40); n; n--) { uint8_t b = sim::pick(OPS, 3); e(b); }
  }
  sim::note("%zu references, %s", kinds.size(), bad ? why.c_str() : "well-formed");
  arpc::string_input_stream in(bytes);
  D d(in);
  std::map<const void*, int> seen;
  std::map<int, const void*> where;
  std::vector<std::shared_ptr<void>> keep;
  std::vector<std::unique_ptr<Shape>> own;
  std::vector<std::unique_ptr<Circle>> own_circles;
  std::vector<std::unique_ptr<Alien>> own_aliens;
  bool refused = false;
  std::string error;
  for (size_t i = 0; i < kinds.size(); i++) {
    const Ref& x = expect[i];
    Ref got;
    const void* at = nullptr;
    auto look = [&](auto* p) {
      if (!p) return;
      at = p;
      got.cls = p->portable_class_name();
      if constexpr (std::is_same_v<std::decay_t<decltype(*p)>, Alien>) got.num = p->z;
      else {
        got.num = p->id;
        if (got.cls == "graph::Circle") got.text = static_cast<const Circle*>((const Shape*)p)->name;
      }
    };
    try {
      switch (kinds[i]) {
        case 0: { std::shared_ptr<std::string> p; d(p); if (p) { at = p.get(); got.cls = "string"; got.text = *p; } keep.push_back(p); break; }
        case 1: { std::shared_ptr<Shape> p; d(p); look(p.get()); keep.push_back(p); break; }
        case 2: { std::shared_ptr<Circle> p; d(p); look(p.get()); keep.push_back(p); break; }
        case 3: { std::shared_ptr<Alien> p; d(p); look(p.get()); keep.push_back(p); break; }
        case 11: { std::unique_ptr<Shape> p; d(p); look(p.get()); own.push_back(std::move(p)); break; }
        case 12: { std::unique_ptr<Circle> p; d(p); look(p.get()); own_circles.push_back(std::move(p)); break; }
        default: { std::unique_ptr<Alien> p; d(p); look(p.get()); own_aliens.push_back(std::move(p)); break; }
      }
    } catch (const std::exception& e) {
      refused = true;
      error = e.what();
      SIM_CHECK(bad && i + 1 == kinds.size(), "refused", "reference %zu of %zu, a proper one, was refused: %s", i + 1, kinds.size(), error.c_str());
      break;
    }
    if (bad && i + 1 == kinds.size()) break;
    SIM_CHECK(!at == (x.id == 0), "malformed-value", "reference %zu should%s be null", i + 1, x.id ? " not" : "");
    if (!at) continue;
    SIM_CHECK(got.cls == x.cls && got.num == x.num && got.text == x.text, "malformed-value", "reference %zu leads to a %s with %d, should be a %s with %d", i + 1, got.cls.c_str(), got.num, x.cls.c_str(), x.num);
    if (x.id > 0) {
      auto f = seen.emplace(at, x.id);
      auto b = where.emplace(x.id, at);
      SIM_CHECK(f.first->second == x.id && b.first->second == at, "malformed-value", "reference %zu leads to another object than number %d", i + 1, x.id);
    }
  }
  if (bad) {
    SIM_CHECK(refused, "mismatch-undetected", "%s, and it was decoded", why.c_str());
    sim::count_fault(sim::F_CORRUPT);
    sim::probe("reference-refused");
  } else {
    SIM_CHECK(in.pos() == bytes.size(), "wrong-length", "%zu of %zu bytes read", (size_t)in.pos(), bytes.size());
    sim::probe("references-followed");
  }
}
}  // namespace
SIM_SCENARIO(S04, references, 6) {
  if (sim::chance(CFG, 1, 3)) references<arpc::big_endian_binary_encoder, arpc::big_endian_binary_decoder>();
  else references<arpc::little_endian_binary_encoder, arpc::little_endian_binary_decoder>();
}
