#include "values.h"
using namespace sc;
using namespace val;

namespace {
// A list of values with the code that writes and reads each of them.
template <typename E, typename D>
struct Item {
  virtual ~Item() = default;
  virtual void write(E& e) = 0;
  virtual void read(D& d, const char* when) = 0;   // compares
  const char* name = "";
  bool verify = false;
};
template <typename T, typename E, typename D>
struct ItemOf : Item<E, D> {
  T v{};
  void write(E& e) override {
    if (this->verify) e(static_cast<const T&>(v), arpc::verify_structure{});
    else if (sim::chance(OPS, 1, 2)) e(static_cast<const T&>(v));
    else e(v);
  }
  void read(D& d, const char* when) override {
    T r{};
    if (sim::chance(OPS, 1, 2)) gen(r, 2);   // whatever the target held before is replaced
    if (this->verify) d(r, arpc::verify_structure{});
    else d(r);
    SIM_CHECK(same(v, r), "value-changed", "%s read back differently (%s)", this->name, when);
  }
};
template <typename E, typename D>
std::unique_ptr<Item<E, D>> random_item() {
  std::unique_ptr<Item<E, D>> r;
  uint32_t n = 0;
  each_type([&]<typename T>(const char*) { n++; });
  uint32_t k = sim::pick(OPS, n);
  each_type([&]<typename T>(const char* name) {
    if (k-- != 0) return;
    auto* i = new ItemOf<T, E, D>;
    i->name = name;
    i->verify = sim::chance(OPS, 1, 3);
    gen(i->v);
    r.reset(i);
    sim::note("%s%s", name, i->verify ? " verified" : "");
  });
  return r;
}

template <typename E, typename D>
void run() {
  std::vector<std::unique_ptr<Item<E, D>>> items;
  for (uint32_t n = sim::range(OPS, 1, 3); n; n--) items.push_back(random_item<E, D>());
  Disk d;
  std::vector<size_t> ends;
  with_sink(d, [&](arpc::output_stream& out) {
    E e(out);
    for (auto& i : items) {
      i->write(e);
      out.flush();
      ends.push_back(d.data.size());
    }
  });
  size_t len = d.data.size();
  std::string tail = random_bytes(sim::pick(OPS, 20));
  Cut c;
  size_t whole = items.size();
  std::string bytes = d.data + tail;
  if (sim::chance(FAULT, 1, 2) && len > 0) {
    c.at = sim::pick(FAULT, (uint32_t)len);
    if (sim::chance(FAULT, 1, 3)) c.at = len - 1 - sim::pick(FAULT, (uint32_t)std::min<size_t>(len, 9));
    c.fail = sim::chance(FAULT, 1, 2);
    whole = 0;
    while (ends[whole] <= c.at) whole++;
    sim::probe(c.fail ? "source-fails" : "source-truncated");
  }
  sim::sample("%zu values in %zu bytes, first %s, cut at %zd", items.size(), len, items[0]->name, (ssize_t)c.at);
  with_source(bytes, c, [&](arpc::input_stream& in) {
    D dec(in);
    for (size_t i = 0; i < items.size(); i++) {
      try {
        items[i]->read(dec, "all of it was there");
        SIM_CHECK(i < whole, "made-up-value", "%s was read although its encoding is cut %zu bytes short", items[i]->name, ends[i] - c.at);
      } catch (const arpc::errors::eof&) {
        SIM_CHECK(i >= whole, "value-lost", "%s is complete in the stream but its end was reported", items[i]->name);
        SIM_CHECK(!c.fail, "failure-hidden", "the source failed inside %s, but its end was reported", items[i]->name);
        return;
      } catch (const arpc::errors::io_error&) {
        SIM_CHECK(i >= whole && c.fail, "wrong-error", "an I/O error was made up while reading %s", items[i]->name);
        return;
      } catch (const std::exception& e) {
        sim::fail("wrong-error", "reading %s reported: %s", items[i]->name, e.what());
      }
    }
    // Exactly the bytes written were consumed.
    if (tail.empty()) {
      char b;
      SIM_CHECK(in.read(&b, 1) == 0, "wrong-length", "bytes are left over after reading everything back");
    } else {
      std::string rest(tail.size(), 0);
      size_t n = in.read(&rest[0], rest.size());
      SIM_CHECK(n == tail.size() && rest == tail, "wrong-length", "what follows the values was not left in the source");
    }
  });
}
// A value of one type read as another type declared compatible with it.
template <typename E, typename D, typename A, typename B, typename F>
void cross(const char* name, F eq) {
  A a{};
  gen(a);
  Disk d;
  with_sink(d, [&](arpc::output_stream& out) { E e(out); e(a, arpc::verify_structure{}); out.flush(); });
  sim::note("%s", name);
  with_source(d.data, Cut{}, [&](arpc::input_stream& in) {
    D dec(in);
    B b{};
    try {
      dec(b, arpc::verify_structure{});
    } catch (const std::exception& e) {
      sim::fail("incompatible", "%s: %s", name, e.what());
    }
    SIM_CHECK(eq(a, b), "value-changed", "%s read back differently", name);
  });
}
template <typename E, typename D>
void compatible() {
  using namespace std;
  auto elems = [](auto& a, auto& b) {
    if (a.size() != b.size()) return false;
    return equal(a.begin(), a.end(), b.begin(), [](const auto& x, const auto& y) {
      if constexpr (std::is_class_v<std::decay_t<decltype(x)>> && !std::is_same_v<std::decay_t<decltype(x)>, string> && !std::is_convertible_v<decltype(x), bool>)
        return x.first == y.first && x.second == y.second;
      else
        return x == y;
    });
  };
  switch (sim::pick(OPS, 9)) {
    case 0: return cross<E, D, Inner, tuple<int16_t, string>>("aggregate as tuple", [](auto& a, auto& b) { return a.a == get<0>(b) && a.b == get<1>(b); });
    case 1: return cross<E, D, pair<int, string>, tuple<int, string>>("pair as tuple", [](auto& a, auto& b) { return a.first == get<0>(b) && a.second == get<1>(b); });
    case 2: return cross<E, D, vector<string>, list<string>>("vector as list", elems);
    case 3: return cross<E, D, deque<int32_t>, vector<int32_t>>("deque as vector", elems);
    case 4: return cross<E, D, list<uint16_t>, deque<uint16_t>>("list as deque", elems);
    case 5: return cross<E, D, map<string, int>, arpc::flat_map<string, int>>("map as flat_map", elems);
    case 6: return cross<E, D, arpc::flat_set<string>, set<string>>("flat_set as set", elems);
    case 7: return cross<E, D, arpc::flat_map<int, vector<string>>, map<int, vector<string>>>("flat_map as map", elems);
    default: return cross<E, D, vector<bool>, list<bool>>("vector<bool> as list<bool>", elems);
  }
}
// string_view is read back as a string.
template <typename E, typename D>
void views() {
  std::string s = random_bytes(size_near_edges());
  Disk d;
  with_sink(d, [&](arpc::output_stream& out) { E e(out); e(std::string_view(s)); out.flush(); });
  with_source(d.data, Cut{}, [&](arpc::input_stream& in) {
    D dec(in);
    std::string r;
    dec(r);
    SIM_CHECK(r == s, "value-changed", "a string_view of %zu bytes was read back as %zu bytes", s.size(), r.size());
  });
}
}  // namespace

SIM_SCENARIO(S03, values, 30) {
  if (sim::chance(CFG, 1, 3)) run<arpc::big_endian_binary_encoder, arpc::big_endian_binary_decoder>();
  else run<arpc::little_endian_binary_encoder, arpc::little_endian_binary_decoder>();
}
SIM_SCENARIO(S03, compatible, 6) {
  if (sim::chance(CFG, 1, 3)) compatible<arpc::big_endian_binary_encoder, arpc::big_endian_binary_decoder>();
  else compatible<arpc::little_endian_binary_encoder, arpc::little_endian_binary_decoder>();
}
SIM_SCENARIO(S03, views, 2) {
  if (sim::chance(CFG, 1, 3)) views<arpc::big_endian_binary_encoder, arpc::big_endian_binary_decoder>();
  else views<arpc::little_endian_binary_encoder, arpc::little_endian_binary_decoder>();
}
