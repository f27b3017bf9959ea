#include "graph.h"
using namespace sc;
using namespace graph;

namespace {
template <typename T> using sp = std::shared_ptr<T>;

// The objects a program is working with.  Every one of them carries a serial
// number, so that identity survives the reuse of addresses.
struct World {
  int32_t next = 1;
  std::vector<sp<Node>> nodes;
  std::vector<sp<Shape>> shapes;
  std::vector<sp<Circle>> circles;
  std::vector<sp<Tagged>> tagged;
  std::vector<sp<std::string>> texts;
  // Everything that was ever made, to take cycles apart in the end.
  std::vector<std::weak_ptr<Node>> all_nodes;
  std::vector<std::weak_ptr<Shape>> all_shapes;

  template <typename T> static sp<T> any(std::vector<sp<T>>& v) {
    return v.empty() || sim::chance(OPS, 1, 5) ? sp<T>() : v[sim::pick(OPS, (uint32_t)v.size())];
  }
  sp<Shape> any_shape() {
    switch (sim::pick(OPS, 3)) {
      case 0: return any(circles);
      case 1: return any(tagged);
      default: return any(shapes);
    }
  }
  sp<Circle> any_circle() { if (sim::pick(OPS, 2)) return any(tagged); return any(circles); }
  std::unique_ptr<Shape> own() {
    switch (sim::pick(OPS, 4)) {
      case 0: return nullptr;
      case 1: { auto c = std::make_unique<Circle>(); fill(*c); return c; }
      case 2: { auto t = std::make_unique<Tagged>(); fill(*t); t->next = any(tagged); return t; }
      default: { auto s = std::make_unique<Shape>(); s->id = next++; return s; }
    }
  }
  void fill(Circle& c) { c.id = next++; c.r = (float)sim::pick(OPS, 9); c.name = random_bytes(sim::pick(OPS, 3)); }
  void fill(Tagged& t) { fill((Circle&)t); t.tag = 1000 + t.id; }
  void grow() {
    switch (sim::pick(OPS, 6)) {
      case 0: {
        auto n = std::make_shared<Node>();
        n->id = next++;
        nodes.push_back(n);
        all_nodes.push_back(n);
        break;
      }
      case 1: { auto c = sp<Circle>(new Circle); fill(*c); circles.push_back(c); all_shapes.push_back(c); break; }
      case 2: { auto t = std::make_shared<Tagged>(); fill(*t); tagged.push_back(t); all_shapes.push_back(t); break; }
      case 3: texts.push_back(std::make_shared<std::string>("t" + std::to_string(next++))); break;
      case 4: {
        auto g = std::make_shared<Group>();
        g->id = next++;
        for (uint32_t k = sim::pick(OPS, 4); k; k--) g->kids.push_back(any_shape());
        g->parent = any_shape();
        g->own = own();
        g->round = any_circle();
        if (sim::chance(OPS, 1, 4)) g->kids.push_back(g);
        if (sim::chance(OPS, 1, 4)) g->parent = g;
        shapes.push_back(g);
        all_shapes.push_back(g);
        break;
      }
      default: { auto s = sp<Shape>(new Shape); s->id = next++; shapes.push_back(s); all_shapes.push_back(s); }
    }
    for (auto& n : nodes) if (sim::chance(OPS, 1, 3)) relink(*n);
    for (auto& t : tagged) if (!t->next && sim::chance(OPS, 1, 3)) t->next = any(tagged);
  }
  void relink(Node& n) {
    if (n.a || n.b) return;   // what has been sent does not change
    n.a = any(nodes);
    n.b = any(nodes);
    n.w = any(nodes);
    n.text = any(texts);
  }
  template <typename T> static void drop_from(std::vector<sp<T>>& v) {
    if (!v.empty()) v.erase(v.begin() + sim::pick(OPS, (uint32_t)v.size()));
  }
  void drop() {
    switch (sim::pick(OPS, 5)) {
      case 0: drop_from(nodes); break;
      case 1: drop_from(shapes); break;
      case 2: drop_from(circles); break;
      case 3: drop_from(tagged); break;
      default: drop_from(texts);
    }
  }
};
// Breaks every cycle in what is reachable, so that ownership alone decides what is left.
struct Unlinker {
  std::vector<sp<void>> keep;
  std::set<const void*> seen;
  void operator()(const sp<Node>& n) {
    if (!n || !seen.insert(n.get()).second) return;
    keep.push_back(n);
    auto a = n->a, b = n->b;
    n->a.reset();
    n->b.reset();
    (*this)(a);
    (*this)(b);
  }
  void operator()(Shape* s) {
    if (!s || !seen.insert(s).second) return;
    auto name = s->portable_class_name();
    if (name == "a group of shapes") {
      auto* g = static_cast<Group*>(s);
      auto kids = std::move(g->kids);
      g->kids.clear();
      auto round = std::move(g->round);
      for (auto& k : kids) { keep.push_back(k); (*this)(k.get()); }
      keep.push_back(round);
      (*this)(round.get());
      (*this)(g->own.get());
    } else if (name == "graph::Tagged") {
      auto* t = static_cast<Tagged*>(s);
      auto next = std::move(t->next);
      keep.push_back(next);
      (*this)(next.get());
    }
  }
  void operator()(const sp<Shape>& s) { if (s) keep.push_back(s); (*this)(s.get()); }
};

// Compares two graphs as they are walked together.
struct Matcher {
  std::map<int64_t, const void*> fwd;            // serial of the original -> object read back
  std::map<const void*, int64_t> back;
  // What only weak pointers may refer to: such objects can own themselves through a cycle.
  std::vector<sp<Node>> weak_nodes;
  std::vector<sp<Shape>> weak_shapes;
  // True if the pair is new and has to be walked.
  bool meet(int64_t serial, const void* dst, const char* what) {
    auto f = fwd.find(serial);
    auto b = back.find(dst);
    if (f != fwd.end()) {
      SIM_CHECK(f->second == dst, "identity-split", "%s %lld was one object before, two after", what, (long long)serial);
      return false;
    }
    SIM_CHECK(b == back.end(), "identity-merged", "%s %lld and object %lld were distinct before, one after", what, (long long)serial, (long long)b->second);
    fwd[serial] = dst;
    back[dst] = serial;
    return true;
  }
  template <typename T> bool null(const sp<T>& a, const sp<T>& b, const char* what) {
    SIM_CHECK(!a == !b, "null-changed", "%s pointer was %s and is now %s", what, a ? "set" : "null", b ? "set" : "null");
    return !a;
  }
  void operator()(const sp<std::string>& a, const sp<std::string>& b) {
    if (null(a, b, "text")) return;
    SIM_CHECK(*a == *b, "content-changed", "text %s was read back as %s", a->c_str(), b->c_str());
    meet(1000000 + std::stoll(a->substr(1)), b.get(), "text");
  }
  void operator()(const sp<Node>& a, const sp<Node>& b) {
    if (null(a, b, "node")) return;
    SIM_CHECK(a->id == b->id, "content-changed", "node %d was read back as node %d", a->id, b->id);
    if (!meet(a->id, b.get(), "node")) return;
    (*this)(a->a, b->a);
    (*this)(a->b, b->b);
    if (auto p = b->w.lock()) weak_nodes.push_back(p);
    (*this)(a->w.lock(), b->w.lock());
    (*this)(a->text, b->text);
  }
  void body(const Shape* a, const Shape* b) {
    SIM_CHECK(a->portable_class_name() == b->portable_class_name(), "class-changed", "object %d was a %s, is a %s", a->id,
              std::string(a->portable_class_name()).c_str(), std::string(b->portable_class_name()).c_str());
    SIM_CHECK(a->id == b->id, "content-changed", "shape %d was read back as shape %d", a->id, b->id);
    if (!meet(a->id, b, "shape")) return;
    auto name = a->portable_class_name();
    if (name == "a group of shapes") {
      auto *x = static_cast<const Group*>(a), *y = static_cast<const Group*>(b);
      SIM_CHECK(x->kids.size() == y->kids.size(), "content-changed", "group %d had %zu members, has %zu", a->id, x->kids.size(), y->kids.size());
      for (size_t i = 0; i < x->kids.size(); i++) (*this)(x->kids[i], y->kids[i]);
      if (auto p = y->parent.lock()) weak_shapes.push_back(p);
      (*this)(x->parent.lock(), y->parent.lock());
      (*this)((const sp<Shape>&)x->round, (const sp<Shape>&)y->round);
      own(x->own, y->own);
    } else if (name == "graph::Circle" || name == "graph::Tagged") {
      auto *x = static_cast<const Circle*>(a), *y = static_cast<const Circle*>(b);
      SIM_CHECK(x->r == y->r && x->name == y->name, "content-changed", "circle %d changed", a->id);
      if (name == "graph::Tagged") {
        auto *p = static_cast<const Tagged*>(x), *q = static_cast<const Tagged*>(y);
        SIM_CHECK(p->tag == q->tag, "content-changed", "the tag of object %d was %d, is %d", a->id, p->tag, q->tag);
        (*this)(sp<Shape>(p->next), sp<Shape>(q->next));
      }
    }
  }
  void own(const std::unique_ptr<Shape>& a, const std::unique_ptr<Shape>& b) {
    SIM_CHECK(!a == !b, "null-changed", "an owned object appeared or vanished");
    if (a) body(a.get(), b.get());
  }
  void operator()(const sp<Shape>& a, const sp<Shape>& b) {
    if (!null(a, b, "shape")) body(a.get(), b.get());
  }
};

// One thing sent in a message.
struct Slot {
  int kind = 0;
  std::vector<sp<Node>> nodes;
  std::vector<sp<Shape>> shapes;
  sp<Circle> circle;
  sp<Tagged> tagged;
  std::unique_ptr<Shape> own;
  std::weak_ptr<Shape> ws;
  std::weak_ptr<Node> wn;
  std::vector<sp<std::string>> texts;
  template <typename S> void with(S& s) {
    switch (kind) {
      case 0: s(nodes); break;
      case 1: s(shapes); break;
      case 2: s(circle); break;
      case 3: s(tagged); break;
      case 4: s(own); break;
      case 5: s(ws); break;
      case 6: s(wn); break;
      default: s(texts);
    }
  }
};

template <typename E, typename D>
void messages() {
  {
    World w;
    std::string wire;
    arpc::string_output_stream out(wire);
    arpc::string_input_stream in(wire);
    auto enc = std::make_unique<E>(out);
    auto dec = std::make_unique<D>(in);
    Matcher m;
    std::vector<std::unique_ptr<Slot>> received, sent;
    Unlinker cut;
    std::vector<sp<Shape>> used_shapes;
    std::vector<sp<Node>> used_nodes;
    uint32_t nmsg = sim::range(OPS, 1, 5);
    size_t objects = 0;
    for (uint32_t k = 0; k < nmsg; k++) {
      for (uint32_t g = sim::pick(OPS, 8); g; g--) w.grow();
      // Enough objects for ids of two and of three bytes.
      if (sim::chance(OPS, 1, 12)) for (int g = k == 0 && sim::chance(OPS, 1, 12) ? 16500 : 150; g > 0; g--) w.texts.push_back(std::make_shared<std::string>("t" + std::to_string(w.next++)));
      auto s = std::make_unique<Slot>();
      s->kind = sim::pick(OPS, 8);
      switch (s->kind) {
        case 0: for (uint32_t n = sim::pick(OPS, 5); n; n--) s->nodes.push_back(World::any(w.nodes)); break;
        case 1: for (uint32_t n = sim::pick(OPS, 5); n; n--) s->shapes.push_back(w.any_shape()); break;
        case 2: s->circle = w.any_circle(); break;
        case 3: s->tagged = World::any(w.tagged); break;
        case 4: s->own = w.own(); break;
        case 5: s->ws = w.any_shape(); break;
        case 6: s->wn = World::any(w.nodes); break;
        default: s->texts = w.texts;
      }
      auto r = std::make_unique<Slot>();
      r->kind = s->kind;
      // What it is read into may be in use already.
      if (sim::chance(OPS, 1, 3)) {
        auto t = std::make_shared<Tagged>();
        t->id = -5;
        auto n = std::make_shared<Node>();
        n->id = -6;
        r->circle = t;
        if (r->kind != 2) r->circle.reset();
        if (r->kind == 3) r->tagged = std::make_shared<Tagged>();
        if (r->kind == 4) r->own = std::make_unique<Circle>();
        if (r->kind == 5) { r->ws = t; used_shapes.push_back(t); }
        if (r->kind == 6) { r->wn = n; used_nodes.push_back(n); }
        if (r->kind == 0) r->nodes.assign(sim::pick(OPS, 4), n);
        if (r->kind == 1) r->shapes.assign(sim::pick(OPS, 4), t);
        if (r->kind == 7) r->texts.assign(sim::pick(OPS, 4), std::make_shared<std::string>("x"));
        sim::probe("read-into-used");
      }
      sim::note("message %u kind %d", k, s->kind);
      try {
        s->with(*enc);
      } catch (const std::exception& e) {
        sim::fail("wrong-error", "writing message %u reported: %s", k, e.what());
      }
      try {
        r->with(*dec);
      } catch (const std::exception& e) {
        sim::fail("wrong-error", "reading message %u back reported: %s", k, e.what());
      }
      SIM_CHECK(in.pos() == wire.size(), "wrong-length", "message %u: %zu bytes were not consumed", k, wire.size() - in.pos());
      SIM_CHECK(s->nodes.size() == r->nodes.size() && s->shapes.size() == r->shapes.size() && s->texts.size() == r->texts.size(), "content-changed", "a list of pointers changed its length");
      for (size_t i = 0; i < s->nodes.size(); i++) m(s->nodes[i], r->nodes[i]);
      for (size_t i = 0; i < s->shapes.size(); i++) m(s->shapes[i], r->shapes[i]);
      for (size_t i = 0; i < s->texts.size(); i++) m(s->texts[i], r->texts[i]);
      m(sp<Shape>(s->circle), sp<Shape>(r->circle));
      m(sp<Shape>(s->tagged), sp<Shape>(r->tagged));
      m.own(s->own, r->own);
      m(s->ws.lock(), r->ws.lock());
      m(s->wn.lock(), r->wn.lock());
      objects = m.fwd.size();
      if (auto p = r->ws.lock()) cut.keep.push_back(p);
      if (auto p = r->wn.lock()) cut.keep.push_back(p);
      received.push_back(std::move(r));
      // The program moves on: objects die and new ones take their place.
      s.reset();
      for (uint32_t n = sim::pick(OPS, 4); n; n--) w.drop();
      if (sim::chance(OPS, 1, 6)) {
        enc = std::make_unique<E>(out);
        dec = std::make_unique<D>(in);
        m.fwd.clear();
        m.back.clear();
        sim::probe("new-encoder-and-decoder");
      }
    }
    sim::sample("%u messages, %zu objects known at the end, %zu bytes", nmsg, objects, wire.size());
    enc.reset();
    // What was received owns its objects: it stays valid without the decoder.
    dec.reset();
    for (auto& r : received) {
      for (auto& n : r->nodes) if (n) SIM_CHECK(n->id > 0, "content-changed", "a node lost its contents");
      for (auto& n : r->nodes) cut(n);
      for (auto& x : r->shapes) cut(x);
      if (r->circle) cut(sp<Shape>(r->circle));
      if (r->tagged) cut(sp<Shape>(r->tagged));
      cut(r->own.get());
      if (auto p = r->ws.lock()) cut(p);
      if (auto p = r->wn.lock()) cut(p);
    }
    for (auto& n : m.weak_nodes) cut(n);
    for (auto& x : m.weak_shapes) cut(x);
    for (auto& n : w.all_nodes) cut(n.lock());
    for (auto& x : w.all_shapes) cut(x.lock());
  }
}
// Acyclic objects: everything is destroyed exactly once.
template <typename E, typename D>
void ownership() {
  const int live = g_live;
  {
    std::string wire;
    std::vector<sp<Alien>> src, dst;
    std::vector<std::unique_ptr<Shape>> owned, owned2;
    std::vector<sp<Node>> chain, chain2;
    for (uint32_t n = sim::range(OPS, 1, 6); n; n--) {
      src.push_back(src.empty() || sim::chance(OPS, 1, 2) ? std::make_shared<Alien>() : src[sim::pick(OPS, (uint32_t)src.size())]);
      src.back()->z = n;
      owned.push_back(sim::chance(OPS, 1, 4) ? nullptr : sim::chance(OPS, 1, 2) ? std::make_unique<Shape>() : std::unique_ptr<Shape>(new Tagged));
      auto node = std::make_shared<Node>();
      node->id = n;
      if (!chain.empty()) { node->a = chain[sim::pick(OPS, (uint32_t)chain.size())]; node->w = chain[sim::pick(OPS, (uint32_t)chain.size())]; }
      chain.push_back(node);
    }
    uint64_t at = UINT64_MAX;
    {
      arpc::string_output_stream out(wire);
      E e(out);
      e(src);
      e(owned);
      e(chain);
      at = wire.size();
    }
    if (sim::chance(FAULT, 1, 3)) { at = sim::pick(FAULT, (uint32_t)at); sim::count_fault(sim::F_SOURCE_FAIL); }
    int created = g_live;
    {
      Cut c{(size_t)at, false};
      GetcSource in(wire, c);
      D d(in);
      if (sim::chance(FAULT, 1, 4)) sim::alloc_fail(sim::pick(FAULT, 40));
      try {
        d(dst);
        d(owned2);
        d(chain2);
        sim::alloc_fail(-1);
        for (size_t i = 0; i < src.size(); i++)
          for (size_t j = 0; j < i; j++) SIM_CHECK((src[i] == src[j]) == (dst[i] == dst[j]), "identity-split", "sharing changed");
        std::set<Node*> all;
        for (size_t i = 0; i < chain2.size(); i++) {
          all.insert(chain2[i].get());
          if (i) SIM_CHECK(chain2[i]->a && all.count(chain2[i]->a.get()) && chain2[i]->a->id == chain[i]->a->id, "identity-split", "a link of the chain leads elsewhere");
        }
        SIM_CHECK(all.size() == chain.size(), "identity-merged", "objects of the chain were merged");
      } catch (const std::exception&) {
        if (!sim::alloc_fail_pending()) sim::count_fault(sim::F_BADALLOC);
        sim::alloc_fail(-1);
        sim::probe("decoding-failed-midway");
        // Going on with it makes little sense, but does no damage.
        for (uint32_t n = sim::pick(OPS, 4); n; n--) {
          Unlinker cut;   // whatever was read may be cyclic now
          for (auto& x : chain2) cut(x);
          try {
            std::vector<sp<Alien>> x;
            switch (sim::pick(OPS, 3)) {
              case 0: d(chain2); break;
              case 1: d(owned2); break;
              default: d(x);
            }
          } catch (const std::exception&) {
          }
        }
        Unlinker cut;
        for (auto& x : chain2) cut(x);
      }
    }
    dst.clear();
    owned2.clear();
    chain2.clear();
    SIM_CHECK(g_live == created, "leak", "%d objects read back were never destroyed, or destroyed twice", g_live - created);
  }
  SIM_CHECK(g_live == live, "leak", "%d objects outlive their owners", g_live - live);
}
}  // namespace

SIM_SCENARIO(S06, messages, 30) {
  const int live = g_live;
  if (sim::chance(CFG, 1, 3)) messages<arpc::big_endian_binary_encoder, arpc::big_endian_binary_decoder>();
  else messages<arpc::little_endian_binary_encoder, arpc::little_endian_binary_decoder>();
  SIM_CHECK(g_live <= live, "leak", "%d objects were never destroyed although nothing refers to them", g_live - live);
  SIM_CHECK(g_live >= live, "double-destruction", "%d objects were destroyed twice", live - g_live);
}
SIM_SCENARIO(S06, ownership, 10) {
  if (sim::chance(CFG, 1, 3)) ownership<arpc::big_endian_binary_encoder, arpc::big_endian_binary_decoder>();
  else ownership<arpc::little_endian_binary_encoder, arpc::little_endian_binary_decoder>();
}
