#include "arpc/queue.h"
#include "common.h"
using namespace sc;

namespace {
struct Tok {  // move-only payload that counts its live copies
  int v = 0;
  static int live;
  Tok() { sim::Quiet q; ++live; }
  explicit Tok(int x) : v(x) { sim::Quiet q; ++live; }
  Tok(Tok&& o) noexcept : v(o.v) { o.v = 0; sim::Quiet q; ++live; }
  Tok& operator=(Tok&& o) noexcept { v = o.v; o.v = 0; return *this; }
  ~Tok() { sim::Quiet q; --live; }
};
int Tok::live = 0;

bool queue_model(std::string& s, const Op& o, size_t cap) {
  if (o.name == "put") { if (s.size() >= cap) return false; s += (char)o.arg; return true; }
  if (o.name == "put_full") return s.size() >= cap;
  if (o.name == "get") { if (s.empty() || (unsigned char)s[0] != (unsigned char)o.res) return false; s.erase(0, 1); return true; }
  if (o.name == "get_empty") return s.empty();
  if (o.name == "size") return (size_t)o.res == s.size();
  if (o.name == "empty") return (o.res != 0) == s.empty();
  if (o.name == "full") return (o.res != 0) == (s.size() >= cap);
  return false;
}
}  // namespace

SIM_SCENARIO(A03, linearizable, 10) {
  local_faults();
  size_t cap = sim::weighted(OPS, {1, 3, 3, 2});
  if (cap == 0) cap = SIZE_MAX;
  auto q = std::make_unique<arpc::queue<Tok>>(cap);
  History h;
  CancelHub hub;
  int n = sim::range(OPS, 2, 4), k = sim::range(OPS, 1, 4), next = 0;
  bool cancels = sim::chance(OPS, 1, 2);
  sim::sample("capacity=%zd threads=%d ops=%d cancels=%d ", (ssize_t)cap, n, k, cancels);
  SIM_CHECK(q->max_size() == cap && q->capacity() == cap, "capacity", "wrong capacity");
  {
    Crew crew;
    for (int i = 0; i < n; i++)
      crew.add([&, k] {
        for (int j = 0; j < k; j++) {
          pause();
          Scope s(hub);
          switch (sim::weighted(OPS, {4, 4, 2, 2, 1, 1, 1, 3, 3})) {
            case 0: {  // try to put
              int id; { sim::Quiet qq; id = ++next; }
              Tok t(id);
              int o = h.begin("put", id);
              auto r = outcome([&] { q->maybe_put(std::move(t)); return true; });
              if (r == DONE) h.end(o);
              else {
                SIM_CHECK(r == AGAIN, "put-outcome", "maybe_put: outcome %d", r);
                SIM_CHECK(t.v == id, "item-consumed", "a failed put consumed its argument");
                h.ops[o].name = "put_full"; h.end(o);
              }
              break;
            }
            case 1: {  // try to get
              int o = h.begin("get");
              Tok t;
              auto r = outcome([&] { t = q->maybe_get(); return true; });
              if (r == DONE) h.end(o, t.v);
              else { SIM_CHECK(r == AGAIN, "get-outcome", "maybe_get: outcome %d", r); h.ops[o].name = "get_empty"; h.end(o); }
              break;
            }
            case 2: case 7: {  // blocking put, given up by timeout, deadline or cancellation
              int id; { sim::Quiet qq; id = ++next; }
              int o = h.begin("put", id);
              bool dl = sim::chance(OPS, 1, 2);
              if (dl) s.ctx.set_timeout(ms(sim::pick(OPS, 4)));
              auto r = outcome([&] {
                if (dl) { q->put(Tok(id)); h.end(o); return true; }
                auto [p, t] = arpc::select(q->async_put(Tok(id)), arpc::timeout(ms(sim::pick(OPS, 4))));
                if (!p) { *t; return false; }
                *p;
                h.end(o);
                return true;
              });
              if (r != DONE) {
                SIM_CHECK(r == TIMEOUT || (r == CANCELED && s.ctx.is_cancelled()) || (r == LATE && dl), "put-outcome", "outcome %d", r);
                h.drop(o);
              }
              break;
            }
            case 3: case 8: {
              int o = h.begin("get");
              bool dl = sim::chance(OPS, 1, 2);
              if (dl) s.ctx.set_timeout(ms(sim::pick(OPS, 4)));
              auto r = outcome([&] {
                if (dl) { Tok t = q->get(); h.end(o, t.v); return true; }
                auto [g, t] = arpc::select(q->async_get(), arpc::timeout(ms(sim::pick(OPS, 4))));
                if (!g) { *t; return false; }
                h.end(o, g->v);
                return true;
              });
              if (r != DONE) {
                SIM_CHECK(r == TIMEOUT || (r == CANCELED && s.ctx.is_cancelled()) || (r == LATE && dl), "get-outcome", "outcome %d", r);
                h.drop(o);
              }
              break;
            }
            case 4: { int o = h.begin("size"); h.end(o, q->size()); break; }
            case 5: { int o = h.begin("empty"); h.end(o, q->empty()); break; }
            case 6: { int o = h.begin("full"); h.end(o, q->full()); break; }
          }
        }
      });
    if (cancels) crew.add([&] { for (int j = sim::range(OPS, 1, 6); j; j--) { pause(); hub.cancel_one(); } });
  }
  // Drain, observing the size on the way.
  while (true) {
    int o = h.begin("size"); h.end(o, q->size());
    o = h.begin("empty"); h.end(o, q->empty());
    o = h.begin("get");
    Tok t;
    auto r = outcome([&] { t = q->maybe_get(); return true; });
    if (r == DONE) { h.end(o, t.v); continue; }
    h.ops[o].name = "get_empty"; h.end(o);
    break;
  }
  // Conservation, always; linearizability, while the history is small.
  std::multiset<int64_t> in, out;
  for (auto& o : h.ops) { if (o.name == "put") in.insert(o.arg); if (o.name == "get") out.insert(o.res); }
  SIM_CHECK(in == out, "item-lost-or-duplicated", "items put and items got differ:%s", h.text().c_str());
  SIM_CHECK(linearizable(h, "", [&](std::string& s, const Op& o) { return queue_model(s, o, cap); }), "not-linearizable",
            "no order of these operations fits a FIFO of capacity %zd:%s", (ssize_t)cap, h.text().c_str());
  q.reset();
  SIM_CHECK(Tok::live == 0, "item-leak", "%d payload objects alive after the queue is gone", Tok::live);
}

// Balanced blocking producers and consumers: nobody may be left waiting, items
// arrive exactly once and in each producer's order.
SIM_SCENARIO(A03, pipeline, 6) {
  local_faults();
  size_t cap = sim::range(OPS, 1, 4);
  if (sim::chance(OPS, 1, 5)) cap = SIZE_MAX;
  auto q = std::make_unique<arpc::queue<std::pair<int, int>>>(cap);
  int np = sim::range(OPS, 1, 3), nc = sim::range(OPS, 1, 3), per = sim::range(OPS, 1, 8);
  int total = np * per;
  sim::sample("capacity=%zd producers=%d consumers=%d items=%d ", (ssize_t)cap, np, nc, total);
  std::vector<std::vector<std::pair<int, int>>> got(nc);
  {
    Crew crew;
    for (int p = 0; p < np; p++)
      crew.add([&, p] { for (int i = 0; i < per; i++) { if (sim::chance(OPS, 1, 4)) pause(); q->put(std::make_pair(p, i)); } });
    for (int c = 0; c < nc; c++) {
      int quota = total / nc + (c < total % nc);
      crew.add([&, c, quota] {
        for (int i = 0; i < quota; i++) {
          if (sim::chance(OPS, 1, 4)) pause();
          got[c].push_back(q->get());
          SIM_CHECK(q->size() <= cap, "over-capacity", "size %zu > %zu", q->size(), cap);
        }
      });
    }
  }
  SIM_CHECK(q->size() == 0 && q->empty(), "not-empty", "every item was consumed but size is %zu, empty() is %d", q->size(), q->empty());
  std::set<std::pair<int, int>> all;
  for (auto& g : got) {
    std::vector<int> last(np, -1);
    for (auto& x : g) {
      SIM_CHECK(all.insert(x).second, "duplicate", "item %d/%d delivered twice", x.first, x.second);
      SIM_CHECK(x.second > last[x.first], "reordered", "one consumer saw items of a producer out of order");
      last[x.first] = x.second;
    }
  }
  SIM_CHECK((int)all.size() == total, "lost", "%zu of %d items delivered", all.size(), total);
}

// Up to thousands of items at once, by one thread or one at either end: nothing
// gets lost, duplicated or overtaken, and the bounds are where they should be.
SIM_SCENARIO(A03, bulk, 1) {
  static const uint32_t caps[] = {1, 7, 64, 100, 128, 255, 256, 257, 1000, 1024, 5000};
  size_t cap = caps[sim::pick(OPS, 11)];
  if (sim::chance(OPS, 1, 4)) cap = SIZE_MAX;
  arpc::queue<Tok>* q = new arpc::queue<Tok>(cap);
  int put = 0, got = 0;
  size_t deepest = 0;
  for (int phase = sim::range(OPS, 2, 6); phase; phase--) {
    int k = sim::weighted(OPS, {3, 2, 1}) == 0 ? sim::range(OPS, 1, 20) : sim::range(OPS, 1, 1500);
    bool in = sim::pick(OPS, 3), waits = sim::pick(OPS, 4) == 0;
    sim::note("%d times %s, %zu there", k, in ? "put" : "get", q->size());
    for (int i = 0; i < k; i++) {
      size_t n = put - got;
      if (in) {
        Tok t(put + 1);
        auto r = n < cap && waits && i < 50 ? outcome([&] { q->put(std::move(t)); return true; }) : outcome([&] { q->maybe_put(std::move(t)); return true; });
        SIM_CHECK(r == (n < cap ? DONE : AGAIN), n < cap ? "refused-with-room" : "over-capacity", "putting into a queue of %zu with %zu items: outcome %d", cap, n, r);
        if (r != DONE) break;
        put++;
      } else {
        Tok t;
        auto r = n && waits && i < 50 ? outcome([&] { t = q->get(); return true; }) : outcome([&] { t = q->maybe_get(); return true; });
        SIM_CHECK(r == (n ? DONE : AGAIN), n ? "item-lost-or-duplicated" : "made-up-item", "getting from a queue with %zu items: outcome %d", n, r);
        if (r != DONE) break;
        SIM_CHECK(t.v == ++got, "not-linearizable", "item %d came out in place of item %d", t.v, got);
      }
    }
    size_t n = put - got;
    deepest = std::max(deepest, n);
    SIM_CHECK(q->size() == n && q->empty() == (n == 0) && q->full() == (n >= cap), "not-linearizable", "a queue with %zu items of %zu says %zu, empty %d, full %d", n, cap, q->size(), q->empty(), q->full());
    // Whoever waits for it is told the same.
    auto [g, p] = arpc::select(q->can_get(), q->can_put());
    SIM_CHECK(bool(g) == (n > 0) && bool(p) == (n < cap), "wrong-readiness", "a queue with %zu items of %zu can be got from: %d, put into: %d", n, cap, bool(g), bool(p));
  }
  sim::sample("capacity=%zd put=%d got=%d at most %zu ", (ssize_t)cap, put, got, deepest);
  if (sim::pick(OPS, 2)) {
    // The rest goes to another thread while more comes.
    int more = sim::range(OPS, 1, 300), from = got;
    Crew crew;
    crew.add([&, more] { for (int i = 1; i <= more; i++) q->put(Tok(put + i)); });
    crew.add([&, more] {
      for (int i = from + 1; i <= put + more; i++) {
        Tok t = q->get();
        SIM_CHECK(t.v == i, "not-linearizable", "item %d came out in place of item %d", t.v, i);
      }
    });
  }
  delete q;
  SIM_CHECK(Tok::live == 0, "item-leak", "%d payload objects alive after the queue is gone", Tok::live);
}
