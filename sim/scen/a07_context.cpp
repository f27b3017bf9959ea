#include <algorithm>
#include <map>
#include "arpc/serializable.h"
#include "arpc/semaphore.h"
#include "arpc/binary_codecs.h"
#include "arpc/string_adapters.h"
#include "common.h"
using namespace sc;

namespace a07 {
struct TagA : arpc::dynamic<TagA> { int v = 0; ARPC_FIELDS(v); };
struct TagB : arpc::dynamic<TagB> { int v = 0; ARPC_FIELDS(v); };
#define MANY(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11)
#define X(N) struct More##N : arpc::dynamic<More##N> { int v = 0; ARPC_FIELDS(v); };
MANY(X)
#undef X
}  // namespace a07
namespace arpc {
ARPC_REGISTER(a07::TagA);
ARPC_REGISTER(a07::TagB);
#define X(N) ARPC_REGISTER(a07::More##N);
MANY(X)
#undef X
}  // namespace arpc

namespace {
using tp = arpc::context::time_point;
constexpr uint64_t NEVER = UINT64_MAX;
struct Event { uint64_t b, e; int64_t v; };
struct Node {
  std::unique_ptr<arpc::context> ctx;
  int parent = -1, owner = 0, level = 0;
  uint64_t cb = 0, ce = 0;                    // creation
  std::vector<Event> cancels, deadlines, data;
  int64_t last_deadline = INT64_MAX;
  bool gone = false;
};
struct Tree {
  std::vector<std::unique_ptr<Node>> n;
  std::mutex mu;  // publishes nodes between threads
};
bool may_be_cancelled(Tree& t, int i, uint64_t by) {
  for (; i >= 0; i = t.n[i]->parent) for (auto& c : t.n[i]->cancels) if (c.b < by) return true;
  return false;
}
bool must_be_cancelled(Tree& t, int i, uint64_t by) {
  for (; i >= 0; i = t.n[i]->parent) for (auto& c : t.n[i]->cancels) if (c.e < by) return true;
  return false;
}
int64_t latest_deadline(Tree& t, int i, uint64_t by) {  // the loosest it may be
  int64_t r = INT64_MAX;
  for (auto& d : t.n[i]->deadlines) if (d.e < by) r = std::min(r, d.v);
  return t.n[i]->parent < 0 ? r : std::min(r, latest_deadline(t, t.n[i]->parent, std::min(by, t.n[i]->cb)));
}
int64_t earliest_deadline(Tree& t, int i, uint64_t by) {
  int64_t r = INT64_MAX;
  for (auto& d : t.n[i]->deadlines) if (d.b < by) r = std::min(r, d.v);
  return t.n[i]->parent < 0 ? r : std::min(r, earliest_deadline(t, t.n[i]->parent, std::min(by, t.n[i]->ce)));
}
// Values key A of node i may have had at some moment in [b, e].
void data_candidates(Tree& t, int i, uint64_t b, uint64_t e, std::set<int64_t>& out) {
  auto& n = *t.n[i];
  // The owner sets one value after another, so the last one finished before b
  // and those running in between are possible.
  bool settled = false;
  for (size_t k = n.data.size(); k--;) {
    if (n.data[k].b >= e) continue;
    out.insert(n.data[k].v);
    if (n.data[k].e < b) { settled = true; break; }
  }
  if (settled) return;
  if (n.parent < 0) out.insert(0);
  else data_candidates(t, n.parent, n.cb, n.ce, out);
}
}  // namespace

SIM_SCENARIO(A07, shared_tree, 10) {
  local_faults();
  auto t = std::make_unique<Tree>();
  auto add = [&](int parent, int owner) {
    auto n = std::make_unique<Node>();
    n->parent = parent;
    n->owner = owner;
    n->level = parent < 0 ? 0 : t->n[parent]->level + 1;
    n->cb = sim::seq();
    n->ctx = std::make_unique<arpc::context>(parent < 0 ? arpc::context::current() : *t->n[parent]->ctx, false);
    n->ce = sim::seq();
    std::scoped_lock l(t->mu);
    t->n.push_back(std::move(n));
  };
  { sim::Quiet q; t->n.reserve(64); }
  add(-1, 1);
  add(-1, 2);
  int nt = sim::range(OPS, 2, 4), k = sim::range(OPS, 2, 8);
  int heavy = sim::pick(OPS, 4);  // what this run stresses
  sim::sample("threads=%d ops=%d emphasis=%d ", nt, k, heavy);
  const int64_t base = std::chrono::duration_cast<ms>(std::chrono::system_clock::now().time_since_epoch()).count() + 100000;
  {
    Crew crew;
    for (int me = 1; me <= nt; me++)
      crew.add([&, me] {
        for (int j = 0; j < k; j++) {
          if (sim::chance(OPS, 1, 2)) pause();
          int size;
          { std::scoped_lock l(t->mu); size = t->n.size(); }
          int i = sim::pick(OPS, size);
          Node* n;
          { std::scoped_lock l(t->mu); n = t->n[i].get(); }
          uint32_t w[] = {3, 1, 2, 2, 2, 2, 2, 1};
          if (heavy == 1) w[1] = 4; else if (heavy == 2) w[3] = 6; else if (heavy == 3) w[5] = 6;
          switch (sim::weighted(OPS, {w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7]})) {
            case 0:
              if (size < 20 && n->level < 4) add(i, me);
              break;
            case 1: {
              Event e{sim::seq(), NEVER, 0};
              size_t at;
              { sim::Quiet q; at = n->cancels.size(); n->cancels.push_back(e); }
              sim::count_fault(sim::F_CANCEL);
              n->ctx->cancel();
              { sim::Quiet q; n->cancels[at].e = sim::seq(); }
              break;
            }
            case 2: {
              uint64_t b = sim::seq();
              bool c = n->ctx->is_cancelled();
              uint64_t e = sim::seq();
              sim::Quiet q;
              if (c) sim::probe("seen-cancelled");
              SIM_CHECK(!c || may_be_cancelled(*t, i, e), "spurious-cancel", "a context is cancelled though neither it nor an ancestor was");
              SIM_CHECK(c || !must_be_cancelled(*t, i, b), "cancel-lost", "a context is not cancelled though it or an ancestor was");
              break;
            }
            case 3: {
              int64_t v = base + sim::pick(OPS, 1000);
              size_t at;
              { sim::Quiet q; at = n->deadlines.size(); n->deadlines.push_back(Event{sim::seq(), NEVER, v}); }
              n->ctx->set_deadline(tp(ms(v)));
              { sim::Quiet q; n->deadlines[at].e = sim::seq(); }
              break;
            }
            case 4: {
              uint64_t b = sim::seq();
              auto d = n->ctx->deadline();
              uint64_t e = sim::seq();
              int64_t v = d ? d->time_since_epoch().count() : INT64_MAX;
              sim::Quiet q;
              int64_t lo = earliest_deadline(*t, i, e), hi = latest_deadline(*t, i, b);
              SIM_CHECK(v >= lo && v <= hi, "deadline", "deadline %lld not within [%lld, %lld]", (long long)v, (long long)lo, (long long)hi);
              break;
            }
            case 5: if (n->owner == me) {
              a07::TagA a;
              { sim::Quiet q; static int next; a.v = ++next; n->data.push_back(Event{sim::seq(), NEVER, a.v}); }
              n->ctx->set(std::move(a));
              { sim::Quiet q; n->data.back().e = sim::seq(); }
            } break;
            case 6: if (n->owner != me) {
              SIM_CHECK(n->ctx->get<a07::TagB>().v == 0, "data", "data that was never set is there");
            } else {
              uint64_t b = sim::seq();
              int v = n->ctx->get<a07::TagA>().v;
              uint64_t e = sim::seq();
              SIM_CHECK(n->ctx->get<a07::TagB>().v == 0, "data", "data that was never set is there");
              sim::Quiet q;
              std::set<int64_t> ok;
              data_candidates(*t, i, b, e, ok);
              SIM_CHECK(ok.count(v), "data", "data value %d is neither the context's own nor its parent's when it was created", v);
              if (v) sim::probe("data-inherited-or-own");
            } break;
            case 7: {
              // All of these are far away.
              auto r = outcome([&] { auto [d, tm] = arpc::select(n->ctx->wait_deadline(), arpc::timeout(ms(sim::pick(OPS, 3)))); if (d) *d; return !d; });
              auto left = n->ctx->deadline_left();
              SIM_CHECK(r == DONE || !left || left->count() <= 0, "deadline", "waiting for a deadline %lldms ahead gave %d", left ? (long long)left->count() : -1LL, r);
            } break;
          }
        }
      });
  }
  // Settled: exactly the descendants of cancelled contexts are cancelled.
  for (int i = 0; i < (int)t->n.size(); i++) {
    auto& n = *t->n[i];
    uint64_t now = sim::seq();
    bool want = must_be_cancelled(*t, i, now);
    SIM_CHECK(n.ctx->is_cancelled() == want, want ? "cancel-lost" : "spurious-cancel", "node %d cancelled=%d", i, n.ctx->is_cancelled());
    bool woken = false;
    {
      auto r = outcome([&] { auto [c, tm] = arpc::select(n.ctx->wait_cancelled(), arpc::timeout(ms(0))); if (c) *c; return bool(c); });
      woken = r == CANCELED;
      SIM_CHECK(woken || r == TIMEOUT, "cancel-wait", "outcome %d", r);
    }
    SIM_CHECK(woken == want, "cancel-wait", "waiting for cancellation: %d, expected %d", woken, want);
    auto d = n.ctx->deadline();
    int64_t v = d ? d->time_since_epoch().count() : INT64_MAX;
    SIM_CHECK(v >= earliest_deadline(*t, i, now) && v <= latest_deadline(*t, i, now), "deadline", "final deadline of node %d", i);
  }
  // Destroy in an order where parents may go first: they must wait for their children.
  {
    Crew crew;
    for (int level = 0; level < 5; level++)
      crew.add([&, level] {
        for (int i = 0; i < (int)t->n.size(); i++) {
          auto& n = *t->n[i];
          if (n.level != level) continue;
          if (sim::chance(OPS, 1, 3)) pause();
          { sim::Quiet q; n.gone = true; }
          n.ctx.reset();
          sim::Quiet q;
          for (auto& c : t->n) SIM_CHECK(c->parent != i || c->gone, "parent-first", "a context was destroyed before its child");
        }
      });
  }
  SIM_CHECK(!arpc::context::current().is_cancelled(), "spurious-cancel", "the root context is cancelled");
}

// Threads started under contexts, shields and nested scopes.
SIM_SCENARIO(A07, threads, 6) {
  local_faults();
  int n = sim::range(OPS, 1, 4);
  bool deep = sim::chance(OPS, 1, 2);
  int how = sim::pick(OPS, 3);  // cancel, deadline, destroy
  sim::sample("threads=%d nested=%d end=%d ", n, deep, how);
  auto* root = &arpc::context::current();
  int running = 0, ended = 0, daemon_hit = 0;
  std::mutex m;
  arpc::semaphore up(100), daemon_go(1);
  auto work = [&](int tag, int64_t dl, auto&& self, int depth) -> void {
    arpc::context& mine = arpc::context::current();
    SIM_CHECK(mine.get<a07::TagA>().v == tag, "data", "thread sees data %d instead of its starter's %d", mine.get<a07::TagA>().v, tag);
    auto d = mine.deadline();
    SIM_CHECK((d ? d->time_since_epoch().count() : INT64_MAX) == dl, "deadline", "thread does not work under its starter's deadline");
    {
      // Private changes stay private.
      arpc::context inner;
      a07::TagA a;
      a.v = tag + 1000;
      inner.set(a);
      SIM_CHECK(arpc::context::current().get<a07::TagA>().v == tag + 1000, "data", "own data not visible");
      arpc::shield sh;
      SIM_CHECK(&arpc::context::current() == &sh, "current", "shield is not current");
      SIM_CHECK(sh.get<a07::TagA>().v == tag + 1000, "data", "a shield keeps the data");
      SIM_CHECK(sh.deadline() == inner.deadline(), "deadline", "a shield keeps the deadline");
      inner.cancel();
      SIM_CHECK(inner.is_cancelled() && !sh.is_cancelled(), "shield", "a shield does not stop cancellation");
      if (dl == INT64_MAX) {
        auto r = outcome([&] { auto [t] = arpc::select(arpc::timeout(ms(0))); return bool(t); });
        SIM_CHECK(r == DONE, "shield", "a wait behind a shield reported %d", r);
      }
      arpc::context below;
      SIM_CHECK(!below.is_cancelled(), "shield", "a context below a shield is cancelled");
      {
        // Working under a context other than the current one, for a while.
        arpc::context aside(sim::chance(OPS, 1, 2) ? arpc::context::top() : mine, false);
        {
          arpc::context under(aside);
          SIM_CHECK(&arpc::context::current() == &under, "current", "a new context is not current");
          arpc::context unused(under, false);
          SIM_CHECK(&arpc::context::current() == &under, "current", "a context became current unasked");
        }
        SIM_CHECK(&arpc::context::current() == &below, "current", "the current context was not restored");
        aside.cancel();
        SIM_CHECK(!below.is_cancelled(), "spurious-cancel", "cancelling another context cancelled the current one");
      }
    }
    SIM_CHECK(&arpc::context::current() == &mine, "current", "the current context was not restored");
    SIM_CHECK(mine.get<a07::TagA>().v == tag, "data", "a child's data leaked into its parent");
    { std::scoped_lock l(m); running++; }
    auto end = [&] { std::scoped_lock l(m); ended++; };
    if (depth > 0) {
      arpc::thread t([&, depth] { self(tag, dl, self, depth - 1); });
      try { up.put(); arpc::wait(arpc::never()); } catch (...) { end(); t.join(); throw; }
    }
    try { up.put(); arpc::wait(arpc::never()); } catch (...) { end(); throw; }
    sim::fail("wait-outcome", "never() ended");
  };
  int total = n * (deep ? 2 : 1);
  {
    arpc::daemon_thread dt;
    {
      auto ctx = std::make_unique<arpc::context>();
      SIM_CHECK(&arpc::context::current() == ctx.get(), "current", "a new context is not current");
      a07::TagA a;
      a.v = 7;
      ctx->set(a);
      int64_t dl = INT64_MAX;
      if (how == 1) {
        ctx->set_timeout(ms(sim::range(OPS, 1, 30)));
        dl = ctx->deadline()->time_since_epoch().count();
        ctx->set_timeout(std::chrono::hours(5));  // cannot extend
      }
      std::vector<arpc::thread> ts;
      for (int i = 0; i < n; i++) ts.emplace_back([&, dl] { work(7, dl, work, deep ? 1 : 0); });
      dt = arpc::daemon_thread([&] {
        SIM_CHECK(arpc::context::current().get<a07::TagA>().v == 0 && !arpc::context::current().deadline(), "daemon", "a daemon thread works under its starter's context");
        daemon_go.get();
        daemon_hit++;
      });
      a.v = 8;
      ctx->set(a);
      if (how != 1) {
        if (sim::chance(OPS, 1, 2)) { for (int i = 0; i < total; i++) up.get(); }
        pause();
        SIM_CHECK(ended == 0, "ended-early", "a thread ended before anything was cancelled");
        if (how == 0) {
          if (sim::chance(OPS, 1, 2)) ctx->cancel();
          else for (auto& t : ts) t.get_context().cancel();
          sim::count_fault(sim::F_CANCEL);
        } else {
          // Threads never outlive the scope they were started from: destroying
          // it cancels them and waits until they are gone.
          int joined = 0;
          Crew reaper;
          reaper.add([&] {
            for (auto& t : ts) { if (sim::chance(OPS, 1, 3)) pause(); t.join(); sim::Quiet q; joined++; }
            { std::scoped_lock l(m); SIM_CHECK(ended == running, "thread-outcome", "%d of %d threads noticed", ended, running); }
            ts.clear();
          });
          if (sim::chance(OPS, 1, 2)) pause();
          sim::count_fault(sim::F_CANCEL);
          ctx.reset();
          sim::Quiet q;
          SIM_CHECK(joined == n, "thread-outlives", "a context was destroyed while threads started from it remain");
        }
      }
      for (auto& t : ts) t.join();
      std::scoped_lock l(m);
      SIM_CHECK(ended == running, "thread-outcome", "%d of %d threads noticed", ended, running);
      SIM_CHECK(deep || running == n, "thread-outcome", "%d of %d threads ran", running, n);
    }
    SIM_CHECK(daemon_hit == 0, "daemon", "cancelling its starter's context stopped a daemon thread");
    bool stop = sim::chance(OPS, 1, 3);
    if (stop) dt.get_context().cancel(); else daemon_go.put();
    dt.join();
    SIM_CHECK(daemon_hit == !stop, "daemon", "the daemon thread was %s", stop ? "not interrupted" : "interrupted");
  }
  SIM_CHECK(&arpc::context::current() == root && !root->is_cancelled(), "current", "the current context was not restored");
}

namespace {
using Values = std::array<int, 12>;
void set_one(arpc::context& c, int i, int v) {
#define X(N) case N: { a07::More##N m; m.v = v; c.set(std::move(m)); break; }
  switch (i) { MANY(X) }
#undef X
}
Values values(const arpc::context& c) {
#define X(N) c.get<a07::More##N>().v,
  return Values{MANY(X)};
#undef X
}
}  // namespace

// Many contexts below one, deep and broad, with much data; all of it in one thread.
SIM_SCENARIO(A07, crowd, 3) {
  struct Kid {
    std::unique_ptr<arpc::context> ctx;
    int parent;
    bool cut;          // nothing from above reaches it
    bool cancelled = false;
    Values v{};
  };
  std::vector<Kid> kids;
  int n = few(2, 40, 200), shape = sim::pick(OPS, 3);
  arpc::context base;
  for (int i = 0; i < n; i++) {
    Kid k;
    k.parent = i == 0 ? -1 : shape == 0 ? i - 1 - (int)sim::pick(OPS, std::min(i, 2)) : shape == 1 ? (int)sim::pick(OPS, std::min(i, 3)) : (int)sim::pick(OPS, i);
    k.cut = sim::chance(OPS, 1, 10);
    arpc::context& up = k.parent < 0 ? base : *kids[k.parent].ctx;
    if (k.parent >= 0) k.v = kids[k.parent].v;
    k.ctx = std::make_unique<arpc::context>(up, false, k.cut);
    if (!k.cut && k.parent >= 0 && kids[k.parent].cancelled) k.cancelled = true;
    for (int j = sim::weighted(OPS, {2, 1, 1}) == 2 ? 12 : (int)sim::pick(OPS, 3); j; j--) {
      int w = sim::pick(OPS, 12), v = 1 + sim::pick(OPS, 1000);
      set_one(*k.ctx, w, v);
      k.v[w] = v;
    }
    if (sim::chance(OPS, 1, 30)) { k.ctx->reset_all(); k.v = Values{}; }
    kids.push_back(std::move(k));
    if (sim::chance(OPS, 1, 20)) {
      int c = sim::pick(OPS, (uint32_t)kids.size());
      kids[c].ctx->cancel();
      kids[c].cancelled = true;
      for (size_t j = c + 1; j < kids.size(); j++) if (kids[j].parent >= 0 && kids[kids[j].parent].cancelled && !kids[j].cut) kids[j].cancelled = true;
      sim::count_fault(sim::F_CANCEL);
    }
  }
  sim::sample("%d contexts, shape %d ", n, shape);
  for (int round = 0; round < 2; round++) {
    for (int i = 0; i < n; i++) {
      auto& k = kids[i];
      SIM_CHECK(k.ctx->is_cancelled() == k.cancelled, k.cancelled ? "cancel-lost" : "spurious-cancel", "context %d of %d, below %d, is %s", i, n, k.parent, k.cancelled ? "not cancelled though one above it was" : "cancelled");
      SIM_CHECK(values(*k.ctx) == k.v, "data", "context %d of %d does not have the data it was given or born with", i, n);
    }
    if (round) break;
    // One context in another process: what is left of its time, its data, and whether it is cancelled.
    auto& k = kids[sim::pick(OPS, n)];
    int64_t left = INT64_MAX;
    if (sim::pick(OPS, 2)) {
      static const int64_t spans[] = {0, 1, 999, 60000, 3600000, 86400000LL * 8, 86400000LL * 365, 86400000LL * 30000, 1LL << 31, 1LL << 32};
      left = spans[sim::pick(OPS, 10)];
      k.ctx->set_timeout(ms(left));
    }
    std::string wire;
    { arpc::string_output_stream out(wire); arpc::little_endian_binary_encoder e(out); e(*k.ctx); }
    {
      arpc::context there;
      auto t0 = std::chrono::system_clock::now();
      { arpc::string_input_stream in(wire); arpc::little_endian_binary_decoder d(in); d(there); }
      SIM_CHECK(there.is_cancelled() == k.cancelled, k.cancelled ? "cancel-lost" : "spurious-cancel", "a context %scancelled is the opposite after travelling", k.cancelled ? "" : "not ");
      SIM_CHECK(values(there) == k.v, "data", "a context has other data after travelling");
      auto dl = there.deadline();
      SIM_CHECK(bool(dl) == (left != INT64_MAX), "deadline", "a context %s a deadline after travelling", dl ? "has" : "lost");
      if (dl) {
        auto d = std::chrono::duration_cast<ms>(*dl - t0).count();
        SIM_CHECK(d <= left + 1 && d >= left - 10, "deadline", "%lld ms were left before travelling, %lld after", (long long)left, (long long)d);
      }
    }
    // What is cancelled last reaches all that is left.
    int c = sim::pick(OPS, 2) ? 0 : sim::pick(OPS, n);
    kids[c].ctx->cancel();
    kids[c].cancelled = true;
    for (int j = c + 1; j < n; j++) if (kids[j].parent >= 0 && kids[kids[j].parent].cancelled && !kids[j].cut) kids[j].cancelled = true;
    sim::count_fault(sim::F_CANCEL);
  }
  SIM_CHECK(!base.is_cancelled(), "spurious-cancel", "cancelling a context cancelled the one above it");
  while (!kids.empty()) kids.pop_back();
}
