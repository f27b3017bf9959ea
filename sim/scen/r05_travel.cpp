#include "rpc.h"
using namespace rpc;

namespace {
constexpr int64_t MS = 1000000;
void timely() {
  rpc_faults();
  sim::faults().stall = 0;
  if (sim::faults().sndbuf < 400) sim::faults().sndbuf = 400;
}
void skew(int node) {
  static const int64_t big[] = {0, 1, 999, 1000, 60000, 3600000, 86400000LL * 365, 86400000LL * 365 * 20};
  int64_t d = big[sim::pick(CFG, 8)] * MS + (sim::pick(CFG, 2) ? sim::pick(CFG, 1000000) : 0);
  if (sim::pick(CFG, 2)) d = -d;
  if (d) { sim::clock_jump(node, d); sim::count_fault(sim::F_CLOCK_SKEW); }
}
struct Data { int64_t token = 0; std::string text, lang; };
// Puts something into the current context, over what is there already.
void dress(Data& d) {
  auto& ctx = arpc::context::current();
  if (sim::pick(OPS, 3)) {
    Trace t;
    t.token = 1 + sim::pick(OPS, 1000000);
    t.text = fill(t.token, sim::pick(OPS, 2) ? 0 : sim::pick(OPS, 300));
    { sim::Quiet q; d.token = t.token; d.text = t.text; }
    ctx.set(t);
  } else if (sim::chance(OPS, 1, 4)) { ctx.reset<Trace>(); d.token = 0; d.text.clear(); }
  if (sim::pick(OPS, 3) == 0) {
    Locale l;
    l.lang = "l" + std::to_string(sim::pick(OPS, 1000));
    { sim::Quiet q; d.lang = l.lang; }
    ctx.set(l);
  } else if (sim::chance(OPS, 1, 8)) { ctx.reset_all(); d = Data(); }
}
void same_data(int64_t t, const Exec& e, const Data& d) {
  SIM_CHECK(e.trace == d.token && e.trace_text == d.text, "wrong-data", "the handler of %lld saw trace %lld instead of %lld", (long long)t, (long long)e.trace, (long long)d.token);
  SIM_CHECK(e.lang == d.lang, "wrong-data", "the handler of %lld saw language '%s' instead of '%s'", (long long)t, e.lang.c_str(), d.lang.c_str());
}
// A deadline that a caller has by its own clock, as true time; none: -1.
constexpr int64_t NONE = INT64_MAX;
int64_t current_deadline() {
  auto d = arpc::context::current().deadline();
  return d ? true_deadline(sim::node(), *d) : NONE;
}
}  // namespace

// Clients and servers whose clocks have nothing to do with each other.
SIM_SCENARIO(R05, skewed, 14) {
  timely();
  World w;
  publish(1);
  // Data of the process itself, on both sides; what callers have takes its place.
  Data base;
  if (sim::chance(CFG, 1, 3)) {
    Locale l;
    l.lang = base.lang = "process";
    arpc::context::top().set(l);
  }
  int nclients = sim::range(CFG, 1, 2);
  skew(1);
  for (int i = 0; i < nclients; i++) skew(10 + i);
  std::optional<ms> srv_timeout;
  if (sim::pick(CFG, 2)) srv_timeout = ms(sim::pick(CFG, 2) ? 1 + sim::pick(CFG, 300) : 1000 + sim::pick(CFG, 100000));
  auto so = server_options(8, -1, srv_timeout);
  so.request_timeout = srv_timeout;
  ServerNode server(w, 1, 0, so);
  std::vector<std::unique_ptr<Client>> clients;
  for (int i = 0; i < nclients; i++) on(10 + i, [&] { clients.push_back(std::make_unique<Client>(place(1))); });
  {
    Crew crew;
    for (int c = 0; c < nclients; c++)
      for (int k = sim::range(OPS, 1, 3); k; k--) crew.add([&, c] {
        sim::set_node(10 + c);
        arpc::client_options co;
        int64_t cto = NONE;
        if (sim::pick(OPS, 3) == 0) { co.request_timeout.reset(); }
        else if (sim::pick(OPS, 2)) co.request_timeout = ms(1000 + sim::pick(OPS, 1000000));
        if (co.request_timeout) cto = co.request_timeout->count() * MS;
        auto p = clients[c]->get_proxy<Worker>("worker", co);
        auto as = clients[c]->get_proxy<Worker::async>("worker", co);
        Data d = base;
        arpc::context outer;
        dress(d);
        if (sim::chance(OPS, 1, 3)) outer.set_timeout(ms(200 + sim::pick(OPS, 100000)));
        for (int n = sim::range(OPS, 1, 4); n; n--) {
          Data dd = d;
          arpc::context inner;
          dress(dd);
          if (sim::pick(OPS, 2)) inner.set_timeout(ms(sim::pick(OPS, 2) ? 100 + sim::pick(OPS, 400) : 1000 + sim::pick(OPS, 20000)));
          int64_t D = current_deadline();
          int64_t t = w.token();
          Job j;
          j.how = sim::pick(OPS, 2);
          j.ms = j.how ? sim::pick(OPS, 4) : 0;
          j.size = sim::pick(OPS, 200);
          std::string payload = payload_of(t, 2000), got;
          bool async = sim::pick(OPS, 2);
          Result r = attempt([&] {
            if (async) { auto f = as.work(t, j, payload).first; got = f.get(); }
            else got = p.work(t, j, payload);
          });
          Exec e = w.get(t);
          if (!r.ok) {
            // One that gives up while sending breaks the connection for the others.
            if (r.kind == "io_error" || r.kind == "eof" || r.kind == "shutting_down") { sim::probe("connection-lost"); continue; }
            SIM_CHECK(r.kind == "deadline_exceeded", "wrong-error", "call %lld failed with %s: %s", (long long)t, r.kind.c_str(), r.what.c_str());
            int64_t least = std::min(D, r.t0 + std::min<int64_t>(cto, 1LL << 60));
            if (srv_timeout) least = std::min<int64_t>(least, r.t0 + srv_timeout->count() * MS);
            SIM_CHECK(r.t1 >= least - 3 * MS, "early-deadline", "call %lld failed %lld ms before any deadline", (long long)t, (long long)((least - r.t1) / MS));
            sim::probe("expired");
            if (!e.runs) continue;
          } else SIM_CHECK(got == answer(t, j, payload), "wrong-reply", "call %lld got a wrong reply", (long long)t);
          SIM_CHECK(e.runs == 1, "run-count", "call %lld ran %d times", (long long)t, e.runs);
          same_data(t, e, dd);
          // The time left.
          bool any = D != NONE || cto != NONE || srv_timeout;
          SIM_CHECK(e.has_deadline == any, "wrong-deadline", "the handler of %lld had %s deadline", (long long)t, any ? "no" : "a");
          if (!any) { sim::probe("no-deadline"); continue; }
          int64_t transit = e.start - r.t0;
          int64_t least = D, most = NONE;
          if (D != NONE) most = D + transit;
          if (cto != NONE) { least = std::min(least, r.t0 + cto); most = std::min(most, r.t0 + cto + transit); }
          if (srv_timeout) { least = std::min<int64_t>(least, r.t0 + srv_timeout->count() * MS); most = std::min<int64_t>(most, e.start + srv_timeout->count() * MS); }
          SIM_CHECK(e.deadline >= least - 3 * MS, "wrong-deadline", "the handler of %lld was left %lld ms less than its caller", (long long)t, (long long)((least - e.deadline) / MS));
          SIM_CHECK(e.deadline <= most + MS, "wrong-deadline", "the handler of %lld was given %lld ms more than its caller", (long long)t, (long long)((e.deadline - most) / MS));
          sim::probe("deadline-compared");
        }
      });
  }
}

// Deadlines so far away that arithmetic with them needs care.
SIM_SCENARIO(R05, distant, 3) {
  timely();
  World w;
  publish(1);
  skew(1);
  skew(10);
  auto so = server_options(4);
  if (sim::chance(CFG, 1, 3)) so.request_timeout = ms::max();
  ServerNode server(w, 1, 0, so);
  sim::set_node(10);
  Client client(place(1));
  static const int64_t far[] = {INT64_MAX, INT64_MAX - 1, INT64_MAX / 2, INT64_MAX / 1000000, INT64_MAX / 1000000 + 1, 1LL << 40, 86400000LL * 365 * 100};
  for (int n = sim::range(OPS, 1, 4); n; n--) {
    arpc::client_options co;
    co.request_timeout.reset();
    if (sim::pick(OPS, 2)) co.request_timeout = ms(far[sim::pick(OPS, 7)]);
    arpc::context ctx;
    int how = sim::pick(OPS, 3);
    if (how == 1) ctx.set_timeout(ms(far[sim::pick(OPS, 7)]));
    if (how == 2) ctx.set_deadline(arpc::context::time_point(ms(far[sim::pick(OPS, 5)])));
    bool past = sim::chance(OPS, 1, 8);
    if (past) { if (sim::pick(OPS, 2)) ctx.set_deadline(arpc::context::time_point(ms(INT64_MIN + sim::pick(OPS, 2)))); else ctx.set_timeout(ms(INT64_MIN + sim::pick(OPS, 2))); }
    bool any = how || co.request_timeout || past || so.request_timeout;
    int64_t t = w.token(), got = 0;
    Job j;
    Result r = attempt([&] { if (sim::pick(OPS, 2)) got = client.get_proxy<Worker>("worker", co).ping(t); else got = client.get_proxy<Worker::async>("worker", co).ping(t).first.get(); });
    Exec e = w.get(t);
    if (past) { if (!r.ok) SIM_CHECK(r.kind == "deadline_exceeded", "wrong-error", "call %lld failed with %s: %s", (long long)t, r.kind.c_str(), r.what.c_str()); sim::probe("long-past"); continue; }
    SIM_CHECK(r.ok, "wrong-error", "call %lld failed with %s: %s although its deadline is far", (long long)t, r.kind.c_str(), r.what.c_str());
    SIM_CHECK(got == t * 3 + 1, "wrong-reply", "call %lld got a wrong reply", (long long)t);
    SIM_CHECK(e.runs == 1, "run-count", "call %lld ran %d times", (long long)t, e.runs);
    SIM_CHECK(e.has_deadline == any, "wrong-deadline", "the handler of %lld had %s deadline", (long long)t, any ? "no" : "a");
    if (any) SIM_CHECK(e.deadline > e.start + 3590 * 1000 * MS, "wrong-deadline", "the handler of %lld was left too little time", (long long)t);
    sim::probe("far-deadline");
  }
}

// Deadlines about to pass, passing or long past when the call is made.
SIM_SCENARIO(R05, brink, 8) {
  timely();
  World w;
  publish(1);
  skew(1);
  skew(10);
  int callers = sim::range(OPS, 1, 3);
  ServerNode server(w, 1, 0, server_options(8));
  sim::set_node(10);
  Client client(place(1));
  { int64_t t = w.token(); SIM_CHECK(client.get_proxy<Worker>("worker").ping(t) == t * 3 + 1, "wrong-reply", "the first call got a wrong reply"); }
  struct Made { int64_t t, D, t0; Data d; };
  std::vector<Made> made;
  std::mutex mu;
  {
    Crew crew;
    for (int k = 0; k < callers; k++) crew.add([&] {
      sim::set_node(10);
      for (int n = sim::range(OPS, 2, 8); n; n--) {
        Made m;
        arpc::context ctx;
        dress(m.d);
        arpc::client_options co;
        if (sim::pick(OPS, 2)) co.request_timeout.reset();
        static const int lefts[] = {0, 1, 2, 3, 5, -1, -2, -10, -1000, -100000};
        ctx.set_timeout(ms(lefts[sim::pick(OPS, 10)]));
        // Close to the turn of a millisecond, of either clock.
        if (sim::pick(OPS, 2)) sim::sleep_us(sim::pick(OPS, 2500));
        m.D = current_deadline();
        m.t = w.token();
        m.t0 = sim::now_ns();
        Job j;
        auto p = client.get_proxy<Worker>("worker", co);
        auto as = client.get_proxy<Worker::async>("worker", co);
        bool async = sim::pick(OPS, 2);
        std::string got, payload = payload_of(m.t, 200);
        Result r = attempt([&] {
          if (async) { auto f = as.work(m.t, j, payload).first; arpc::context free(arpc::context::top()); got = f.get(); }
          else got = p.work(m.t, j, payload);
        });
        if (r.ok) { SIM_CHECK(got == answer(m.t, j, payload), "wrong-reply", "call %lld got a wrong reply", (long long)m.t); sim::probe("in-time"); }
        else if (r.kind == "deadline_exceeded") {
          SIM_CHECK(r.t1 >= m.D - 4 * MS, "early-deadline", "call %lld failed %lld ms before its deadline", (long long)m.t, (long long)((m.D - r.t1) / MS));
          sim::probe("expired");
        } else {
          SIM_CHECK(r.kind == "io_error" || r.kind == "eof" || r.kind == "shutting_down", "wrong-error", "call %lld failed with %s: %s", (long long)m.t, r.kind.c_str(), r.what.c_str());
          sim::probe("connection-lost");
        }
        SIM_CHECK(r.t1 <= std::max(m.t0, m.D) + 40 * MS + r.cost, "late-return", "the caller of %lld waited for %lld ms past its deadline", (long long)m.t, (long long)((r.t1 - m.D) / MS));
        std::scoped_lock l(mu);
        made.push_back(m);
      }
    });
    crew.join();
  }
  sim::sleep_ms(500 + 50LL * sim::faults().lat_max_us / 1000);
  for (auto& m : made) {
    Exec e = w.get(m.t);
    if (!e.runs) continue;
    SIM_CHECK(e.runs == 1, "run-count", "call %lld ran %d times", (long long)m.t, e.runs);
    same_data(m.t, e, m.d);
    SIM_CHECK(e.has_deadline, "wrong-deadline", "the handler of %lld had no deadline", (long long)m.t);
    SIM_CHECK(e.deadline >= m.D - 3 * MS, "wrong-deadline", "the handler of %lld was left %lld ms less than its caller", (long long)m.t, (long long)((m.D - e.deadline) / MS));
    SIM_CHECK(e.deadline <= m.D + (e.start - m.t0) + MS, "wrong-deadline", "the handler of %lld was given %lld ms more than its caller", (long long)m.t, (long long)((e.deadline - m.D) / MS));
    if (e.deadline <= e.start) sim::probe("run-without-time-left");
  }
}

// Handlers that take long, servers that say nothing, and callers with deadlines.
SIM_SCENARIO(R05, expiring, 12) {
  timely();
  World w;
  publish(1, sim::chance(CFG, 1, 5) ? 200 : 0);
  skew(1);
  skew(10);
  int callers = sim::range(OPS, 1, 4);
  ServerNode server(w, 1, 0, server_options(2 * callers + 4));
  sim::set_node(10);
  Client client(place(1));
  const int64_t grace = 40 * MS;
  const int64_t busy = 2000 * sim::options().step_ns;
  struct Late { int64_t t; int64_t deadline; Job j; };
  std::vector<Late> handlers;
  std::mutex mu;
  bool silent = sim::chance(CFG, 1, 3);
  {
    Crew crew;
    if (silent) crew.add([&] {
      for (int i = sim::range(FAULT, 1, 3); i; i--) {
        sim::sleep_ms(sim::pick(FAULT, 100));
        sim::net_partition(10, 1, true);
        sim::sleep_ms(sim::pick(FAULT, 400));
        sim::net_partition(10, 1, false);
      }
    });
    for (int k = 0; k < callers; k++) crew.add([&] {
      sim::set_node(10);
      arpc::client_options co;
      bool by_option = sim::chance(OPS, 1, 3);
      int64_t limit = 20 + sim::pick(OPS, 300);
      if (by_option) co.request_timeout = ms(limit);
      else if (sim::pick(OPS, 2)) co.request_timeout.reset();
      auto p = client.get_proxy<Worker>("worker", co);
      auto as = client.get_proxy<Worker::async>("worker", co);
      for (int n = sim::range(OPS, 1, 3); n; n--) {
        int64_t t = w.token();
        Job j;
        static const int hows[] = {SLEEPING, WAITING, DEAF, AT_ONCE};
        j.how = hows[sim::pick(OPS, 4)];
        j.ms = sim::pick(OPS, 2) ? sim::pick(OPS, 100) : sim::pick(OPS, 1000);
        if (j.how == DEAF) j.ms %= 150;
        j.size = sim::pick(OPS, 100);
        std::string payload = payload_of(t, 1000), got;
        arpc::context ctx;
        int64_t D;
        if (!by_option) { ctx.set_timeout(ms(limit)); D = current_deadline(); }
        else D = sim::now_ns() + limit * MS;
        bool async = sim::pick(OPS, 2), outside = async && sim::pick(OPS, 2);
        Result r = attempt([&] {
          if (!async) { got = p.work(t, j, payload); return; }
          auto f = as.work(t, j, payload).first;
          if (outside) { arpc::context free(arpc::context::top()); got = f.get(); }   // the future alone knows
          else got = f.get();
        });
        SIM_CHECK(r.t1 <= D + grace + r.cost, "late-return", "the caller of %lld waited for %lld ms past its deadline", (long long)t, (long long)((r.t1 - D) / MS));
        if (r.ok) {
          SIM_CHECK(got == answer(t, j, payload), "wrong-reply", "call %lld got a wrong reply", (long long)t);
          sim::probe("in-time");
        } else {
          // A caller that gives up while sending breaks the connection for the others.
          bool broken = r.kind == "io_error" || r.kind == "eof" || r.kind == "invalid_state" || r.kind == "shutting_down";
          SIM_CHECK(r.kind == "deadline_exceeded" || broken, "wrong-error", "call %lld failed with %s: %s", (long long)t, r.kind.c_str(), r.what.c_str());
          if (!broken) SIM_CHECK(r.t1 >= D - 4 * MS, "early-deadline", "call %lld failed %lld ms before its deadline", (long long)t, (long long)((D - r.t1) / MS));
          sim::probe(broken ? "connection-lost" : "expired");
        }
        std::scoped_lock l(mu);
        handlers.push_back({t, D, j});
      }
    });
    crew.join();
  }
  // Handlers minding their context know as well.
  sim::sleep_ms(2500);
  for (auto& h : handlers) {
    Exec e = w.get(h.t);
    if (!e.runs) continue;
    SIM_CHECK(e.has_deadline, "wrong-deadline", "the handler of %lld had no deadline", (long long)h.t);
    if (h.j.how != SLEEPING && h.j.how != WAITING) continue;
    SIM_CHECK(!e.live && e.end <= std::max(e.start, e.deadline) + grace + busy, "handler-not-told", "the handler of %lld went on past its deadline", (long long)h.t);
    if (!e.ended_ok) { SIM_CHECK(e.end >= e.deadline - 3 * MS, "early-deadline", "the handler of %lld was stopped before its deadline", (long long)h.t); sim::probe("handler-expired"); }
  }
}

// Handlers that call further servers.
SIM_SCENARIO(R05, nested, 10) {
  timely();
  World w;
  int nservers = sim::range(CFG, 2, 3);
  struct Node { std::optional<Object> obj; std::optional<Server> srv; std::map<int, std::unique_ptr<Client>> to; };
  std::vector<Node> nodes(nservers);
  for (int i = 0; i < nservers; i++) { publish(i + 1); skew(i + 1); }
  skew(10);
  for (int i = 0; i < nservers; i++) on(i + 1, [&] {
    for (int k = 0; k < nservers; k++) nodes[i].to[k] = std::make_unique<Client>(place(k + 1));
    auto hop = [&nodes, i](int to, int64_t token, Job j, const std::string& payload) {
      auto p = nodes[i].to.at(to)->get_proxy<Worker>("worker");
      if (j.text == "tell") arpc::context::current().set([&] { Locale l; l.lang = "hop" + std::to_string(token); return l; }());
      return p.work(token, j, payload);
    };
    nodes[i].obj.emplace(w, i, "worker", hop);
    nodes[i].srv.emplace(server_options(8), arpc::endpoint().port(PORT));
    nodes[i].srv->register_object("worker", *nodes[i].obj);
    nodes[i].srv->start();
  });
  sim::set_node(10);
  // Calls that expire while being sent break the connection for others.
  bool any_tight = sim::pick(CFG, 2);
  {
    Client client(place(1));
    Crew crew;
    for (int k = sim::range(OPS, 1, 2); k; k--) crew.add([&] {
      sim::set_node(10);
      auto p = client.get_proxy<Worker>("worker");
      for (int n = sim::range(OPS, 1, 2); n; n--) {
        int64_t t = w.token();
        Data d;
        arpc::context ctx;
        dress(d);
        bool timed = sim::pick(OPS, 3);
        bool tight = timed && any_tight && sim::pick(OPS, 2);
        int depth = sim::range(OPS, 1, 3);
        Job j;
        for (int i = 0; i < depth; i++) j.hops.push_back(sim::pick(OPS, nservers));
        j.how = SLEEPING;
        j.ms = sim::pick(OPS, 60);
        if (sim::chance(OPS, 1, 3)) j.text = "tell";
        if (timed) ctx.set_timeout(ms(tight ? 20 + sim::pick(OPS, 200) : 5000 + sim::pick(OPS, 5000)));
        int64_t D = current_deadline();
        std::string payload = payload_of(t, 400), got;
        Result r = attempt([&] { got = p.work(t, j, payload); });
        SIM_CHECK(r.ok || (timed && r.kind == "deadline_exceeded") || r.kind == "io_error" || r.kind == "eof" || r.kind == "shutting_down", "wrong-error", "call %lld failed with %s: %s", (long long)t, r.kind.c_str(), r.what.c_str());
        if (timed && !r.ok) SIM_CHECK(r.t1 <= D + 40 * MS + r.cost, "late-return", "the caller of %lld waited for %lld ms past its deadline", (long long)t, (long long)((r.t1 - D) / MS));
        if (!any_tight) SIM_CHECK(r.ok, "wrong-error", "call %lld failed with %s: %s", (long long)t, r.kind.c_str(), r.what.c_str());
        if (r.ok) {
          std::string want = answer(t, j, payload);
          Job jj = j;
          for (int i = 1; i <= depth; i++) { jj.hops.erase(jj.hops.begin()); want = answer(t + i * 1000000, jj, want); }
          SIM_CHECK(got == want, "wrong-reply", "call %lld got a wrong reply", (long long)t);
          sim::probe("whole-chain");
        }
        int64_t deadline = timed ? D : r.t0 + 3600 * 1000 * MS, before = r.t0;
        for (int i = 0; i <= depth; i++) {
          Exec e = w.get(t + i * 1000000);
          if (!e.runs) { SIM_CHECK(!r.ok, "run-count", "hop %d of %lld never ran", i, (long long)t); break; }
          SIM_CHECK(e.runs == 1, "run-count", "hop %d of %lld ran %d times", i, (long long)t, e.runs);
          if (i && j.text == "tell") { d.lang = "hop" + std::to_string(t + i * 1000000); }
          same_data(t + i * 1000000, e, d);
          SIM_CHECK(e.has_deadline, "wrong-deadline", "hop %d of %lld has no deadline", i, (long long)t);
          SIM_CHECK(e.deadline >= deadline - 3 * MS, "wrong-deadline", "hop %d of %lld was left %lld ms less than its caller", i, (long long)t, (long long)((deadline - e.deadline) / MS));
          SIM_CHECK(e.deadline <= deadline + (e.start - before) + MS, "wrong-deadline", "hop %d of %lld was given %lld ms more than its caller", i, (long long)t, (long long)((e.deadline - deadline) / MS));
          deadline = e.deadline;
          before = e.start;
          sim::probe("hop-compared");
        }
      }
    });
    crew.join();
  }
  for (int i = 0; i < nservers; i++) on(i + 1, [&] { nodes[i].srv.reset(); });
  for (int i = 0; i < nservers; i++) on(i + 1, [&] { nodes[i].to.clear(); nodes[i].obj.reset(); });
}
