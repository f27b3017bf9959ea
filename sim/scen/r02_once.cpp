#include "rpc.h"
using namespace rpc;

namespace {
using WorkProxy = decltype(std::declval<Client&>().get_proxy<Worker>("x"));

// What every finished call must have left behind.
void audit(World& w) {
  sim::Quiet q;
  for (auto& e : w.exec) SIM_CHECK(e.second.runs <= 1, "run-twice", "call %lld ran %d times", (long long)e.first, e.second.runs);
}
struct Books {
  World& w;
  void ended(int64_t t, const Job& j, const Result& r) {
    Exec e = w.get(t);
    SIM_CHECK(e.runs <= 1, "run-twice", "call %lld ran %d times", (long long)t, e.runs);
    if (r.ok) {
      SIM_CHECK(e.runs == 1, "not-run", "call %lld succeeded and was never run", (long long)t);
      SIM_CHECK(!e.live && e.end <= r.t1 && e.start >= r.t0, "reply-before-run", "call %lld succeeded while its handler was running", (long long)t);
      SIM_CHECK(e.ended_ok, "wrong-reply", "call %lld succeeded and its handler failed", (long long)t);
      sim::probe("succeeded");
    } else {
      sim::probe(e.runs ? "failed-after-delivery" : "failed-before-delivery");
      if (j.how == FAILING && e.runs && !e.live) sim::probe("handler-failed");
    }
  }
};
// Calls over connections that break, stall and come back, to servers that do too.
void mayhem(bool restarts) {
  rpc_faults();
  if (sim::pick(CFG, 2)) sim::faults().conn_reset = sim::pick(CFG, 2) ? 300 : 5000;
  if (sim::chance(CFG, 1, 3)) sim::faults().accept_fail = 100000;
  World w;
  Books books{w};
  int nclients = sim::range(CFG, 1, 3);
  publish(1);
  ServerNode server(w, 1, 0, server_options());
  struct Cl { int node; std::optional<Client> c; };
  std::vector<std::unique_ptr<Cl>> clients;
  for (int i = 0; i < nclients; i++) {
    clients.push_back(std::make_unique<Cl>());
    clients.back()->node = 10 + i;
    on(10 + i, [&] { clients.back()->c.emplace(place(1)); });
  }
  CancelHub hub;
  std::atomic<int> going{0};
  {
    Crew crew;
    for (auto& cp : clients)
      for (int t = sim::range(OPS, 1, 2); t; t--) {
        going++;
        crew.add([&, c = &*cp] {
          sim::set_node(c->node);
          arpc::client_options opts;
          opts.request_timeout = ms(20000);
          auto p = c->c->get_proxy<Worker>("worker", opts);
          auto as = c->c->get_proxy<Worker::async>("worker", opts);
          for (uint32_t n = sim::range(OPS, 1, 5); n; n--) {
            pause();
            int64_t t = w.token();
            Job j = random_job(10);
            std::string payload = payload_of(t, 1000), got;
            switch (sim::weighted(OPS, {6, 3, 2, 1, 2})) {
              case 0: {
                Result r = attempt([&] { got = p.work(t, j, payload); });
                books.ended(t, j, r);
                break;
              }
              case 1: {   // may be cancelled at any instant
                Result r;
                { Scope s(hub); r = attempt([&] { got = p.work(t, j, payload); }); }
                books.ended(t, j, r);
                break;
              }
              case 2: {   // rejected before anything is sent
                Result r;
                {
                  arpc::context ctx;
                  if (sim::pick(OPS, 2)) ctx.cancel();
                  else { ctx.set_timeout(ms(1)); sim::sleep_ms(2); }
                  r = attempt([&] { got = p.work(t, j, payload); });
                  if (ctx.is_cancelled()) {
                    SIM_CHECK(!r.ok && r.kind == "cancelled", "cancelled-call-ran", "a call from a cancelled context ended with '%s'", r.ok ? "ok" : r.kind.c_str());
                    sim::sleep_ms(sim::pick(OPS, 30));
                    SIM_CHECK(w.get(t).runs == 0, "rejected-call-ran", "call %lld was made in a cancelled context and run", (long long)t);
                    w.with(t, [](Exec& e) { e.server = -2; });
                    sim::probe("rejected");
                  }
                }
                if (r.ok) books.ended(t, j, r);
                break;
              }
              case 3: {   // its outcome does not interest anyone
                attempt([&] { as.work(t, j, payload); });
                break;
              }
              default: {
                Result r = attempt([&] {
                  auto f = as.work(t, j, payload).first;
                  pause();
                  got = f.get();
                });
                books.ended(t, j, r);
              }
            }
          }
          going--;
        });
      }
    crew.add([&] {
      int restarted = 0;
      for (int k = 0; k < 30 && going > 0; k++) {
        sim::sleep_us(200 + sim::pick(FAULT, 20000));
        int victim = sim::pick(FAULT, 2) ? 1 : 10 + sim::pick(FAULT, nclients);
        switch (sim::pick(FAULT, restarts ? 5 : 3)) {
          case 0: sim::net_reset_all(victim); break;
          case 1: {
            int a = 10 + sim::pick(FAULT, nclients);
            sim::net_partition(a, 1, true);
            sim::sleep_ms(sim::pick(FAULT, 300));
            sim::net_partition(a, 1, false);
            break;
          }
          case 2: hub.cancel_one(); break;
          default:
            if (++restarted > 6) break;
            on(1, [&] { server.srv->stop(); });
            sim::count_fault(sim::F_CRASH);
            sim::sleep_us(sim::pick(FAULT, 20000));
            on(1, [&] { server.srv->start(); });
        }
      }
    });
  }
  if (sim::pick(OPS, 2)) clients.clear();
  sim::sleep_ms(sim::pick(OPS, 200));
  on(1, [&] { server.srv->stop(); });
  audit(w);
  for (auto& e : w.exec) SIM_CHECK(e.second.server != -2 || e.second.runs == 0, "rejected-call-ran", "call %lld was rejected before it was sent and run", (long long)e.first);
}
}  // namespace

SIM_SCENARIO(R02, breaking, 14) { mayhem(false); }
SIM_SCENARIO(R02, restarting, 10) { mayhem(true); }

// A peer repeats the id of a request that is being served.
SIM_SCENARIO(R02, repeated, 6) {
  rpc_faults();
  World w;
  publish(1);
  ServerNode server(w, 1, 0, server_options(6));
  std::map<uint32_t, int> replies;
  std::map<uint32_t, int64_t> tokens;
  {
    sim::set_node(10);
    arpc::channel c = raw_dial(1);
    c.make_non_blocking();
    Crew crew;
    int n = sim::range(OPS, 1, 4);
    std::vector<std::string> out;
    for (int i = 0; i < n; i++) {
      uint32_t id = i * 7;
      tokens[id] = w.token();
      Job j;
      j.how = SLEEPING;
      j.ms = 300000;                            // all of the copies arrive meanwhile
      j.size = sim::pick(OPS, 100);
      auto req = packet(request_bytes<&Worker::poke>(id, worker_name(), tokens[id], j));
      for (int k = sim::range(OPS, 1, 3); k; k--) out.push_back(req);
    }
    for (size_t i = out.size(); i > 1; i--) std::swap(out[i - 1], out[sim::pick(OPS, i)]);
    std::string all;
    for (auto& o : out) all += o;
    raw_write(c, all);
    raw_read(c, 700000, [&](const std::string& p) {
      arpc::string_input_stream is(p);
      Dec d(is);
      arpc::rpc_defs::message_type mt;
      uint32_t id;
      d(mt);
      d(id);
      SIM_CHECK(mt == arpc::rpc_defs::message_type::RESPONSE && tokens.count(id), "wrong-reply", "a reply to request %u", id);
      if (p.size() > 8) { arpc::result_holder<void> rh; d(rh); Result r = attempt([&] { *rh; }); sim::note("reply %u: %s %s", id, r.kind.c_str(), r.what.c_str()); }
      replies[id]++;
      return true;
    });
  }
  sim::set_node(0);
  int workers_seen = 0;
  for (auto& t : tokens) {
    int runs = w.get(t.second).runs;
    workers_seen += runs;
    SIM_CHECK(runs <= 1, "run-twice", "request %u was run %d times", t.first, runs);
    SIM_CHECK(replies[t.first] <= 1, "answered-twice", "request %u was answered %d times", t.first, replies[t.first]);
  }
  SIM_CHECK(workers_seen > 0, "not-run", "no request was run");
}
