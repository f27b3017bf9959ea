#include "rpc.h"
using namespace rpc;

namespace {
using WorkProxy = decltype(std::declval<Client&>().get_proxy<Worker>("x"));
constexpr int64_t SEC = 1000000000;

struct Pending {      // calls under way
  std::mutex mu;
  std::map<int64_t, int64_t> open;
  void begin(int64_t t) { sim::Quiet q; open[t] = sim::now_ns(); }
  void end(int64_t t) { sim::Quiet q; open.erase(t); }
  size_t size() { sim::Quiet q; return open.size(); }
};
void tight() {        // faults under which bounds still mean something
  rpc_faults();
  auto& f = sim::faults();
  if (f.sndbuf < 400) f.sndbuf = 400;
}
}  // namespace

// Everything fails for a while.  Afterwards every call still open ends, every
// client is served again, and everything can be taken down.
SIM_SCENARIO(R03, recovery, 14) {
  tight();
  if (sim::pick(CFG, 2)) sim::faults().conn_reset = sim::pick(CFG, 2) ? 300 : 5000;
  if (sim::chance(CFG, 1, 3)) sim::faults().accept_fail = 200000;
  if (sim::chance(CFG, 1, 4)) sim::faults().fd_exhaust = 3000;
  World w;
  Pending open;
  int nclients = sim::range(CFG, 1, 3);
  publish(1, sim::chance(CFG, 1, 4) ? 20 : 0);
  CancelHub hub;
  int queue = sim::chance(CFG, 1, 3) ? (int)sim::pick(CFG, 4) : -1;
  {
    std::optional<ServerNode> server;
    struct Cl { int node; std::optional<Client> c; };
    std::vector<std::unique_ptr<Cl>> clients;
    // Setting things up is not what is studied.
    uint32_t fdx = sim::faults().fd_exhaust;
    sim::faults().fd_exhaust = 0;
    server.emplace(w, 1, 0, server_options(0, queue));
    for (int i = 0; i < nclients; i++) {
      clients.push_back(std::make_unique<Cl>());
      clients.back()->node = 10 + i;
      on(10 + i, [&] { clients.back()->c.emplace(place(1)); });
    }
    if (fdx) {
      // Threads that cannot even start are another matter.
      sim::faults().stall = 0;
      for (auto& c : clients) on(c->node, [&] { attempt([&] { c->c->get_proxy<Worker>("worker").ping(w.token()); }); });
      sim::sleep_ms(30);
    }
    sim::faults().fd_exhaust = fdx;
    std::atomic<bool> over{false};
    std::atomic<int> going{0};
    int64_t calm_at = 0;
    Crew crew;
    for (auto& cp : clients)
      for (int t = sim::range(OPS, 1, 2); t; t--) {
        going++;
        crew.add([&, c = &*cp] {
          sim::set_node(c->node);
          int after = 0;
          try {
            auto p = c->c->get_proxy<Worker>("worker");
            auto as = c->c->get_proxy<Worker::async>("worker");
            for (uint32_t n = sim::range(OPS, 2, 8); n && !over; n--) {
              pause();
              int64_t t = w.token();
              Job j = random_job(30);
              std::string payload = payload_of(t, 1000), got;
              open.begin(t);
              try {
                switch (sim::pick(OPS, 4)) {
                  case 0: attempt([&] { got = p.work(t, j, payload); }); break;
                  case 1: { Scope s(hub); attempt([&] { got = p.work(t, j, payload); }); break; }
                  case 2: attempt([&] { as.work(t, j, payload); }); break;
                  default: attempt([&] { auto f = as.work(t, j, payload).first; pause(); f.get(); });
                }
              } catch (...) { open.end(t); throw; }
              open.end(t);
            }
          } catch (const arpc::errors::io_error&) {
            // Out of descriptors for a context of one's own.
          }
          // Served again, once nothing goes wrong any more.
          while (!over) sim::sleep_ms(20);
          int64_t from = std::max(calm_at, sim::now_ns());
          auto p = c->c->get_proxy<Worker>("worker");
          for (int tries = 1;; tries++) {
            int64_t t = w.token(), r = 0;
            Result res = attempt([&] { r = p.ping(t); });
            if (res.ok) {
              SIM_CHECK(r == t * 3 + 1, "wrong-reply", "ping %lld got %lld", (long long)t, (long long)r);
              break;
            }
            SIM_CHECK(tries < 4, "not-served-again", "attempt %d after the faults stopped failed with %s: %s", tries, res.kind.c_str(), res.what.c_str());
            sim::probe("retried");
            after++;
          }
          SIM_CHECK(sim::now_ns() - from < 60 * SEC, "slow-recovery", "served again only %lld ms after the faults stopped", (long long)((sim::now_ns() - from) / 1000000));
          going--;
        });
      }
    bool blocked[3] = {false, false, false}, up = true;
    for (int k = sim::range(FAULT, 1, 12); k; k--) {
      sim::sleep_us(200 + sim::pick(FAULT, 20000));
      int i = sim::pick(FAULT, nclients);
      switch (sim::pick(FAULT, 6)) {
        case 0: sim::net_reset_all(1); break;
        case 1: sim::net_reset_all(10 + i); break;
        case 2: blocked[i] = !blocked[i]; sim::net_partition(10 + i, 1, blocked[i]); break;
        case 3: hub.cancel_one(); break;
        case 4: sim::sleep_ms(sim::pick(FAULT, 100)); break;
        default:
          if (up) on(1, [&] { server->srv->stop(); });
          else on(1, [&] {
            uint32_t x = sim::faults().fd_exhaust;   // start() may say so if it fails
            sim::faults().fd_exhaust = 0;
            server->srv->start();
            if (x) sim::sleep_ms(30);
            sim::faults().fd_exhaust = x;
          });
          up = !up;
          sim::count_fault(sim::F_CRASH);
      }
    }
    sim::calm();
    for (int i = 0; i < nclients; i++) if (blocked[i]) sim::net_partition(10 + i, 1, false);
    if (!up) on(1, [&] { server->srv->start(); });
    calm_at = sim::now_ns();
    over = true;
    while (going > 0 && sim::now_ns() - calm_at < 120 * SEC) sim::sleep_ms(20);
    if (open.size()) {
      sim::Quiet q;
      auto& o = *open.open.begin();
      sim::fail("hung-call", "call %lld hangs %lld ms after the faults stopped (handler: %d runs, %d live)", (long long)o.first, (long long)((sim::now_ns() - calm_at) / 1000000), w.exec[o.first].runs, w.exec[o.first].live);
    }
    SIM_CHECK(going == 0, "hung-call", "a ping hangs after the faults stopped");
    crew.join();
    int64_t down = sim::now_ns();
    bool server_first = sim::pick(OPS, 2);
    if (server_first) server.reset();
    clients.clear();
    server.reset();
    SIM_CHECK(sim::now_ns() - down < 60 * SEC, "slow-shutdown", "taking everything down took %lld ms", (long long)((sim::now_ns() - down) / 1000000));
  }
}

// The request queue of a server may be bounded; a server with few threads may be
// slow but gets everything done.
SIM_SCENARIO(R03, bounded, 6) {
  tight();
  World w;
  publish(1);
  auto so = server_options(sim::range(CFG, 1, 3), sim::pick(CFG, 5));
  ServerNode server(w, 1, 0, so);
  int nclients = sim::range(CFG, 1, 4);
  std::vector<std::unique_ptr<Client>> clients;
  std::atomic<int> going{0};
  for (int i = 0; i < nclients; i++) on(10 + i, [&] { clients.push_back(std::make_unique<Client>(place(1))); });
  int64_t began = sim::now_ns();
  Crew crew;
  for (int i = 0; i < nclients; i++)
    for (int t = sim::range(OPS, 1, 3); t; t--) {
      going++;
      crew.add([&, i] {
        sim::set_node(10 + i);
        auto p = clients[i]->get_proxy<Worker>("worker");
        auto as = clients[i]->get_proxy<Worker::async>("worker");
        for (uint32_t n = sim::range(OPS, 1, 4); n; n--) {
          std::vector<arpc::future<std::string>> fs;
          for (uint32_t m = sim::pick(OPS, 5); m; m--) {
            Job j;
            j.how = YIELDING;
            j.ms = sim::pick(OPS, 5);
            fs.push_back(std::move(as.work(w.token(), j, "x").first));
          }
          int64_t tk = w.token();
          SIM_CHECK(p.ping(tk) == tk * 3 + 1, "wrong-reply", "ping %lld", (long long)tk);
          for (auto& f : fs) f.get();
        }
        going--;
      });
    }
  while (going > 0 && sim::now_ns() - began < 300 * SEC) sim::sleep_ms(20);
  SIM_CHECK(going == 0, "hung-call", "%d threads still wait for replies after 300 s (%u workers, queue of %d)", (int)going, so.num_worker_threads, so.queue_size);
}

// Calls on a connection that breaks fail at once.
SIM_SCENARIO(R03, prompt, 6) {
  tight();
  sim::faults().stall = 0;
  World w;
  publish(1);
  ServerNode server(w, 1, 0, server_options(12));
  std::vector<std::unique_ptr<Client>> clients;
  int nclients = sim::range(CFG, 1, 2);
  for (int i = 0; i < nclients; i++) on(10 + i, [&] { clients.push_back(std::make_unique<Client>(place(1))); });
  Pending open;
  {
    Crew crew;
    std::atomic<int> going{0};
    for (int i = 0; i < nclients; i++)
      for (int t = sim::range(OPS, 1, 4); t; t--) {
        going++;
        crew.add([&, i] {
          sim::set_node(10 + i);
          auto p = clients[i]->get_proxy<Worker>("worker");
          auto as = clients[i]->get_proxy<Worker::async>("worker");
          pause();
          int64_t t = w.token();
          Job j;
          j.how = SLEEPING;
          j.ms = 1800000;
          open.begin(t);
          Result r = sim::pick(OPS, 2) ? attempt([&] { p.poke(t, j); }) : attempt([&] { auto f = as.poke(t, j).first; pause(); f.get(); });
          open.end(t);
          SIM_CHECK(!r.ok, "wrong-reply", "a call returned though its handler had not");
          going--;
        });
      }
    for (int k = 0; k < 12 && going > 0; k++) {
      sim::sleep_us(sim::pick(FAULT, 30000));
      int victim = sim::pick(FAULT, 3) ? 1 : 10 + (int)sim::pick(FAULT, nclients);
      std::vector<int64_t> served;
      int64_t at;
      {
        sim::Quiet q;
        for (auto& o : open.open) if (w.exec[o.first].runs) served.push_back(o.first);
        at = sim::now_ns();
      }
      if (k >= 6) victim = 1;
      sim::net_reset_all(victim);
      if (victim != 1) continue;
      sim::sleep_ms(2000);
      sim::Quiet q;
      for (auto t : served) SIM_CHECK(!open.open.count(t), "not-prompt", "call %lld did not notice within 2 s that its connection was reset", (long long)t);
      if (!served.empty()) sim::probe("reset-with-calls-in-flight");
    }
    SIM_CHECK(going == 0, "hung-call", "%d calls survived every reset", (int)going);
  }
  w.exec.clear();
  server.srv->stop();
}

// Many calls under way, on lines that keep breaking: none is forgotten by a
// client that carries on over a new line.
SIM_SCENARIO(R03, forgotten, 7) {
  tight();
  auto& f = sim::faults();
  f.stall = 0;
  bool lengthy = sim::chance(CFG, 1, 3);
  if (!lengthy) { static const uint32_t p[] = {3000, 30000, 300000}; f.conn_reset = p[sim::pick(CFG, 3)]; }
  World w;
  publish(1);
  std::optional<ServerNode> server;
  arpc::context mute_ctx;
  arpc::flag up;
  Crew mute;
  if (!lengthy) server.emplace(w, 1, 0, server_options(sim::range(CFG, 1, 8)));
  else {
    // A peer that takes everything and answers nothing.
    mute.add([&] {
      sim::set_node(1);
      arpc::context ctx(mute_ctx);
      try {
        arpc::listener l(arpc::endpoint().port(PORT));
        up.set();
        while (true) {
          auto c = l.accept();
          try {
            std::string b(4096, 0);
            while (true) c.read(&b[0], b.size());
          } catch (const arpc::errors::io_error&) {
          } catch (const arpc::errors::eof&) {
          }
        }
      } catch (const arpc::errors::cancelled&) {
      }
    });
    up.wait();
  }
  sim::set_node(10);
  auto client = std::make_unique<Client>(place(1));
  int nt = sim::range(OPS, 1, 5);
  std::vector<std::vector<std::pair<int64_t, arpc::future<void>>>> fs(nt);
  {
    Crew crew;
    for (int k = 0; k < nt; k++)
      crew.add([&, k] {
        sim::set_node(10);
        auto as = client->get_proxy<Worker::async>("worker");
        for (uint32_t n = few(1, 8, 150); n; n--) {
          Job j;
          j.how = SLEEPING;
          j.ms = lengthy ? 1800000 : sim::pick(OPS, 3);
          int64_t t = w.token();
          attempt([&] { fs[k].push_back({t, std::move(as.poke(t, j).first)}); });
          if (sim::chance(OPS, 1, 6)) pause();
        }
      });
  }
  sim::calm();
  if (lengthy) {
    sim::sleep_us(sim::pick(OPS, 100000));
    sim::net_reset_all(1);
  }
  size_t n = 0, failed = 0;
  int64_t at = sim::now_ns();
  uint64_t s0 = sim::steps();
  for (auto& v : fs)
    for (auto& [t, fu] : v) {
      n++;
      Result res = attempt([&, t = t, &fu = fu] {
        int64_t left = std::max<int64_t>(0, 60 * SEC + (int64_t)(sim::steps() - s0) * sim::options().step_ns - (sim::now_ns() - at));
        auto [r, to] = arpc::select(fu.async_get(), arpc::timeout(ms(left / 1000000)));
        SIM_CHECK(r, "hung-call", "call %lld is still waiting %lld s after %s", (long long)t, (long long)((sim::now_ns() - at) / SEC), lengthy ? "its line was cut" : "the last line broke");
        *r;
      });
      SIM_CHECK(!lengthy || !res.ok, "wrong-reply", "a call returned though its handler had not");
      failed += !res.ok;
    }
  if (n > 64 && failed > 64) sim::probe("crowd-cut-off");
  if (failed && failed < n) sim::probe("some-lost-some-not");
  mute_ctx.cancel();
  mute.join();
}

// Futures of a client that goes away do not wait forever.
SIM_SCENARIO(R03, goodbye, 4) {
  tight();
  World w;
  publish(1);
  ServerNode server(w, 1, 0, server_options(8));
  sim::set_node(10);
  auto client = std::make_unique<Client>(place(1));
  std::vector<arpc::future<void>> fs;
  {
    auto as = client->get_proxy<Worker::async>("worker");
    for (uint32_t n = sim::range(OPS, 1, 4); n; n--) {
      Job j;
      j.how = SLEEPING;
      j.ms = sim::pick(OPS, 2) ? 1800000 : 2;
      fs.push_back(std::move(as.poke(w.token(), j).first));
    }
  }
  pause();
  int64_t at = sim::now_ns();
  client.reset();
  for (auto& f : fs) {
    Result res = attempt([&] { auto [r, t] = arpc::select(f.async_get(), arpc::timeout(ms(60000))); SIM_CHECK(!t, "hung-future", "a future outlives its client without a result"); *r; });
    sim::note("future: %s %s", res.ok ? "ok" : res.kind.c_str(), res.what.c_str());
    sim::probe(res.ok ? "future-done" : "future-failed");
  }
  SIM_CHECK(sim::now_ns() - at < 60 * SEC, "slow-shutdown", "taking the client down took %lld ms", (long long)((sim::now_ns() - at) / 1000000));
}

// A server that stops reading cannot keep calls beyond their deadlines.
SIM_SCENARIO(R03, deadlines, 8) {
  tight();
  sim::faults().stall = 0;
  sim::faults().sndbuf = 400;
  World w;
  publish(1);
  ServerNode server(w, 1, 0, server_options(12));
  std::optional<Client> client;
  on(10, [&] { client.emplace(place(1)); });
  CancelHub hub;
  std::atomic<int> going{0};
  {
    Crew crew;
    for (int t = sim::range(OPS, 2, 5); t; t--) {
      going++;
      crew.add([&] {
        sim::set_node(10);
        arpc::client_options opts;
        opts.request_timeout = ms(sim::range(OPS, 20, 3000));
        auto p = client->get_proxy<Worker>("worker", opts);
        auto as = client->get_proxy<Worker::async>("worker", opts);
        for (uint32_t n = sim::range(OPS, 1, 4); n; n--) {
          pause();
          int64_t t = w.token();
          Job j;
          j.how = sim::pick(OPS, 3) ? SLEEPING : AT_ONCE;
          j.ms = sim::pick(OPS, 2) ? 100000 : 30;
          std::string payload = payload_of(t, 3000);
          Result r;
          if (sim::pick(OPS, 2)) { Scope s(hub); r = attempt([&] { p.work(t, j, payload); }); }
          else r = attempt([&] { auto [f, id] = as.work(t, j, payload); pause(); if (sim::chance(OPS, 1, 4)) client->cancel_request(id); f.get(); });
          int64_t over = (r.t1 - r.t0) / 1000000 - opts.request_timeout->count();
          SIM_CHECK(over <= 500 + r.cost / 1000000, "past-deadline", "call %lld with %lld ms to go ended after %lld ms (%s)", (long long)t, (long long)opts.request_timeout->count(), (long long)((r.t1 - r.t0) / 1000000), r.ok ? "ok" : r.kind.c_str());
          if (!r.ok && r.kind == "deadline_exceeded") sim::probe("timed-out");
        }
        going--;
      });
    }
    bool blocked = false;
    for (int k = sim::range(FAULT, 1, 10); k && going > 0; k--) {
      sim::sleep_us(sim::pick(FAULT, 60000));
      if (sim::pick(FAULT, 2)) { blocked = !blocked; sim::net_partition(10, 1, blocked); }
      else hub.cancel_one();
    }
    crew.join();
    if (blocked) sim::net_partition(10, 1, false);
  }
}

namespace {
template <size_t events>
using TinyClient = arpc::client_connection<arpc::client_socket_connection, Enc, Dec, arpc::protected_stream_packet_protocol<Enc, Dec>, Enc, events>;

// A client that may queue next to nothing for its housekeeping thread.
template <size_t events>
void tiny() {
  tight();
  sim::faults().stall = 0;
  World w;
  publish(1);
  ServerNode server(w, 1, 0, server_options(20));
  std::optional<TinyClient<events>> client;
  on(10, [&] { client.emplace(place(1)); });
  // A call that is given up half sent takes its connection along, and until
  // everybody has noticed maybe the next one too.
  std::atomic<bool> cut_short{false}, lost{false};
  {
    Crew crew;
    for (int t = sim::range(OPS, 1, 3); t; t--)
      crew.add([&] {
        sim::set_node(10);
        struct One { int64_t t, limit, t0; uint64_t s0; uint32_t id; bool longer, cancelled = false; int64_t told = 0; std::optional<arpc::future<void>> f; };
        std::vector<One> open;
        for (uint32_t n = sim::range(OPS, 1, 6); n; n--) {
          if (sim::chance(OPS, 1, 3)) pause();
          arpc::client_options opts;
          One o;
          o.limit = sim::range(OPS, 20, 3000);
          opts.request_timeout = ms(o.limit);
          auto as = client->template get_proxy<Worker::async>("worker", opts);
          o.t = w.token();
          o.longer = sim::pick(OPS, 3);
          Job j;
          j.how = DEAF;
          j.ms = o.longer ? o.limit + 200 : sim::pick(OPS, 10);
          o.t0 = sim::now_ns();
          o.s0 = sim::steps();
          Result r = attempt([&] { auto p = as.poke(o.t, j); o.f.emplace(std::move(p.first)); o.id = p.second; });
          SIM_CHECK(r.ok || r.kind != "try_again", "not-accepted", "a call was refused because of the client's housekeeping: %s", r.what.c_str());
          if (r.ok) open.push_back(std::move(o));
          else cut_short = true;
        }
        for (auto& o : open)
          if (sim::chance(OPS, 1, 3)) {
            o.cancelled = true;
            sim::count_fault(sim::F_CANCEL);
            client->cancel_request(o.id);
            // Whatever else is to be told to the server, its caller is let go.
            o.told = sim::now_ns();
          }
        while (!open.empty()) {
          uint32_t i = sim::pick(OPS, (uint32_t)open.size());
          auto& o = open[i];
          int64_t from = sim::now_ns();
          Result r = attempt([&] { o.f->get(); });
          int64_t cost = (int64_t)(sim::steps() - o.s0) * sim::options().step_ns;
          int64_t took = r.t1 - o.t0;
          // With a handler that takes its time, only the deadline can end the wait.
          SIM_CHECK(r.t1 - std::max(from, o.t0 + o.limit * 1000000) <= 50000000 + cost, "past-deadline", "call %lld with %lld ms to go ended after %lld ms (%s)", (long long)o.t, (long long)o.limit, (long long)(took / 1000000), r.ok ? "ok" : r.kind.c_str());
          if (!r.ok && r.kind == "io_error") lost = true;
          else if (o.cancelled) {
            SIM_CHECK(r.ok || r.kind == "cancelled" || o.told > o.t0 + o.limit * 1000000 - 2000000, "not-cancelled", "call %lld, cancelled %lld us after its start, ended with %s at %lld us", (long long)o.t, (long long)(o.told - o.t0) / 1000, r.kind.c_str(), (long long)took / 1000);
            SIM_CHECK(r.t1 - std::max(from, o.told) <= 50000000 + cost, "not-cancelled", "call %lld was cancelled and waited %lld us for nothing", (long long)o.t, (long long)(r.t1 - o.told) / 1000);
            SIM_CHECK(r.ok ? !o.longer : r.kind == "cancelled" || r.kind == "deadline_exceeded", "wrong-error", "a cancelled call ended with %s", r.ok ? "ok" : r.kind.c_str());
          } else if (o.longer) {
            SIM_CHECK(!r.ok && r.kind == "deadline_exceeded", "wrong-error", "call %lld, longer than its limit, ended with %s: %s", (long long)o.t, r.ok ? "ok" : r.kind.c_str(), r.what.c_str());
            SIM_CHECK(took >= (o.limit - 2) * 1000000, "early-deadline", "call %lld with %lld ms to go was given up after %lld us", (long long)o.t, (long long)o.limit, (long long)took / 1000);
            sim::probe("timed-out");
          } else SIM_CHECK(r.ok || r.kind == "deadline_exceeded", "wrong-error", "call %lld ended with %s: %s", (long long)o.t, r.kind.c_str(), r.what.c_str());
          open.erase(open.begin() + i);
        }
      });
  }
  SIM_CHECK(!lost || cut_short, "wrong-error", "a call lost its connection although all requests got sent");
  sim::set_node(10);
  auto p = client->template get_proxy<Worker>("worker");
  int64_t t = w.token();
  for (int k = 0; k < 3 && cut_short; k++, t = w.token()) if (attempt([&] { p.ping(t); }).ok) break;
  t = w.token();
  SIM_CHECK(p.ping(t) == t * 3 + 1, "wrong-reply", "ping %lld", (long long)t);
}
}  // namespace

SIM_SCENARIO(R03, tiny_queues, 5) {
  if (sim::pick(CFG, 2)) tiny<1>();
  else tiny<3>();
}
