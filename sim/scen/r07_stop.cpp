#include "rpc.h"
using namespace rpc;

namespace {
constexpr int64_t MS = 1000000;
void timely() {
  rpc_faults();
  sim::faults().stall = 0;
  if (sim::faults().sndbuf < 400) sim::faults().sndbuf = 400;
}
int64_t slack_ms() { return 400 + 20000 * sim::options().step_ns / 1000000 + 60LL * sim::faults().lat_max_us / 1000; }
// Clients that keep calling until told not to.
struct Traffic {
  Traffic(World& w, int nclients, bool breaking_allowed = true) : w(w) {
    for (int i = 0; i < nclients; i++) on(10 + i, [&] { clients.push_back(std::make_unique<Client>(place(1))); });
    for (int i = 0; i < nclients; i++)
      for (int k = sim::range(OPS, 1, 2); k; k--) crew.add([this, i] { caller(i); });
  }
  ~Traffic() { finish(); }
  void finish() { over = true; crew.join(); }
  void caller(int i) {
    sim::set_node(10 + i);
    auto p = clients[i]->get_proxy<Worker>("worker");
    auto as = clients[i]->get_proxy<Worker::async>("worker");
    for (int n = 0; !over && n < 60; n++) {
      int64_t t = w.token();
      Job j;
      static const int hows[] = {AT_ONCE, YIELDING, SLEEPING, DEAF, WAITING};
      j.how = hows[sim::weighted(OPS, {4, 2, 3, 2, 2})];
      j.ms = j.how == YIELDING ? 5 : sim::pick(OPS, 60);
      j.size = sim::pick(OPS, 3) ? 10 : sim::pick(OPS, 5000);
      std::string payload = payload_of(t, 1000), got;
      arpc::context ctx;
      bool waits = j.how == WAITING;
      if (waits) ctx.set_timeout(ms(sim::range(OPS, 5, 100)));
      Result r = attempt([&] {
        if (sim::pick(OPS, 3)) got = p.work(t, j, payload);
        else { auto f = as.work(t, j, payload).first; pause(); got = f.get(); }
      });
      if (r.ok) {
        SIM_CHECK(got == answer(t, j, payload), "wrong-reply", "call %lld got a wrong reply", (long long)t);
        Exec e = w.get(t);
        SIM_CHECK(e.runs == 1, "run-count", "call %lld ran %d times", (long long)t, e.runs);
        sim::probe("served");
      } else {
        SIM_CHECK(r.kind == "io_error" || r.kind == "eof" || r.kind == "shutting_down" || r.kind == "cancelled" || (waits && r.kind == "deadline_exceeded"), "wrong-error", "call %lld failed with %s: %s", (long long)t, r.kind.c_str(), r.what.c_str());
        // Calls in flight end when the server stops.
        sim::probe("turned-away");
        sim::sleep_us(500 + sim::pick(OPS, 5000));
      }
      int64_t limit = (100 + 3 * slack_ms()) * MS;
      SIM_CHECK(r.t1 - r.t0 <= limit + r.cost, "call-held", "call %lld took %lld ms", (long long)t, (long long)((r.t1 - r.t0) / MS));
      if (sim::chance(OPS, 1, 4)) pause();
    }
  }
  World& w;
  std::vector<std::unique_ptr<Client>> clients;
  std::atomic<bool> over{false};
  Crew crew;
};
int total_runs(World& w) {
  sim::Quiet q;
  int n = 0;
  for (auto& e : w.exec) n += e.second.runs;
  return n;
}
// What has to be true once stop() has returned at that time.
void stopped(World& w, int64_t at) {
  sim::Quiet q;
  for (auto& [t, e] : w.exec)
    if (e.runs && e.start > at) SIM_CHECK(e.started_cancelled, "started-after-stop", "the handler of %lld started %lld us after the server had stopped", (long long)t, (long long)((e.start - at) / 1000));
}
// The descriptors that are there before and after everything.
void warm() {
  {
    World w;
    publish(1);
    ServerNode s(w, 1, 0, server_options(1));
    on(9, [&] { Client c(place(1)); c.get_proxy<Worker>("worker").ping(1); });
  }
  sim::sleep_ms(slack_ms());
}
}  // namespace

// Stopped and started again at any instant, then destroyed.
SIM_SCENARIO(R07, restart, 14) {
  timely();
  warm();
  World w;
  publish(1);
  int fds = sim::open_fds();
  {
    std::optional<ServerNode> server;
    std::optional<Traffic> traffic;
    bool early = sim::pick(CFG, 2);
    if (early) server.emplace(w, 1, 0, server_options(0, sim::chance(CFG, 1, 4) ? (int)sim::pick(CFG, 4) : -1));
    traffic.emplace(w, sim::range(CFG, 1, 2));
    if (!early) { pause(); server.emplace(w, 1, 0, server_options()); }
    for (int k = sim::range(FAULT, 1, 4); k; k--) {
      sim::sleep_us(sim::pick(FAULT, 2) ? sim::pick(FAULT, 60000) : sim::pick(FAULT, 3000));
      int64_t t0 = sim::now_ns();
      sim::note("stopping");
      on(1, [&] {
        if (sim::chance(FAULT, 1, 4)) {   // by two at once
          std::thread other([&] { server->srv->stop(); });
          server->srv->stop();
          other.join();
        } else server->srv->stop();
      });
      int64_t at = sim::now_ns();
      sim::note("stopped");
      SIM_CHECK(at - t0 <= slack_ms() * MS, "slow-stop", "stopping took %lld ms", (long long)((at - t0) / MS));
      // Handlers that mind their contexts end soon, and none starts that could not know.
      if (sim::pick(FAULT, 2)) {
        sim::sleep_ms(200);
        sim::Quiet q;
        for (auto& [t, e] : w.exec) SIM_CHECK(!e.live, "handler-not-told", "the handler of %lld still runs 200 ms after the server has stopped", (long long)t);
      } else if (sim::pick(FAULT, 2)) sim::sleep_us(sim::pick(FAULT, 20000));
      stopped(w, at);
      if (sim::chance(FAULT, 1, 6)) on(1, [&] { server->srv->stop(); });   // once more
      on(1, [&] { server->srv->start(); });
      if (sim::chance(FAULT, 1, 6)) on(1, [&] { server->srv->start(); });
      sim::note("started");
      // It serves again.
      if (sim::pick(FAULT, 2)) {
        std::optional<Client> fresh;
        on(15, [&] {
          fresh.emplace(place(1));
          int64_t t = w.token(), r = 0;
          Result res = attempt([&] { r = fresh->get_proxy<Worker>("worker").ping(t); });
          SIM_CHECK(res.ok && r == t * 3 + 1, "not-served-again", "a call to the restarted server failed with %s: %s", res.kind.c_str(), res.what.c_str());
          SIM_CHECK(res.t1 - res.t0 <= (100 + slack_ms()) * MS + res.cost, "slow-restart", "the restarted server answered after %lld ms", (long long)((res.t1 - res.t0) / MS));
          sim::probe("served-again");
          fresh.reset();
        });
      }
    }
    bool first = sim::pick(CFG, 2);
    if (first) {
      if (sim::pick(FAULT, 2)) pause();
      int64_t t0 = sim::now_ns();
      server.reset();
      int64_t d = sim::now_ns() - t0;
      SIM_CHECK(d <= (100 + slack_ms()) * MS, "slow-stop", "destroying the server took %lld ms", (long long)(d / MS));
      int n = total_runs(w);
      { sim::Quiet q; SIM_CHECK(w.live_handlers == 0, "handler-outlives", "%d handlers still run after their server was destroyed", w.live_handlers); }
      sim::sleep_us(sim::pick(FAULT, 50000));
      SIM_CHECK(total_runs(w) == n, "started-after-stop", "%d handlers started after their server was destroyed", total_runs(w) - n);
      sim::probe("destroyed-first");
    }
    traffic->finish();
    if (sim::pick(CFG, 2)) { server.reset(); traffic.reset(); }
    else { traffic.reset(); server.reset(); }
  }
  sim::sleep_ms(slack_ms());
  SIM_CHECK(sim::open_fds() == fds, "leaked-descriptor", "%d descriptors are open that were not there before", sim::open_fds() - fds);
}

// Destroyed at any instant, several times over.
SIM_SCENARIO(R07, destroy, 12) {
  timely();
  warm();
  if (sim::chance(CFG, 1, 4)) sim::faults().conn_reset = 2000;
  if (sim::chance(CFG, 1, 4)) sim::faults().accept_fail = 200000;
  World w;
  publish(1);
  int fds = sim::open_fds();
  {
    Traffic traffic(w, sim::range(CFG, 1, 3));
    for (int k = sim::range(FAULT, 1, 4); k; k--) {
      auto server = std::make_unique<ServerNode>(w, 1, k, server_options(0, sim::chance(CFG, 1, 4) ? (int)sim::pick(CFG, 4) : -1));
      sim::sleep_us(sim::pick(FAULT, 2) ? sim::pick(FAULT, 60000) : sim::pick(FAULT, 3000));
      if (sim::chance(FAULT, 1, 4)) { sim::net_reset_all(10); sim::count_fault(sim::F_RESET); }
      int64_t t0 = sim::now_ns();
      server.reset();
      int64_t d = sim::now_ns() - t0;
      SIM_CHECK(d <= (100 + slack_ms()) * MS, "slow-stop", "destroying the server took %lld ms", (long long)(d / MS));
      int n = total_runs(w);
      { sim::Quiet q; SIM_CHECK(w.live_handlers == 0, "handler-outlives", "%d handlers still run after their server was destroyed", w.live_handlers); }
      if (sim::pick(FAULT, 2)) sim::sleep_us(sim::pick(FAULT, 20000));
      SIM_CHECK(total_runs(w) == n, "started-after-stop", "%d handlers started after their server was destroyed", total_runs(w) - n);
      sim::probe("destroyed");
    }
  }
  sim::sleep_ms(slack_ms());
  SIM_CHECK(sim::open_fds() == fds, "leaked-descriptor", "%d descriptors are open that were not there before", sim::open_fds() - fds);
}

// Raw peers: connections in any state when the server goes.
SIM_SCENARIO(R07, idle, 6) {
  timely();
  warm();
  World w;
  publish(1);
  int fds = sim::open_fds();
  {
    int peers = sim::range(CFG, 1, 4);
    auto server = std::make_unique<ServerNode>(w, 1, 0, server_options(2 * peers + 2));
    std::atomic<int> there{0};
    std::atomic<int64_t> gone{-1};
    Crew crew;
    for (int k = 0; k < peers; k++) crew.add([&, k] {
      sim::set_node(20 + k);
      try {
        arpc::channel c = raw_dial(1);
        std::string r;
        int64_t t = w.token();
        Job j;
        j.how = WAITING;
        switch (sim::pick(OPS, 5)) {
          case 0: break;                                                                      // says nothing
          case 1: r = packet(request_bytes<&Pinger::ping>(1, worker_name(), t)); r.resize(sim::pick(OPS, r.size())); break;   // half a request
          case 2: r = packet(request_bytes<&Worker::poke>(1, worker_name(), t, j)); break;
          case 3: for (int i = 0; i < 3; i++) r += packet(request_bytes<&Worker::poke>(i, worker_name(), w.token(), j)); break;
          default: { Job b; b.size = 20000; for (int i = 0; i < 3; i++) r += packet(request_bytes<&Worker::work>(i, worker_name(), w.token(), b, std::string("x"))); break; }
        }
        raw_write(c, r);
        there++;
        if (sim::chance(FAULT, 1, 5)) return;   // leaves before
        if (sim::chance(FAULT, 1, 3)) { while (gone < 0) sim::sleep_us(700); sim::sleep_ms(1); }   // reads nothing until the end
        bool ended = raw_read(c, 5000, [](const std::string&) { return true; });
        SIM_CHECK(ended, "connection-kept", "the connection of peer %d did not end with the server", k);
        sim::probe("peer-told");
      } catch (const arpc::errors::io_error&) { sim::probe("peer-error");
      } catch (const arpc::errors::eof&) { sim::probe("peer-eof"); }
    });
    if (sim::pick(FAULT, 2)) sim::sleep_us(sim::pick(FAULT, 3000));
    else sim::sleep_ms(sim::pick(FAULT, 300));
    bool twice = sim::pick(FAULT, 2);
    int64_t t0 = sim::now_ns();
    if (twice) {
      on(1, [&] { server->srv->stop(); });
      int64_t at = sim::now_ns();
      SIM_CHECK(at - t0 <= slack_ms() * MS, "slow-stop", "stopping took %lld ms", (long long)((at - t0) / MS));
      sim::sleep_ms(100);
      sim::Quiet q;
      SIM_CHECK(w.live_handlers == 0, "handler-not-told", "%d handlers still run 100 ms after the server has stopped", w.live_handlers);
    }
    server.reset();
    gone = sim::now_ns();
    SIM_CHECK(gone - t0 <= (200 + slack_ms()) * MS, "slow-stop", "destroying the server took %lld ms", (long long)((gone - t0) / MS));
    { sim::Quiet q; SIM_CHECK(w.live_handlers == 0, "handler-outlives", "%d handlers still run after their server was destroyed", w.live_handlers); }
  }
  sim::sleep_ms(slack_ms());
  SIM_CHECK(sim::open_fds() == fds, "leaked-descriptor", "%d descriptors are open that were not there before", sim::open_fds() - fds);
}

// Stopped just as requests arrive, whose handlers would go on for ever.
SIM_SCENARIO(R07, arrival, 7) {
  timely();
  sim::faults().seg_max = 0;
  World w;
  publish(1);
  {
    ServerNode server(w, 1, 0, server_options(sim::range(CFG, 2, 6)));
    sim::set_node(20);
    std::vector<arpc::channel> lines;
    for (int k = sim::range(OPS, 1, 3); k; k--) lines.push_back(raw_dial(1));
    sim::sleep_us(2 * sim::faults().lat_max_us + sim::pick(OPS, 3000));
    for (auto& c : lines) {
      std::string r;
      for (int i = sim::range(OPS, 1, 2); i; i--) {
        Job j;
        j.how = WAITING;
        r += packet(request_bytes<&Worker::poke>(i, worker_name(), w.token(), j));
      }
      raw_write(c, r);
    }
    sim::sleep_us(sim::faults().lat_min_us + sim::pick(OPS, 70) * (sim::options().step_ns / 1000 + 1));
    int64_t t0 = sim::now_ns();
    on(1, [&] { server.srv->stop(); });
    int64_t at = sim::now_ns();
    SIM_CHECK(at - t0 <= slack_ms() * MS, "slow-stop", "stopping took %lld ms", (long long)((at - t0) / MS));
    sim::sleep_ms(100);
    sim::Quiet q;
    SIM_CHECK(w.live_handlers == 0, "handler-not-told", "%d handlers still run 100 ms after the server has stopped", w.live_handlers);
    sim::probe(w.exec.empty() ? "stopped-before" : "stopped-meanwhile");
  }
}

// Handlers that stop, restart or start again the server they are running in.
SIM_SCENARIO(R07, from_within, 6) {
  timely();
  warm();
  World w;
  publish(1);
  int fds = sim::open_fds();
  {
    std::optional<Server> srv;
    enum { STOP = 100, RESTART, START, STOP_TWICE };
    bool meanwhile = sim::pick(CFG, 2);   // others stop it, too
    auto hop = [&](int to, int64_t token, Job, const std::string& r) {
      pause();
      int64_t t0 = sim::now_ns();
      sim::note("%lld from within: %d", (long long)token, to);
      switch (to) {
        case STOP_TWICE: srv->stop(); [[fallthrough]];
        case STOP: case RESTART:
          srv->stop();
          SIM_CHECK(arpc::context::current().is_cancelled(), "handler-not-told", "a handler that stopped its server is not cancelled");
          if (to == RESTART) {
            arpc::shield protect;   // a cancelled context resolves no address
            srv->start();
          }
          break;
        default: srv->start(); break;
      }
      int64_t d = sim::now_ns() - t0;
      SIM_CHECK(d <= 3 * slack_ms() * MS, "slow-stop", "stopping from within took %lld ms", (long long)(d / MS));
      sim::probe(to == RESTART ? "restarted-within" : to == START ? "started-within" : "stopped-within");
      return r;
    };
    Object obj(w, 0, "worker", hop);
    on(1, [&] {
      srv.emplace(server_options(0, sim::chance(CFG, 1, 4) ? (int)sim::pick(CFG, 4) : -1), arpc::endpoint().port(PORT));
      srv->register_object("worker", obj);
      srv->start();
    });
    {
      Traffic traffic(w, sim::range(CFG, 1, 2));
      std::optional<Client> boss;
      on(14, [&] { boss.emplace(place(1)); });
      for (int k = sim::range(OPS, 1, 3); k; k--) {
        pause();
        if (sim::pick(OPS, 2)) sim::sleep_us(sim::pick(OPS, 30000));
        Job j;
        int n = sim::pick(OPS, 5) ? 1 : 2;   // one order, or two at once
        std::vector<std::pair<arpc::future<std::string>, uint32_t>> fs;
        Result res = on(14, [&] { return attempt([&] {
          for (int i = 0; i < n; i++) {
            int what = STOP + sim::pick(OPS, 4);
            j.hops = {what};
            fs.push_back(boss->get_proxy<Worker::async>("worker").work(w.token(), j, ""));
          }
          for (auto& f : fs) f.first.get();
        }); });
        // Whoever has the server stopped cannot count on a reply.
        SIM_CHECK(res.ok || res.kind == "io_error" || res.kind == "eof" || res.kind == "cancelled", "wrong-error", "the order ended with %s: %s", res.kind.c_str(), res.what.c_str());
        SIM_CHECK(res.t1 - res.t0 <= 8 * slack_ms() * MS + res.cost, "call-held", "the order took %lld ms", (long long)((res.t1 - res.t0) / MS));
        fs.clear();
        if (meanwhile && sim::pick(OPS, 3) == 0) on(1, [&] { srv->stop(); });
        // Whatever came of it, handlers end, and it serves once it has been started.
        sim::sleep_ms(200);
        on(1, [&] { srv->start(); });
        std::optional<Client> fresh;
        on(15, [&] {
          fresh.emplace(place(1));
          int64_t t = w.token(), r = 0;
          Result res = attempt([&] { r = fresh->get_proxy<Worker>("worker").ping(t); });
          SIM_CHECK(res.ok && r == t * 3 + 1, "not-served-again", "a call to the restarted server failed with %s: %s", res.kind.c_str(), res.what.c_str());
          SIM_CHECK(res.t1 - res.t0 <= (300 + slack_ms()) * MS + res.cost, "slow-restart", "the restarted server answered after %lld ms", (long long)((res.t1 - res.t0) / MS));
          sim::probe("served-again");
          fresh.reset();
        });
      }
      on(14, [&] { boss.reset(); });
      if (sim::pick(CFG, 2)) traffic.finish();
      on(1, [&] { srv.reset(); });
      int n = total_runs(w);
      { sim::Quiet q; SIM_CHECK(w.live_handlers == 0, "handler-outlives", "%d handlers still run after their server was destroyed", w.live_handlers); }
      sim::sleep_us(sim::pick(FAULT, 50000));
      SIM_CHECK(total_runs(w) == n, "started-after-stop", "%d handlers started after their server was destroyed", total_runs(w) - n);
    }
  }
  sim::sleep_ms(slack_ms());
  SIM_CHECK(sim::open_fds() == fds, "leaked-descriptor", "%d descriptors are open that were not there before", sim::open_fds() - fds);
}
