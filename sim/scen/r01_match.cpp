extern "C" unsigned alarm(unsigned) noexcept;
#include "near_ids.h"
using namespace rpc;

namespace {
using WorkProxy = decltype(std::declval<Client&>().get_proxy<Worker>("x"));
using AsyncProxy = decltype(std::declval<Client&>().get_proxy<Worker::async>("x"));

struct Calls {
  World& w;
  bool faulty;       // connections break: calls may fail, but never wrongly
  CancelHub* hub;

  void settled(int64_t token, const Job& j, const std::string& payload, const Result& r, const std::string& got) {
    Exec e = w.get(token);
    if (r.ok) {
      SIM_CHECK(e.runs > 0, "reply-without-run", "call %lld was answered and never run", (long long)token);
      if (j.how == FAILING) check_failure(token, j, r);
      SIM_CHECK(got == answer(token, j, payload), "wrong-reply", "call %lld got '%s' (%zu bytes) instead of '%s' (%zu bytes)", (long long)token, got.substr(0, 60).c_str(), got.size(), answer(token, j, payload).substr(0, 60).c_str(), answer(token, j, payload).size());
    } else if (!faulty) {
      SIM_CHECK(e.runs > 0, "error-without-run", "call %lld failed with %s: %s and was never run", (long long)token, r.kind.c_str(), r.what.c_str());
      SIM_CHECK(j.how == FAILING, "call-failed", "call %lld failed with %s: %s though nothing went wrong", (long long)token, r.kind.c_str(), r.what.c_str());
      check_failure(token, j, r);
    } else if (j.how == FAILING && e.ended_ok == false && e.runs && r.what == j.text && !j.text.empty()) {
      check_failure(token, j, r);
    }
  }
  void sync_call(Worker& p, int slow) {
    int64_t t = w.token();
    switch (sim::pick(OPS, 4)) {
      case 0: {
        int64_t got = 0;
        Result r = attempt([&] { got = p.ping(t); });
        SIM_CHECK(r.ok || faulty, "call-failed", "ping %lld failed with %s: %s", (long long)t, r.kind.c_str(), r.what.c_str());
        SIM_CHECK(!r.ok || got == t * 3 + 1, "wrong-reply", "ping %lld got %lld", (long long)t, (long long)got);
        break;
      }
      case 1: {
        std::map<std::string, int64_t> m;
        std::vector<int16_t> v;
        std::optional<std::string> o;
        for (uint32_t n = sim::pick(OPS, 4); n; n--) m["k" + std::to_string(sim::pick(OPS, 100))] = t + n;
        for (uint32_t n = sim::pick(OPS, 9); n; n--) v.push_back(sim::pick(OPS, 60000));
        if (sim::pick(OPS, 2)) o = fill(t, sim::pick(OPS, 20));
        std::vector<std::string> want{std::to_string(t)}, got;
        for (auto& e : m) want.push_back(e.first + "=" + std::to_string(e.second));
        want.push_back(o ? *o : "none");
        for (auto x : v) want.push_back(std::to_string(x));
        Result r = attempt([&] { got = p.split(t, m, o, v); });
        SIM_CHECK(r.ok || faulty, "call-failed", "split %lld failed with %s: %s", (long long)t, r.kind.c_str(), r.what.c_str());
        SIM_CHECK(!r.ok || got == want, "wrong-reply", "split %lld got something else", (long long)t);
        break;
      }
      case 2: {
        Job j = random_job(slow);
        Result r = attempt([&] { p.poke(t, j); });
        if (j.how == FAILING) { if (!faulty || r.ok) check_failure(t, j, r); }
        else SIM_CHECK(r.ok || faulty, "call-failed", "poke %lld failed with %s: %s", (long long)t, r.kind.c_str(), r.what.c_str());
        if (r.ok) SIM_CHECK(w.get(t).runs > 0, "reply-without-run", "call %lld was answered and never run", (long long)t);
        break;
      }
      default: {
        Job j = random_job(slow);
        std::string p2 = payload_of(t), got;
        Result r = attempt([&] { got = p.work(t, j, p2); });
        settled(t, j, p2, r, got);
      }
    }
  }
  // Several calls at once, collected in any order, some of them given up.
  void async_calls(Worker::async& p, int slow) {
    struct One { int64_t t; Job j; std::string payload; std::optional<arpc::future<std::string>> f; };
    std::vector<One> open;
    for (uint32_t n = sim::range(OPS, 1, 5); n; n--) {
      One o;
      o.t = w.token();
      o.j = random_job(slow);
      o.payload = payload_of(o.t);
      Result r = attempt([&] { o.f.emplace(std::move(p.work(o.t, o.j, o.payload).first)); });
      if (!r.ok) { SIM_CHECK(faulty, "call-failed", "sending call %lld failed with %s: %s", (long long)o.t, r.kind.c_str(), r.what.c_str()); continue; }
      open.push_back(std::move(o));
    }
    while (!open.empty()) {
      if (sim::chance(OPS, 1, 8)) {
        open.erase(open.begin() + sim::pick(OPS, (uint32_t)open.size()));
        sim::probe("abandoned");
        continue;
      }
      if (open.size() >= 2 && sim::pick(OPS, 2)) {
        size_t a = sim::pick(OPS, (uint32_t)open.size()), b = (a + 1) % open.size();
        std::optional<std::string> ga, gb;
        Result ra, rb;
        auto [x, y, to] = arpc::select(open[a].f->async_get(), open[b].f->async_get(), arpc::timeout(ms(sim::pick(OPS, 50))));
        if (x) ra = attempt([&] { ga = std::move(*x); });
        if (y) rb = attempt([&] { gb = std::move(*y); });
        if (x) settled(open[a].t, open[a].j, open[a].payload, ra, ga.value_or(""));
        if (y) settled(open[b].t, open[b].j, open[b].payload, rb, gb.value_or(""));
        bool dx = (bool)x, dy = (bool)y;
        if (dx && dy) { open.erase(open.begin() + std::max(a, b)); open.erase(open.begin() + std::min(a, b)); }
        else if (dx) open.erase(open.begin() + a);
        else if (dy) open.erase(open.begin() + b);
        continue;
      }
      size_t a = sim::pick(OPS, (uint32_t)open.size());
      std::string got;
      Result r = attempt([&] { got = open[a].f->get(); });
      settled(open[a].t, open[a].j, open[a].payload, r, got);
      open.erase(open.begin() + a);
    }
  }
};

void traffic(bool faulty) {
  rpc_faults();
  bool slow_net = sim::faults().lat_min_us >= 500;
  World w;
  int nservers = sim::range(CFG, 1, 2), nclients = sim::range(CFG, 1, 3);
  for (int i = 0; i < nservers; i++) publish(1 + i, sim::chance(CFG, 1, 4) ? 20 : 0);
  int queue = -1;
  std::vector<std::unique_ptr<ServerNode>> servers;
  for (int i = 0; i < nservers; i++) servers.push_back(std::make_unique<ServerNode>(w, 1 + i, i, server_options(0, queue)));
  struct Cl { int node; std::optional<Client> c; int server; };
  std::vector<std::unique_ptr<Cl>> clients;
  for (int i = 0; i < nclients; i++) {
    auto c = std::make_unique<Cl>();
    c->node = 10 + sim::pick(CFG, 2);
    c->server = sim::pick(CFG, nservers);
    on(c->node, [&] { c->c.emplace(place(1 + c->server)); });
    clients.push_back(std::move(c));
  }
  Calls calls{w, faulty, nullptr};
  int slow = slow_net ? 5 : 50;
  bool done = false;
  {
    Crew crew;
    for (auto& c : clients) {
      int threads = sim::range(OPS, 1, 3);
      auto shared = std::make_shared<std::optional<WorkProxy>>();
      bool share = sim::pick(OPS, 2);
      if (share) shared->emplace(c->c->get_proxy<Worker>("worker"));
      for (int t = 0; t < threads; t++)
        crew.add([&, shared, share, &c = *c] {
          sim::set_node(c.node);
          auto own = c.c->get_proxy<Worker>("worker");
          auto as = c.c->get_proxy<Worker::async>("worker");
          Worker& p = share ? (Worker&)**shared : (Worker&)own;
          for (uint32_t n = sim::range(OPS, 1, 4); n; n--) {
            pause();
            if (sim::pick(OPS, 2)) calls.sync_call(p, slow);
            else calls.async_calls(as, slow);
          }
        });
    }
    std::thread chaos;
    if (faulty) chaos = std::thread([&] {
      for (uint32_t n = sim::range(FAULT, 1, 4); n; n--) {
        sim::sleep_us(sim::pick(FAULT, 30000));
        sim::net_reset_all(sim::pick(FAULT, 2) ? 1 + sim::pick(FAULT, nservers) : 10 + sim::pick(FAULT, 2));
      }
    });
    crew.join();
    if (chaos.joinable()) chaos.join();
  }
  (void)done;
  for (auto& e : w.exec) SIM_CHECK(e.second.runs <= 1, "run-twice", "call %lld ran %d times", (long long)e.first, e.second.runs);
  sim::sample("%d servers, %d clients, %lld calls", nservers, nclients, (long long)w.next - 1);
  if (sim::pick(OPS, 2)) servers.clear();
  clients.clear();
}
}  // namespace

SIM_SCENARIO(R01, traffic, 20) { traffic(false); }
SIM_SCENARIO(R01, breaking, 12) { traffic(true); }

// Hundreds of calls over one connection while a few early ones stay open all along.
SIM_SCENARIO(R01, marathon, 2) {
  rpc_faults();
  auto& f = sim::faults();
  if (f.lat_max_us > 1000) f.lat_min_us = f.lat_max_us = 100;
  f.seg_max = 0;
  f.short_read = f.short_write = 0;
  World w;
  publish(1);
  int early = sim::range(OPS, 1, 3), threads = sim::range(OPS, 1, 2), each = sim::range(OPS, 130, 330);
  ServerNode server(w, 1, 0, server_options(early + 1 + sim::pick(CFG, 2)));
  sim::set_node(10);
  Client client(place(1));
  sim::sample("%d open calls, %d more", early, threads * each);
  struct One { int64_t t; Job j; std::string payload; std::optional<arpc::future<std::string>> f; uint32_t id; };
  std::vector<One> open;
  auto as = client.get_proxy<Worker::async>("worker");
  int64_t long_ms = 24 * 3600 * 1000LL / 50;   // well within the usual time limit of calls
  for (int i = 0; i < early; i++) {
    One o;
    o.t = w.token();
    o.j.how = SLEEPING;
    o.j.ms = (int)long_ms;
    o.j.size = sim::pick(OPS, 200);
    o.payload = payload_of(o.t, 500);
    auto r = as.work(o.t, o.j, o.payload);
    o.f.emplace(std::move(r.first));
    o.id = r.second;
    open.push_back(std::move(o));
    if (sim::pick(OPS, 2)) { int64_t t = w.token(); SIM_CHECK(client.get_proxy<Worker>("worker").ping(t) == t * 3 + 1, "wrong-reply", "ping %lld", (long long)t); }
  }
  while (true) {   // until their handlers run
    int runs = 0;
    for (auto& o : open) runs += w.get(o.t).runs;
    if (runs == early) break;
    sim::sleep_ms(1);
  }
  std::mutex mu;
  std::set<uint32_t> ids;
  for (auto& o : open) ids.insert(o.id);
  {
    Crew crew;
    for (int k = 0; k < threads; k++)
      crew.add([&] {
        sim::set_node(10);
        auto p = client.get_proxy<Worker>("worker");
        auto as = client.get_proxy<Worker::async>("worker");
        for (int i = 0; i < each; i++) {
          int64_t t = w.token();
          if (sim::chance(OPS, 1, 4)) {
            auto [f, id] = as.ping(t);
            { std::scoped_lock l(mu); SIM_CHECK(ids.insert(id).second, "id-reused", "two calls have the id %u", id); }
            int64_t got = f.get();
            SIM_CHECK(got == t * 3 + 1, "wrong-reply", "ping %lld got %lld", (long long)t, (long long)got);
          } else {
            int64_t got = p.ping(t);
            SIM_CHECK(got == t * 3 + 1, "wrong-reply", "ping %lld got %lld", (long long)t, (long long)got);
          }
        }
      });
  }
  size_t cancelled = sim::pick(OPS, 2) ? open.size() : sim::pick(OPS, (uint32_t)open.size());
  if (cancelled < open.size()) client.cancel_request(open[cancelled].id);
  for (size_t i = 0; i < open.size(); i++) {
    auto& o = open[i];
    SIM_CHECK(w.get(o.t).runs == 1, "run-twice", "call %lld ran %d times", (long long)o.t, w.get(o.t).runs);
    std::string got;
    Result r = attempt([&] { got = o.f->get(); });
    if (i == cancelled) SIM_CHECK(!r.ok && r.kind == "cancelled", "wrong-reply", "a cancelled call ended with %s", r.ok ? "ok" : r.kind.c_str());
    else SIM_CHECK(r.ok && got == answer(o.t, o.j, o.payload), "wrong-reply", "call %lld, open all along, ended with %s %s", (long long)o.t, r.ok ? "the wrong reply" : r.kind.c_str(), r.what.c_str());
  }
  for (auto& e : w.exec) SIM_CHECK(e.second.runs <= 1, "run-twice", "call %lld ran %d times", (long long)e.first, e.second.runs);
}

// Clients that come and go, some before their calls are done: whoever comes
// next starts counting its calls from the beginning, too.
SIM_SCENARIO(R01, newcomers, 6) {
  rpc_faults();
  World w;
  publish(1);
  int lanes = sim::range(OPS, 1, 3), each = sim::range(OPS, 2, 6);
  ServerNode server(w, 1, 0, server_options(6 + lanes * each));
  sim::sample("%d lanes of %d clients", lanes, each);
  bool sharing = sim::pick(CFG, 2);
  std::atomic<int> left_early{0};
  {
    Crew crew;
    for (int k = 0; k < lanes; k++)
      crew.add([&, k] {
        sim::set_node(10 + (sharing ? 0 : k));
        for (int i = 0; i < each; i++) {
          pause();
          Client client(place(1));
          auto as = client.get_proxy<Worker::async>("worker");
          struct One { int64_t t; Job j; std::string payload; std::optional<arpc::future<std::string>> f; };
          std::vector<One> open;
          for (uint32_t n = sim::range(OPS, 1, 3); n; n--) {
            One o;
            o.t = w.token();
            o.j.how = std::vector<int>{AT_ONCE, SLEEPING, DEAF}[sim::pick(OPS, 3)];
            o.j.ms = sim::pick(OPS, 60);
            o.j.size = sim::pick(OPS, 100);
            o.payload = payload_of(o.t, 300);
            o.f.emplace(std::move(as.work(o.t, o.j, o.payload).first));
            open.push_back(std::move(o));
          }
          // Some leave as soon as the server is at work for them.
          if (sim::chance(OPS, 2, 5)) {
            if (sim::pick(OPS, 2)) while (w.get(open[0].t).runs == 0) sim::sleep_us(200);
            else pause();
            left_early++;
            continue;
          }
          for (auto& o : open) {
            std::string got;
            Result r = attempt([&] { got = o.f->get(); });
            SIM_CHECK(r.ok, "call-failed", "call %lld failed with %s: %s though nothing went wrong", (long long)o.t, r.kind.c_str(), r.what.c_str());
            SIM_CHECK(got == answer(o.t, o.j, o.payload), "wrong-reply", "call %lld got a wrong reply of %zu bytes", (long long)o.t, got.size());
          }
        }
      });
  }
  if (left_early) sim::probe("left-early");
  for (auto& e : w.exec) SIM_CHECK(e.second.runs <= 1, "run-twice", "call %lld ran %d times", (long long)e.first, e.second.runs);
}

// Tens of thousands of calls during one that stays open.  Most are given up
// before anything is sent, which costs little and takes an identification all the same.
SIM_SCENARIO(R01, thousands, 1) {
  rpc_faults();
  auto& f = sim::faults();
  if (f.lat_max_us > 1000) f.lat_min_us = f.lat_max_us = 100;
  sim::options().max_steps = 20000000;
  World w;
  publish(1);
  ServerNode server(w, 1, 0, server_options(3));
  sim::set_node(10);
  Client client(place(1));
  auto as = client.get_proxy<Worker::async>("worker");
  for (int k = sim::pick(OPS, 3); k; k--) as.ping(w.token()).first.get();
  int64_t slow = w.token();
  Job j;
  j.how = SLEEPING;
  j.ms = 100000;
  std::string payload = payload_of(slow, 50);
  auto [f0, id0] = as.work(slow, j, payload);
  std::set<uint32_t> ids{id0};
  const uint32_t top = 1u << (sim::chance(OPS, 1, 40) ? 16 : 8 + sim::weighted(OPS, {6, 5, 4, 3, 2, 1}));
  if (top > 10000) ::alarm(300);   // of real time, on a busy machine
  sim::sample("%u calls", top);
  uint32_t used = 1;
  auto burn = [&](uint32_t upto) {
    arpc::context gone;
    gone.cancel();
    while (used < upto) {
      Result r = attempt([&] { as.ping(1); });
      SIM_CHECK(!r.ok && r.kind == "cancelled", "wrong-error", "a call in a cancelled context ended with %s", r.ok ? "ok" : r.kind.c_str());
      used++;
    }
  };
  for (uint32_t edge = 256; edge <= top; edge *= 2) {
    burn(edge - 2);
    for (int k = 0; k < 4; k++, used++) {
      int64_t t = w.token();
      auto [f, id] = as.ping(t);
      SIM_CHECK(ids.insert(id).second, "id-reused", "two calls have the id %u", id);
      int64_t got = f.get();
      SIM_CHECK(got == t * 3 + 1, "wrong-reply", "ping %lld got %lld", (long long)t, (long long)got);
    }
  }
  if (top == 65536) sim::probe("65536-calls");
  SIM_CHECK(w.get(slow).runs == 1, "run-twice", "call %lld ran %d times", (long long)slow, w.get(slow).runs);
  std::string got;
  Result r = attempt([&, &f0 = f0] { got = f0.get(); });
  SIM_CHECK(r.ok && got == answer(slow, j, payload), "wrong-reply", "the call open all along ended with %s %s", r.ok ? "the wrong reply" : r.kind.c_str(), r.what.c_str());
}

SIM_SCENARIO(R01, near_ids, 3) { near_ids(false); }
