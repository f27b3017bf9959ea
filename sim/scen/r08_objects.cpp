#include "rpc.h"
using namespace rpc;

namespace {
constexpr int64_t MS = 1000000;
void timely() {
  rpc_faults();
  sim::faults().stall = 0;
  if (sim::faults().sndbuf < 400) sim::faults().sndbuf = 400;
  if (sim::faults().lat_max_us > 20000) sim::faults().lat_max_us = 20000;
}
int64_t slack_ms() { return 400 + 20000 * sim::options().step_ns / 1000000 + 60LL * sim::faults().lat_max_us / 1000; }

// Implements another interface, with methods that sound the same.
class OtherImpl : public Other {
 public:
  OtherImpl(World& w, int id) : w_(w), id_(id) {}
  int64_t poke(int64_t token) override {
    w_.with(token, [&](Exec& e) { e.runs++; e.live++; e.start = sim::now_ns(); e.server = id_; w_.live_handlers++; });
    sim::sleep_us(token % 3 * 400);
    w_.with(token, [&](Exec& e) { e.live--; e.end = sim::now_ns(); w_.live_handlers--; });
    return token * 7 + 3;
  }
  int64_t nothing() override { return 77; }
 private:
  World& w_;
  int id_;
};

// What a name stood for, over time.
struct State { int id = -1; bool other = false; };
struct Slot {
  std::mutex mu;                          // changes one after the other
  std::shared_ptr<arpc::server_object<Impl>> main;
  std::shared_ptr<arpc::server_object<OtherImpl>> alt;
  struct Change { uint64_t begin, end; State to; };
  std::vector<Change> changes;            // the first one at 0
  int id = -1;
  void begin(State to) { sim::Quiet q; changes.push_back({sim::seq(), UINT64_MAX, to}); }
  void end() { sim::Quiet q; changes.back().end = sim::seq(); }
  // Could the name have stood for such a thing at some time between?
  template <typename F> bool possible(uint64_t from, uint64_t to, F f) {
    sim::Quiet q;
    for (size_t i = 0; i < changes.size(); i++) {
      uint64_t b = changes[i].begin, e = i + 1 < changes.size() ? changes[i + 1].end : UINT64_MAX;
      if (b <= to && e >= from && f(changes[i].to)) return true;
    }
    return false;
  }
};
}  // namespace

// Objects come and go while they are called.
SIM_SCENARIO(R08, churn, 14) {
  timely();
  World w;
  publish(1);
  int nclients = sim::range(CFG, 1, 2), nslots = sim::range(CFG, 1, 3);
  std::vector<std::unique_ptr<Slot>> slots;
  for (int i = 0; i < nslots; i++) { slots.push_back(std::make_unique<Slot>()); slots[i]->begin(State()); slots[i]->end(); slots[i]->changes[0].begin = 0; }
  auto name = [](int i) { return std::string("object") + std::to_string(i); };
  std::atomic<int> next_id{100};
  ServerNode server(w, 1, 0, server_options(10));
  std::vector<std::unique_ptr<Client>> clients;
  for (int i = 0; i < nclients; i++) on(10 + i, [&] { clients.push_back(std::make_unique<Client>(place(1))); });
  std::atomic<bool> over{false};
  struct Gone { int id; int runs; };
  std::vector<Gone> gone;
  std::mutex gmu;
  auto runs_on = [&](int id, bool live) { sim::Quiet q; int n = 0; for (auto& e : w.exec) if (e.second.server == id && e.second.runs) n += live ? e.second.live : e.second.runs; return n; };
  {
    Crew crew;
    for (int c = sim::range(OPS, 1, 2); c; c--) crew.add([&] {
      sim::set_node(1);
      for (int n = sim::range(OPS, 2, 10); n; n--) {
        Slot& s = *slots[sim::pick(OPS, nslots)];
        int at = 0;
        for (int i = 0; i < nslots; i++) if (&*slots[i] == &s) at = i;
        pause();
        int id = -1;
        std::shared_ptr<arpc::server_object<Impl>> old_main;
        std::shared_ptr<arpc::server_object<OtherImpl>> old_alt;
        {
          std::scoped_lock l(s.mu);
          old_main = std::move(s.main);
          old_alt = std::move(s.alt);
          id = s.id;
          s.id = -1;
          int what = sim::pick(OPS, 3);
          if (what == 0) {
            // Gone, by name or by object.
            s.begin(State());
            if (old_main && sim::pick(OPS, 2)) server.srv->unregister_object(*old_main);
            else if (old_alt && sim::pick(OPS, 2)) server.srv->unregister_object(*old_alt);
            else server.srv->unregister_object(name(at));
            s.end();
            sim::probe("unregistered");
          } else {
            State st;
            st.id = s.id = next_id++;
            st.other = what == 2 && sim::pick(OPS, 2);
            if (st.other) s.alt = std::make_shared<arpc::server_object<OtherImpl>>(w, st.id);
            else s.main = std::make_shared<arpc::server_object<Impl>>(w, st.id, name(at));
            s.begin(st);
            if (st.other) server.srv->register_object(name(at), *s.alt);
            else server.srv->register_object(name(at), *s.main);
            s.end();
            sim::probe("registered");
          }
        }
        // The object itself goes, once nothing runs on it any more.
        if (old_main || old_alt) {
          int64_t t0 = sim::now_ns();
          old_main.reset();
          old_alt.reset();
          int64_t d = sim::now_ns() - t0;
          SIM_CHECK(d < (300 + slack_ms()) * MS, "slow-destruction", "destroying an unregistered object took %lld ms", (long long)(d / MS));
          if (id >= 0) {
            SIM_CHECK(runs_on(id, true) == 0, "handler-outlives", "a handler still runs on destroyed object %d", id);
            std::scoped_lock l(gmu);
            gone.push_back({id, runs_on(id, false)});
          }
          sim::probe("object-destroyed");
        }
      }
      over = true;
    });
    for (int i = 0; i < nclients; i++) for (int k = sim::range(OPS, 1, 3); k; k--) crew.add([&, i] {
      sim::set_node(10 + i);
      for (int n = 0; n < 3 || (!over && n < 50); n++) {
        int at = sim::pick(OPS, nslots);
        Slot& s = *slots[at];
        int64_t t = w.token();
        bool other = sim::chance(OPS, 1, 4), steady = sim::chance(OPS, 1, 4);
        int64_t got = 0;
        std::string text;
        Job j;
        bool long_one = sim::chance(OPS, 1, 3);
        j.how = sim::pick(OPS, 2) ? DEAF : SLEEPING;
        j.ms = sim::pick(OPS, 40);
        uint64_t c0 = sim::seq();
        std::string nm = steady ? "worker" : name(at);
        Result r;
        if (steady) r = attempt([&] { got = clients[i]->get_proxy<Worker>("worker").ping(t); });
        else r = attempt([&] {
          if (other) got = clients[i]->get_proxy<Other>(nm).poke(t);
          else if (long_one) text = clients[i]->get_proxy<Worker>(nm).work(t, j, "p");
          else got = clients[i]->get_proxy<Worker>(nm).ping(t);
        });
        uint64_t c1 = sim::seq();
        Exec e = w.get(t);
        if (steady) {
          SIM_CHECK(r.ok && got == t * 3 + 1, "bystander-hurt", "call %lld to another object failed with %s: %s", (long long)t, r.kind.c_str(), r.what.c_str());
          SIM_CHECK(r.t1 - r.t0 < slack_ms() * MS + r.cost, "bystander-held", "call %lld to another object took %lld ms", (long long)t, (long long)((r.t1 - r.t0) / MS));
          sim::probe("bystander-served");
          continue;
        }
        if (r.ok) {
          if (other) SIM_CHECK(got == t * 7 + 3, "wrong-reply", "call %lld got a wrong reply", (long long)t);
          else if (long_one) SIM_CHECK(text == answer(t, j, "p"), "wrong-reply", "call %lld got a wrong reply", (long long)t);
          else SIM_CHECK(got == t * 3 + 1, "wrong-reply", "call %lld got a wrong reply", (long long)t);
          SIM_CHECK(e.runs == 1, "run-count", "call %lld ran %d times", (long long)t, e.runs);
          SIM_CHECK(s.possible(c0, c1, [&](const State& x) { return x.id == e.server && x.other == other; }), "wrong-object", "call %lld to %s ran on object %d, which was not registered", (long long)t, nm.c_str(), e.server);
          sim::probe("served");
        } else {
          SIM_CHECK(r.kind == "not_found", "wrong-error", "call %lld failed with %s: %s", (long long)t, r.kind.c_str(), r.what.c_str());
          SIM_CHECK(e.runs == 0, "run-count", "call %lld was refused and ran nevertheless", (long long)t);
          SIM_CHECK(s.possible(c0, c1, [&](const State& x) { return x.id < 0 || x.other != other; }), "not-found", "call %lld to %s, which was there all the time, found nothing", (long long)t, nm.c_str());
          sim::probe("refused");
        }
      }
    });
    crew.join();
  }
  for (auto& g : gone) SIM_CHECK(runs_on(g.id, false) == g.runs, "started-after-destruction", "%d handlers started on object %d after its destruction", runs_on(g.id, false) - g.runs, g.id);
  for (int i = 0; i < nslots; i++) server.srv->unregister_object(name(i));
}

// Names nobody knows, interfaces an object lacks; next to calls that are fine.
SIM_SCENARIO(R08, unknown, 8) {
  rpc_faults();
  World w;
  publish(1);
  int nclients = sim::range(CFG, 1, 2);
  ServerNode server(w, 1, 0, server_options());
  arpc::server_object<OtherImpl> alt(w, 50);
  arpc::server_object<Impl> seven(w, 7, "7");
  server.srv->register_object(std::string("alt"), alt);
  server.srv->register_object(7, seven);
  std::vector<std::unique_ptr<Client>> clients;
  for (int i = 0; i < nclients; i++) on(10 + i, [&] { clients.push_back(std::make_unique<Client>(place(1))); });
  {
    Crew crew;
    for (int i = 0; i < nclients; i++) for (int k = sim::range(OPS, 1, 3); k; k--) crew.add([&, i] {
      sim::set_node(10 + i);
      auto& c = *clients[i];
      for (int n = sim::range(OPS, 1, 8); n; n--) {
        int64_t t = w.token(), got = 0, want = 0;
        bool known = false;
        int on = 0;
        Job j;
        Result r = attempt([&] {
          switch (sim::pick(OPS, 12)) {
            case 0: got = c.get_proxy<Worker>("nobody").ping(t); break;
            case 1: got = c.get_proxy<Worker>(std::string("")).ping(t); break;
            case 2: got = c.get_proxy<Worker>(8).ping(t); break;
            case 3: known = true; on = 7; want = t * 3 + 1; got = c.get_proxy<Worker>(7).ping(t); break;
            case 4: got = c.get_proxy<Worker>(std::string("alt")).ping(t); break;
            case 5: c.get_proxy<Worker>(std::string("alt")).poke(t, j); break;
            case 6: known = true; on = 50; want = t * 7 + 3; got = c.get_proxy<Other>(std::string("alt")).poke(t); break;
            case 7: got = c.get_proxy<Other>("worker").poke(t); break;
            case 8: got = c.get_proxy<Other>("worker").nothing(); break;
            case 9: got = c.get_proxy<Worker::async>("nobody").ping(t).first.get(); break;
            case 10: known = true; got = want = 1; SIM_CHECK(!c.get_proxy<Graphs>("worker").turn(t, nullptr), "wrong-reply", "something out of nothing"); break;
            default: known = true; want = t * 3 + 1; got = c.get_proxy<Pinger>("worker").ping(t); break;
          }
        });
        Exec e = w.get(t);
        if (known) {
          SIM_CHECK(r.ok, "bystander-hurt", "call %lld failed with %s: %s", (long long)t, r.kind.c_str(), r.what.c_str());
          SIM_CHECK(got == want && e.runs == 1 && e.server == on, "wrong-reply", "call %lld ran %d times, on %d", (long long)t, e.runs, e.server);
          sim::probe("served");
        } else {
          SIM_CHECK(!r.ok && r.kind == "not_found", "wrong-error", "call %lld to nothing ended with %s: %s", (long long)t, r.ok ? "success" : r.kind.c_str(), r.what.c_str());
          SIM_CHECK(e.runs == 0, "run-count", "call %lld to nothing ran", (long long)t);
          sim::probe("refused");
        }
      }
    });
    // A peer asking for what is almost there.
    if (sim::pick(OPS, 2)) crew.add([&] {
      sim::set_node(15);
      arpc::channel c = raw_dial(1);
      c.make_non_blocking();
      std::map<uint32_t, std::pair<int64_t, bool>> asked;   // by id: token, whether it exists
      uint32_t n = sim::range(OPS, 1, 8);
      for (uint32_t id = 0; id < n; id++) {
        int64_t t = w.token();
        std::string object = worker_name(), name = "ping";
        uint32_t twist = 0;
        auto near = [](std::string& s) {
          switch (sim::pick(OPS, 4)) {
            case 0: s[sim::pick(OPS, (uint32_t)s.size())] ^= 1 << sim::pick(OPS, 8); break;
            case 1: s.pop_back(); break;
            case 2: s.push_back(0); break;
            default: s = "";
          }
        };
        int what = sim::pick(OPS, 4);
        if (what == 0) twist = 1u << sim::pick(OPS, 32);
        else if (what == 1) near(name);
        else if (what == 2) near(object);
        asked[id] = {t, what == 3};
        arpc::context::current();
        raw_write(c, packet(request_bytes_as<&Pinger::ping>(name, twist, arpc::context::current(), id, object, t)));
        raw_read(c, 700000, [&](const std::string& p) {
          uint32_t id = 0;
          std::optional<int64_t> v;
          std::string error;
          SIM_CHECK(read_reply<int64_t>(p, id, v, error) && asked.count(id), "wrong-reply", "an unintelligible reply");
          auto [token, exists] = asked[id];
          asked.erase(id);
          if (exists) SIM_CHECK(v && *v == token * 3 + 1, "bystander-hurt", "request %lld failed with %s", (long long)token, error.c_str());
          else {
            SIM_CHECK(!v && error == "not_found", "wrong-error", "request %lld for something that is not there ended with %s", (long long)token, v ? "success" : error.c_str());
            SIM_CHECK(w.get(token).runs == 0, "run-count", "request %lld for something that is not there ran", (long long)token);
            sim::probe("near-miss");
          }
          return false;
        });
        SIM_CHECK(asked.empty(), "no-reply", "request %lld was not answered", (long long)t);
      }
    });
  }
  server.srv.reset();
}

// Objects that go by several names of several kinds at once.
SIM_SCENARIO(R08, aliases, 8) {
  timely();
  World w;
  publish(1);
  constexpr int NAMES = 5;
  struct Thing { int id; std::unique_ptr<arpc::server_object<Impl>> a; std::unique_ptr<arpc::server_object<OtherImpl>> b; };
  std::vector<Thing> things(sim::range(CFG, 1, 3));
  int next_id = 100;
  ServerNode server(w, 1, 0, server_options(8));
  Slot names[NAMES];
  for (auto& s : names) { s.begin(State()); s.end(); s.changes[0].begin = 0; }
  // Applies f to one of the names.
  auto with_name = [](int i, auto f) {
    switch (i) {
      case 0: return f(std::string("first"));
      case 1: return f(std::string(""));
      case 2: return f(12);
      case 3: return f(std::string(200, 'n'));
      default: return f(std::make_pair(std::string("first"), 12));
    }
  };
  auto make = [&](Thing& t) {
    t.id = next_id++;
    if (sim::chance(OPS, 1, 4)) t.b = std::make_unique<arpc::server_object<OtherImpl>>(w, t.id);
    else t.a = std::make_unique<arpc::server_object<Impl>>(w, t.id, "alias");
  };
  for (auto& t : things) make(t);
  std::vector<std::unique_ptr<Client>> clients;
  int nclients = sim::range(CFG, 1, 2);
  for (int i = 0; i < nclients; i++) on(10 + i, [&] { clients.push_back(std::make_unique<Client>(place(1))); });
  auto runs_on = [&](int id) { sim::Quiet q; int n = 0; for (auto& e : w.exec) if (e.second.server == id) n += e.second.runs; return n; };
  std::vector<std::pair<int, int>> gone;
  std::atomic<bool> over{false};
  auto forget = [&](Thing& t) {
    // Every name it goes by.
    for (auto& s : names) if (s.id == t.id) s.begin(State());
    if (t.a) server.srv->unregister_object(*t.a); else server.srv->unregister_object(*t.b);
    for (auto& s : names) if (s.id == t.id) { s.end(); s.id = -1; }
  };
  auto replace = [&](Thing& t) {
    int64_t t0 = sim::now_ns();
    t.a.reset();
    t.b.reset();
    int64_t d = sim::now_ns() - t0;
    SIM_CHECK(d < (300 + slack_ms()) * MS, "slow-destruction", "destroying an unregistered object took %lld ms", (long long)(d / MS));
    gone.push_back({t.id, runs_on(t.id)});
    sim::probe("object-destroyed");
  };
  {
    Crew crew;
    crew.add([&] {
      sim::set_node(1);
      for (int n = sim::range(OPS, 4, 16); n; n--) {
        Thing& t = things[sim::pick(OPS, (uint32_t)things.size())];
        int i = sim::pick(OPS, NAMES);
        pause();
        switch (sim::weighted(OPS, {6, 2, 2, 1})) {
          case 0: {
            State st{t.id, (bool)t.b};
            names[i].begin(st);
            with_name(i, [&](auto nm) { if (t.a) server.srv->register_object(nm, *t.a); else server.srv->register_object(nm, *t.b); });
            names[i].end();
            names[i].id = t.id;
            break;
          }
          case 1:
            names[i].begin(State());
            with_name(i, [&](auto nm) { server.srv->unregister_object(nm); });
            names[i].end();
            names[i].id = -1;
            break;
          case 2:
            forget(t);
            sim::probe("unregistered-by-object");
            break;
          default:
            forget(t);
            replace(t);
            make(t);
        }
      }
      over = true;
    });
    for (int i = 0; i < nclients; i++) for (int k = sim::range(OPS, 1, 2); k; k--) crew.add([&, i] {
      sim::set_node(10 + i);
      for (int n = 0; n < 4 || (!over && n < 60); n++) {
        int at = sim::pick(OPS, NAMES);
        bool other = sim::chance(OPS, 1, 4);
        int64_t t = w.token(), got = 0;
        uint64_t c0 = sim::seq();
        Result r = attempt([&] {
          got = with_name(at, [&](auto nm) { return other ? clients[i]->get_proxy<Other>(nm).poke(t) : clients[i]->get_proxy<Worker>(nm).ping(t); });
        });
        uint64_t c1 = sim::seq();
        Exec e = w.get(t);
        if (r.ok) {
          SIM_CHECK(got == (other ? t * 7 + 3 : t * 3 + 1) && e.runs == 1, "wrong-reply", "call %lld got a wrong reply after %d runs", (long long)t, e.runs);
          SIM_CHECK(names[at].possible(c0, c1, [&](const State& x) { return x.id == e.server && x.other == other; }), "wrong-object", "call %lld to name %d ran on object %d, which did not go by it", (long long)t, at, e.server);
          sim::probe("served");
        } else {
          SIM_CHECK(r.kind == "not_found", "wrong-error", "call %lld failed with %s: %s", (long long)t, r.kind.c_str(), r.what.c_str());
          SIM_CHECK(e.runs == 0, "run-count", "call %lld was refused and ran nevertheless", (long long)t);
          SIM_CHECK(names[at].possible(c0, c1, [&](const State& x) { return x.id < 0 || x.other != other; }), "not-found", "call %lld to name %d, which was there all the time, found nothing", (long long)t, at);
          sim::probe("refused");
        }
      }
    });
    crew.join();
  }
  for (auto& t : things) { forget(t); replace(t); }
  for (auto& g : gone) SIM_CHECK(runs_on(g.first) == g.second, "started-after-destruction", "%d handlers started on object %d after its destruction", runs_on(g.first) - g.second, g.first);
}
