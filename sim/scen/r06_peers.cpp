#include "rpc.h"
using namespace rpc;

namespace {
constexpr int64_t MS = 1000000;
void timely() {
  rpc_faults();
  sim::faults().stall = 0;
  if (sim::faults().sndbuf < 400) sim::faults().sndbuf = 400;
  if (sim::faults().seg_max && sim::faults().seg_max < 17) sim::faults().seg_max = 17;
  if (sim::faults().lat_max_us > 20000) sim::faults().lat_max_us = 20000;
}
int64_t slack_ms() { return 400 + 20000 * sim::options().step_ns / 1000000 + 60LL * sim::faults().lat_max_us / 1000; }
std::string noise(size_t n) {
  std::string s;
  for (size_t i = 0; i < n; i++) s.push_back((char)(sim::pick(FAULT, 4) ? sim::pick(FAULT, 256) : sim::pick(FAULT, 4)));
  return s;
}
uint32_t body_size(const std::string& r) { return (uint32_t)r.size(); }
// Requests that end soon whatever becomes of their bytes.
std::string some_request(World& w, uint32_t id, int64_t& t, int kind) {
  t = w.token();
  switch (kind) {
    case 0: return request_bytes<&Pinger::ping>(id, worker_name(), t);
    case 1: return request_bytes<&Worker::split>(id, worker_name(), t, std::map<std::string, int64_t>{{"a", 1}, {"b", -2}}, std::optional<std::string>("x"), std::vector<int16_t>{1, 2, 3});
    case 2: {
      auto n = std::make_shared<graph::Node>();
      n->a = std::make_shared<graph::Node>();
      n->b = n->a;
      return request_bytes<&Graphs::turn>(id, worker_name(), t, n);
    }
    case 3: return request_bytes<&All::extra>(id, worker_name(), t);
    default: {
      arpc::context ctx;
      Trace tr;
      tr.token = t;
      tr.text = "travels";
      ctx.set(tr);
      if (sim::pick(OPS, 2)) ctx.set_timeout(ms(1000));
      return request_bytes<&Pinger::ping>(id, worker_name(), t);
    }
  }
}
std::string mutate(std::string s) {
  for (int k = sim::range(FAULT, 1, 3); k; k--) {
    if (s.empty()) s.push_back(0);
    size_t at = sim::pick(FAULT, (uint32_t)s.size());
    switch (sim::pick(FAULT, 7)) {
      case 0: s[at] ^= 1 << sim::pick(FAULT, 8); break;
      case 1: s[at] = (char)sim::pick(FAULT, 256); break;
      case 2: s.erase(at, 1 + sim::pick(FAULT, 5)); break;
      case 3: s.insert(at, noise(1 + sim::pick(FAULT, 5))); break;
      case 4: s[at] = (char)0xff; if (at + 1 < s.size()) s[at + 1] = (char)0xff; break;
      case 5: s[at] = 0; break;
      default: s.insert(at, s.substr(at, sim::pick(FAULT, 20))); break;
    }
  }
  return s;
}
enum Kind { RAW_NOISE, PACKET_NOISE, MUTANT, CHOPPED, PARTIAL, HUGE_SIZE, UNKNOWN_TYPE, GOOD, TWIN, CANCELS, BAD_NAME, STRANGE, BIG_REPLIES, KINDS };
struct Script {
  std::vector<int64_t> never;            // tokens that must not run
  std::map<uint32_t, int64_t> good;      // requests by id that a server has no reason not to run
  std::set<uint32_t> bad;                // requests that need an error or the end of the connection
  bool broken = false;                   // something was sent after which anything goes
};
}  // namespace

// Peers sending whatever they like, while other clients go about their business.
SIM_SCENARIO(R06, hostile, 16) {
  timely();
  World w;
  w.spread = true;
  publish(1);
  int peers = sim::range(CFG, 1, 4), nclients = sim::range(CFG, 1, 2);
  auto so = server_options(2 * peers + 2 * nclients + 2, sim::chance(CFG, 1, 4) ? 64 : -1);
  if (sim::pick(CFG, 2)) so.request_timeout = ms(300);
  ServerNode server(w, 1, 0, so);
  std::vector<std::unique_ptr<Client>> clients;
  for (int i = 0; i < nclients; i++) on(10 + i, [&] { clients.push_back(std::make_unique<Client>(place(1))); });
  for (int i = 0; i < nclients; i++) on(10 + i, [&] { clients[i]->get_proxy<Worker>("worker").ping(w.token()); });
  sim::sleep_ms(slack_ms());
  int fds = sim::open_fds();
  std::vector<int64_t> never;
  std::mutex mu;
  std::atomic<int> at_it{peers};
  {
    Crew crew;
    for (int k = 0; k < peers; k++) crew.add([&, k] {
      sim::set_node(20 + k);
      for (int round = sim::range(OPS, 1, 2); round; round--) {
        pause();
        Script sc;
        std::string out;
        uint32_t id = sim::pick(OPS, 3);
        bool plain = sim::chance(OPS, 1, 4);    // well behaved but for bad requests
        for (int n = sim::range(OPS, 1, 6); n; n--, id++) {
          int64_t t;
          int kind = plain ? (int)std::vector<int>{GOOD, CHOPPED, CANCELS, BAD_NAME, TWIN, STRANGE}[sim::pick(OPS, 6)] : (int)sim::pick(OPS, KINDS);
          sim::note("peer %d: prepares kind %d as %u", k, kind, id);
          switch (kind) {
            case RAW_NOISE: out += noise(1 + sim::pick(FAULT, 200)); sc.broken = true; break;
            case PACKET_NOISE: out += packet(noise(sim::pick(FAULT, 100))); sc.broken = true; break;
            case MUTANT: { std::string r = mutate(some_request(w, id, t, sim::pick(OPS, 5))); out += packet(r); sc.broken = true; break; }
            case CHOPPED: {
              // A request that ends too early: it must not run.
              int kd = sim::pick(OPS, 5);
              std::string r = some_request(w, id, t, kd);
              size_t cut = sim::pick(FAULT, body_size(r));
              out += packet(r.substr(0, cut));
              sc.never.push_back(t);
              if (cut >= 2) sc.bad.insert(id);
              else sc.broken = true;
              break;
            }
            case PARTIAL: {
              std::string r = packet(some_request(w, id, t, sim::pick(OPS, 5)));
              out += r.substr(0, sim::pick(FAULT, body_size(r)));
              // Only the end of the connection can follow.
              sc.never.push_back(t);
              sc.broken = true;
              n = 1;
              break;
            }
            case HUGE_SIZE: {
              out += std::string(sim::range(FAULT, 1, 9), (char)0xff);
              out += (char)sim::pick(FAULT, 128);
              out += noise(sim::pick(FAULT, 50));
              sc.broken = true;
              break;
            }
            case UNKNOWN_TYPE: {
              std::string r = some_request(w, id, t, sim::pick(OPS, 5));
              r[0] = (char)(sim::pick(FAULT, 2) ? 1 : 3 + sim::pick(FAULT, 253));
              out += packet(r);
              sc.never.push_back(t);
              sc.broken = true;
              break;
            }
            case GOOD: { std::string r = some_request(w, id, t, sim::pick(OPS, 2) ? 0 : 4); sc.good[id] = t; out += packet(r); break; }
            case TWIN: {
              // Another request of the same id: the server may take either, or both in turn.
              std::string r = packet(some_request(w, id, t, 0)), q = packet(some_request(w, id, t, 0));
              out += r + q;
              break;
            }
            case CANCELS: for (int i = sim::range(FAULT, 1, 8); i; i--) {
                uint32_t victim = sim::pick(FAULT, 2) ? sim::pick(FAULT, 12) : sim::pick(FAULT, 0x7fffffff);
                sc.good.erase(victim);
                sc.bad.erase(victim);
                out += packet(cancel_bytes(victim));
              }
              break;
            case BAD_NAME: {
              std::string name = sim::pick(FAULT, 2) ? noise(sim::pick(FAULT, 20)) : arpc::object_name<Enc>("nobody");
              if (name == worker_name()) name += "x";
              t = w.token();
              out += packet(request_bytes<&Pinger::ping>(id, name, t));
              sc.never.push_back(t);
              sc.bad.insert(id);
              break;
            }
            case STRANGE: {
              // A context with nonsense in it.
              StrangeContext c;
              static const int64_t lefts[] = {0, -1, INT64_MAX, INT64_MIN, INT64_MAX / 1000000, 1, 1000, 3600000};
              if (sim::pick(FAULT, 2)) c.left = ms(lefts[sim::pick(FAULT, 8)]);
              for (int i = sim::pick(FAULT, 4); i; i--) {
                int kd = sim::pick(FAULT, 5);
                if (kd == 0) c.data.push_back(nullptr);
                else if (kd == 1 && !c.data.empty()) c.data.push_back(c.data[0]);
                else if (kd == 2) c.data.push_back(std::make_shared<graph::Circle>());
                else if (kd == 3) { auto l = std::make_shared<Locale>(); l->lang = "x"; c.data.push_back(l); }
                else { auto l = std::make_shared<Trace>(); l->token = 7; c.data.push_back(l); }
              }
              c.cancelled = sim::chance(FAULT, 1, 4);
              t = w.token();
              out += packet(request_bytes_in<&Pinger::ping>(c, id, worker_name(), t));
              if (sim::pick(FAULT, 2)) out += packet(cancel_bytes(id));
              sc.broken |= true;
              break;
            }
            default: {
              Job j;
              j.size = 20000;
              sc.broken = true;     // they may take any time
              for (int i = sim::range(OPS, 1, 4); i; i--) out += packet(request_bytes<&Worker::work>(++id, worker_name(), w.token(), j, std::string("p")));
              break;
            }
          }
          if (kind == PARTIAL) break;
        }
        bool reads = sim::pick(FAULT, 3);
        int end = sim::pick(FAULT, 3);
        { std::scoped_lock l(mu); for (auto t : sc.never) never.push_back(t); }
        try {
          arpc::channel c = raw_dial(1);
          // In pieces, or all at once.
          std::string rest = out;
          auto writing = [&] {
            while (!rest.empty()) {
              size_t n = sim::pick(FAULT, 2) ? rest.size() : 1 + sim::pick(FAULT, (uint32_t)rest.size());
              auto [done, late] = arpc::select(c.async_write(rest.data(), n), arpc::timeout(ms(500)));
              if (late) return;       // the server stopped reading
              rest.erase(0, *done);
              if (sim::chance(FAULT, 1, 4)) pause();
            }
          };
          writing();
          bool all = rest.empty();
          sim::note("peer %d: wrote, %zu left; reads %d ends %d", k, rest.size(), reads, end);
          if (reads) {
            // Every request gets its answer, or the connection ends.
            std::set<uint32_t> answered;
            size_t want = sc.good.size() + sc.bad.size();
            bool ended = raw_read(c, slack_ms(), [&](const std::string& p) {
              uint32_t rid;
              std::optional<int64_t> v;
              std::string error;
              if (!read_reply<int64_t>(p, rid, v, error)) return true;
              sim::note("peer %d: reply %u %s", k, rid, error.c_str());
              if (auto g = sc.good.find(rid); g != sc.good.end()) {
                if (v && !sc.broken) SIM_CHECK(*v == g->second * 3 + 1, "wrong-reply", "request %u got %lld", rid, (long long)*v);
                else if (!sc.broken) SIM_CHECK(error == "deadline_exceeded", "wrong-error", "well-formed request %u failed with %s", rid, error.c_str());
                if (v) sim::probe("good-answered");
                answered.insert(rid);
              } else if (sc.bad.count(rid)) {
                if (!sc.broken) SIM_CHECK(!v, "bad-request-run", "malformed request %u got a result", rid);
                answered.insert(rid);
                sim::probe("bad-answered");
              }
              return answered.size() < want;
            });
            if (ended) sim::probe("connection-ended");
            else if (all && !sc.broken && answered.size() < want) sim::fail("unanswered", "peer %d got %zu answers to %zu requests and its connection stays open", k, answered.size(), want);
          } else if (sim::pick(FAULT, 2)) sim::sleep_ms(sim::pick(FAULT, 300));   // silent
          if (end == 0) { pause(); sim::probe("closed"); }
          else if (end == 1) { sim::net_reset_all(20 + k); sim::count_fault(sim::F_RESET); }
          else { auto [x, late] = arpc::select(c.async_read(out.data(), out.size()), arpc::timeout(ms(100))); }
        } catch (const arpc::errors::io_error&) { sim::probe("peer-error");
        } catch (const arpc::errors::eof&) { sim::probe("peer-eof"); }
      }
      at_it--;
    });
    // The others are served all the while.
    for (int i = 0; i < nclients; i++) for (int k = sim::range(OPS, 1, 2); k; k--) crew.add([&, i] {
      sim::set_node(10 + i);
      auto p = clients[i]->get_proxy<Worker>("worker");
      for (int n = 0; n < 4 || (at_it > 0 && n < 40); n++) {
        if (n >= 4) sim::sleep_ms(20);
        int64_t t = w.token();
        Job j;
        j.how = sim::pick(OPS, 3);
        j.ms = j.how == YIELDING ? 3 : 20;
        std::string payload = payload_of(t, 1000), got;
        Result r = attempt([&] { got = p.work(t, j, payload); });
        SIM_CHECK(r.ok, "bystander-hurt", "call %lld of another client failed with %s: %s", (long long)t, r.kind.c_str(), r.what.c_str());
        SIM_CHECK(got == answer(t, j, payload), "wrong-reply", "call %lld got a wrong reply", (long long)t);
        SIM_CHECK(r.t1 - r.t0 < slack_ms() * MS + r.cost, "bystander-held", "call %lld of another client took %lld ms", (long long)t, (long long)((r.t1 - r.t0) / MS));
        Exec e = w.get(t);
        SIM_CHECK(e.runs == 1, "run-count", "call %lld ran %d times", (long long)t, e.runs);
        sim::probe("bystander-served");
      }
    });
  }
  // Nothing of the peers is left behind.
  sim::sleep_ms(slack_ms() + 400);
  for (int64_t t : never) SIM_CHECK(w.get(t).runs == 0, "bad-request-run", "the handler of malformed request %lld ran", (long long)t);
  int now = sim::open_fds();
  SIM_CHECK(now <= fds, "leaked-connection", "%d descriptors are open after the peers left, and %d were before", now, fds);
  for (int i = 0; i < nclients; i++) on(10 + i, [&] { clients[i]->get_proxy<Worker>("worker").ping(w.token()); });
}

// Crowds of connections, accepts that fail, and no descriptors to spare.
SIM_SCENARIO(R06, crowds, 8) {
  timely();
  World w;
  publish(1);
  bool scarce = sim::pick(CFG, 2);
  if (sim::pick(CFG, 2)) sim::faults().accept_fail = sim::pick(CFG, 2) ? 100000 : 400000;
  ServerNode server(w, 1, 0, server_options(4));
  std::optional<Client> client;
  on(10, [&] { client.emplace(place(1)); });
  on(10, [&] { for (int i = 0; !attempt([&] { client->get_proxy<Worker>("worker").ping(w.token()); }).ok; i++) SIM_CHECK(i < 40, "not-served", "not served"); });
  sim::sleep_ms(slack_ms());
  int fds = sim::open_fds();
  {
    std::atomic<int> ready{0};
    int people = sim::range(CFG, 1, 3);
    Crew crew;
    std::atomic<bool> go{false};
    for (int k = 0; k < people; k++) crew.add([&, k] {
      sim::set_node(20 + k);
      arpc::context::current();
      std::optional<arpc::context> mine;
      mine.emplace();
      ready++;
      while (!go) sim::sleep_us(300);
      for (int n = sim::range(FAULT, 2, 12); n; n--) {
        try {
          arpc::channel c = raw_dial(1);
          if (sim::pick(FAULT, 3) == 0) { int64_t t; raw_write(c, packet(some_request(w, n, t, 0))); }
          else if (sim::pick(FAULT, 3) == 0) raw_write(c, noise(5));
          if (sim::pick(FAULT, 2)) sim::sleep_us(sim::pick(FAULT, 3000));
          if (sim::chance(FAULT, 1, 4)) sim::net_reset_all(20 + k);
        } catch (const arpc::errors::base_error&) { sim::probe("peer-error"); }
      }
    });
    while (ready < people) sim::sleep_ms(1);
    if (scarce) sim::faults().fd_exhaust = sim::pick(CFG, 2) ? 3000 : 50000;
    go = true;
    crew.join();
    sim::faults().fd_exhaust = 0;
    sim::faults().accept_fail = 0;
  }
  int64_t from = sim::now_ns();
  sim::set_node(10);
  auto p = client->get_proxy<Worker>("worker");
  for (int tries = 1;; tries++) {
    int64_t t = w.token(), r = 0;
    Result res = attempt([&] { r = p.ping(t); });
    if (res.ok) { SIM_CHECK(r == t * 3 + 1, "wrong-reply", "ping %lld got %lld", (long long)t, (long long)r); break; }
    SIM_CHECK(tries < 4, "not-served-again", "attempt %d failed with %s: %s", tries, res.kind.c_str(), res.what.c_str());
  }
  SIM_CHECK(sim::now_ns() - from < (slack_ms() + 3000) * MS, "slow-recovery", "served again only after %lld ms", (long long)((sim::now_ns() - from) / MS));
  // New clients are, as well.
  std::optional<Client> other;
  on(11, [&] { other.emplace(place(1)); });
  on(11, [&] { SIM_CHECK(attempt([&] { other->get_proxy<Worker>("worker").ping(w.token()); }).ok, "not-served-again", "a new client is not served"); });
  on(11, [&] { other.reset(); });
  sim::sleep_ms(slack_ms() + 400);
  int now = sim::open_fds();
  SIM_CHECK(now <= fds, "leaked-connection", "%d descriptors are open after the peers left, and %d were before", now, fds);
}

// A server that serves only so many connections at once: never more than that,
// and whoever waits gets its turn as others leave, in whatever manner.
namespace {
template <size_t N> void limited() {
  timely();
  using Factory = arpc::listener_connection_factory<arpc::protected_stream_packet_protocol<Enc, Dec>>;
  using Narrow = arpc::server<Enc, Dec, arpc::protected_stream_packet_protocol<Enc, Dec>, Enc, arpc::connection_producer<Factory, N>>;
  World w;
  publish(1);
  Object obj(w, 0, "worker");
  std::optional<Narrow> srv;
  if (sim::pick(CFG, 2)) sim::faults().accept_fail = sim::pick(CFG, 2) ? 100000 : 400000;
  on(1, [&] {
    srv.emplace(server_options(5), arpc::endpoint().port(PORT));
    srv->register_object("worker", obj);
    srv->start();
  });
  std::atomic<int> served{0}, hostile{0};
  int people = sim::range(CFG, 2, 5);
  sim::sample("%zu at once, %d clients", N, people);
  {
    Crew crew;
    for (int k = 0; k < people; k++) crew.add([&, k] {
      sim::set_node(20 + k);
      for (int n = sim::range(OPS, 1, 4); n; n--) {
        pause();
        if (sim::chance(OPS, 1, 3)) {
          // Somebody unpleasant, who takes a place for a while.
          try {
            arpc::channel c = raw_dial(1);
            hostile++;
            if (sim::pick(FAULT, 2)) raw_write(c, noise(1 + sim::pick(FAULT, 60)));
            if (sim::pick(FAULT, 2)) { int64_t t; raw_write(c, packet(some_request(w, n, t, 0))); }
            if (sim::pick(FAULT, 2)) sim::sleep_us(sim::pick(FAULT, 20000));
            if (sim::chance(FAULT, 1, 3)) sim::net_reset_all(20 + k);
          } catch (const arpc::errors::base_error&) {
          }
          continue;
        }
        Client client(place(1));
        auto p = client.template get_proxy<Worker>("worker");
        bool in = false;
        for (int calls = sim::range(OPS, 1, 3); calls; calls--) {
          int64_t t = w.token(), r = 0;
          // A connection that could not be accepted may be lost, which is no fault of the limit.
          Result res = attempt([&] { r = p.ping(t); });
          if (!res.ok) {
            SIM_CHECK(sim::faults().accept_fail > 0 && res.kind == "io_error", "call-failed", "call %lld failed with %s: %s", (long long)t, res.kind.c_str(), res.what.c_str());
            break;
          }
          SIM_CHECK(r == t * 3 + 1, "wrong-reply", "ping %lld got %lld", (long long)t, (long long)r);
          if (!in) {
            in = true;
            int now = ++served;
            SIM_CHECK(now <= (int)N, "limit-exceeded", "%d connections are served at once by a server limited to %zu", now, N);
            if (now == (int)N) sim::probe("full");
          }
          pause();
        }
        if (in) served--;
        if (sim::chance(FAULT, 1, 4)) sim::net_reset_all(20 + k);
      }
    });
  }
  sim::faults().accept_fail = 0;
  // All places are free again: as many as there are can be taken at once.
  std::vector<std::unique_ptr<Client>> last;
  for (size_t i = 0; i < N; i++) {
    on(40 + (int)i, [&] { last.push_back(std::make_unique<Client>(place(1))); });
    on(40 + (int)i, [&] {
      arpc::context ctx;
      ctx.set_timeout(ms(slack_ms() + 3000));
      Result r = attempt([&] { last.back()->template get_proxy<Worker>("worker").ping(w.token()); });
      SIM_CHECK(r.ok, "place-lost", "client %zu of %zu is not served after all others left: %s %s", i + 1, N, r.kind.c_str(), r.what.c_str());
    });
  }
  last.clear();
  on(1, [&] { srv.reset(); });
}
}  // namespace
SIM_SCENARIO(R06, limited, 6) {
  switch (sim::pick(CFG, 3)) {
    case 0: limited<1>(); break;
    case 1: limited<2>(); break;
    default: limited<3>(); break;
  }
}
