#include "rpc.h"
#include "arpc/socket.h"
using namespace rpc;

namespace {
constexpr int64_t MS = 1000000;
void timely() {
  rpc_faults();
  sim::faults().stall = 0;
  if (sim::faults().sndbuf < 400) sim::faults().sndbuf = 400;
  if (sim::faults().seg_max && sim::faults().seg_max < 17) sim::faults().seg_max = 17;
  if (sim::faults().lat_max_us > 20000) sim::faults().lat_max_us = 20000;
}
int64_t slack_ms() { return 400 + 20000 * sim::options().step_ns / 1000000 + 60LL * sim::faults().lat_max_us / 1000; }
std::string noise(size_t n) {
  std::string s;
  for (size_t i = 0; i < n; i++) s.push_back((char)(sim::pick(FAULT, 4) ? sim::pick(FAULT, 256) : sim::pick(FAULT, 4)));
  return s;
}
std::string mutate(std::string s) {
  for (int k = sim::range(FAULT, 1, 3); k; k--) {
    if (s.empty()) s.push_back(0);
    size_t at = sim::pick(FAULT, (uint32_t)s.size());
    switch (sim::pick(FAULT, 6)) {
      case 0: s[at] ^= 1 << sim::pick(FAULT, 8); break;
      case 1: s[at] = (char)sim::pick(FAULT, 256); break;
      case 2: s.erase(at, 1 + sim::pick(FAULT, 5)); break;
      case 3: s.insert(at, noise(1 + sim::pick(FAULT, 5))); break;
      case 4: s[at] = (char)0xff; break;
      default: s[at] = 0; break;
    }
  }
  return s;
}
struct Asked { uint32_t id = 0; std::string method; int64_t token = 0; };
std::optional<Asked> understand(const std::string& p) {
  Asked a;
  try {
    arpc::string_input_stream is(p);
    arpc::rpc_defs::message_type mt;
    { Dec d(is); d(mt); d(a.id); }
    if (mt != arpc::rpc_defs::message_type::REQUEST) return std::nullopt;
    {
      Dec d(is);
      std::string object;
      arpc::traits::type_hash_t hash;
      d(object);
      d(a.method);
      d(hash);
      arpc::context c(arpc::context::top(), false);
      d(c);
    }
    { Dec d(is); std::tuple<int64_t> t; d(t); a.token = std::get<0>(t); }
    return a;
  } catch (const arpc::errors::base_error& e) { sim::fail("harness", "request not understood: %s", e.what()); }
}
template <typename T> std::string reply_bytes(uint32_t id, const T& holder, int type = 1) {
  std::string s;
  arpc::string_output_stream os(s);
  { Enc e(os); e((arpc::rpc_defs::message_type)type); e(id); }
  { Enc e(os); e(holder); }
  return s;
}
// Looks like a result, with whatever in it.
template <typename T> struct StrangeResult : arpc::serializable<StrangeResult<T>> {
  ARPC_CUSTOM_SERIALIZATION_VERSION(1);
  std::optional<T> value;
  bool failed = false;
  std::string type, message;
  template <typename E> void save(E& e) const { e(value); e(failed); if (failed) { e(type); e(message); } }
  template <typename D> void load(D& d) { d(value); d(failed); }
};
enum Answer { RIGHT, NEITHER, BOTH, FAILURE, UNKNOWN_FAILURE, MUTANT, CHOPPED, OTHER_ID, TWICE, OTHER_TYPE, WRONG_RESULT, NOISE, PACKET_NOISE, HUGE_SIZE, NOTHING, HANG_UP, KINDS };
struct Said { int what = -1; std::string kind, text; bool confused = false; int64_t at = 0; };
}  // namespace

// A server that answers with whatever it likes.
SIM_SCENARIO(R09, answers, 14) {
  timely();
  World w;
  w.spread = true;
  publish(1);
  publish(2);
  ServerNode good(w, 2, 0, server_options(4));
  std::optional<Client> client, other;
  on(10, [&] { client.emplace(place(1)); other.emplace(place(2)); });
  on(10, [&] { other->get_proxy<Worker>("worker").ping(w.token()); });
  std::mutex mu;
  std::map<int64_t, Said> said;       // by token
  std::map<uint32_t, int64_t> whose;  // by id
  std::atomic<bool> behave{false}, over{false};
  std::atomic<bool> any_confusion{false};        // whatever was sent may have answered anybody
  const bool plain = sim::pick(CFG, 2);   // no answers that might be taken for anything
  std::optional<arpc::listener> lis;
  on(1, [&] { lis.emplace(arpc::endpoint().port(PORT)); });
  Crew servers;
  arpc::context serving;
  {
    // One thread accepts, and one serves each connection.
    servers.add([&] {
      sim::set_node(1);
      arpc::context ctx(serving);
      Crew each;
      try {
        while (!over) {
          auto ch = std::make_shared<arpc::channel>(lis->accept());
          each.add([&, ch] {
            arpc::context ctx(serving);
            try {
              raw_read(*ch, 100000, [&](const std::string& p) {
                auto a = understand(p);
                if (!a) return true;
                int what = behave ? (int)RIGHT : (int)sim::pick(FAULT, KINDS);
                if (plain && (what == MUTANT || what == NOISE || what == PACKET_NOISE || what == HUGE_SIZE)) what = RIGHT;
                sim::note("request %u (%lld): answer %d", a->id, (long long)a->token, what);
                Said s;
                s.what = what;
                std::string out;
                bool end = false;
                arpc::result_holder<int64_t> right;
                right.set_value((int64_t)((uint64_t)a->token * 3 + 1));
                std::string ok = reply_bytes(a->id, right);
                StrangeResult<int64_t> odd;
                switch (what) {
                  case RIGHT: out = packet(ok); break;
                  case NEITHER: out = packet(reply_bytes(a->id, odd)); break;
                  case BOTH: odd.value = 5; odd.failed = true; s.kind = odd.type = "not_found"; s.text = odd.message = "both"; out = packet(reply_bytes(a->id, odd)); break;
                  case FAILURE: odd.failed = true; s.kind = kind_name(sim::pick(FAULT, 14)); odd.type = s.kind; s.text = odd.message = "F" + std::to_string(sim::pick(FAULT, 99)); out = packet(reply_bytes(a->id, odd)); break;
                  case UNKNOWN_FAILURE: odd.failed = true; odd.type = noise(sim::pick(FAULT, 12)); s.kind = "unknown_error"; s.text = odd.message = "U"; out = packet(reply_bytes(a->id, odd)); break;
                  case MUTANT: out = packet(mutate(ok)); s.confused = true; break;
                  case CHOPPED: out = packet(ok.substr(0, sim::pick(FAULT, (uint32_t)ok.size()))); break;
                  case OTHER_ID: { uint32_t id = plain || sim::pick(FAULT, 2) ? a->id + 1000 : a->id + 1 - sim::pick(FAULT, 3); if (id == a->id) id += 5000; out = packet(reply_bytes(id, right)); s.confused = id < a->id + 1000; break; }
                  case TWICE: { StrangeResult<int64_t> x; x.value = 12; out = packet(ok) + packet(reply_bytes(a->id, x)); break; }
                  case OTHER_TYPE: out = packet(reply_bytes(a->id, right, sim::pick(FAULT, 2) ? 0 : 2 + sim::pick(FAULT, 250))); break;
                  case WRONG_RESULT: { arpc::result_holder<std::string> r; r.set_value(std::string("text")); out = packet(reply_bytes(a->id, r)); break; }
                  case NOISE: out = noise(1 + sim::pick(FAULT, 100)); s.confused = true; break;
                  case PACKET_NOISE: out = packet(noise(sim::pick(FAULT, 40))); s.confused = true; break;
                  case HUGE_SIZE: out = std::string(sim::range(FAULT, 1, 9), (char)0xff) + "\x7f" + noise(5); s.confused = true; break;
                  case NOTHING: break;
                  default: end = true; break;
                }
                if (sim::chance(FAULT, 1, 4)) sim::sleep_us(sim::pick(FAULT, 3000));
                s.at = sim::now_ns();
                { std::scoped_lock l(mu); said[a->token] = s; whose[a->id] = a->token; if (s.confused) any_confusion = true; }
                if (!out.empty()) raw_write(*ch, out);
                return !end;
              });
            } catch (const arpc::errors::base_error& e) { sim::note("connection: %s", e.what()); }
          });
        }
      } catch (const arpc::errors::base_error&) {}
      each.join();
    });
    Crew crew;
    std::atomic<int> at_it{0};
    for (int k = sim::range(OPS, 1, 3); k; k--) {
      at_it++;
      crew.add([&] {
        sim::set_node(10);
        auto p = client->get_proxy<Pinger>("worker");
        auto as = client->get_proxy<Pinger::async>("worker");
        for (int n = sim::range(OPS, 1, 6); n; n--) {
          pause();
          int64_t t = w.token(), got = 0;
          int64_t limit = sim::chance(OPS, 1, 3) ? 60000 : 30 + sim::pick(OPS, 400);
          arpc::context ctx;
          ctx.set_timeout(ms(limit));
          Result r = attempt([&] { if (sim::pick(OPS, 2)) got = p.ping(t); else got = as.ping(t).first.get(); });
          SIM_CHECK(r.t1 - r.t0 <= (limit + 60) * MS + r.cost, "late-return", "call %lld returned %lld ms past its deadline", (long long)t, (long long)((r.t1 - r.t0) / MS - limit));
          std::scoped_lock l(mu);
          Said s = said.count(t) ? said[t] : Said();
          bool clean = !any_confusion;
          // An answer that says something about this call, or about its connection, is not sat on.
          if (clean && s.what >= 0 && s.what != NOTHING && s.what != OTHER_ID) SIM_CHECK(r.t1 - s.at <= slack_ms() * MS + r.cost, "sat-on", "call %lld was answered (kind %d), and returned %lld ms later with %s", (long long)t, s.what, (long long)((r.t1 - s.at) / MS), r.kind.c_str());
          if (r.ok) {
            if (clean) SIM_CHECK(s.what == RIGHT || s.what == TWICE, "made-up-reply", "call %lld succeeded although its answer was of kind %d", (long long)t, s.what);
            if (clean) SIM_CHECK(got == t * 3 + 1, "wrong-reply", "call %lld got %lld", (long long)t, (long long)got);
            sim::probe("answered");
          } else {
            sim::probe(r.kind.c_str());
            // Its own failure, or one of its connection.
            bool lost = r.kind == "io_error" || r.kind == "eof" || r.kind == "data_mismatch" || r.kind == "deadline_exceeded";
            if (s.what == NEITHER) lost |= r.kind == "invalid_state";
            if (clean && !lost) {
              SIM_CHECK(s.what == FAILURE || s.what == BOTH || s.what == UNKNOWN_FAILURE, "made-up-error", "call %lld reported %s: %s although its answer was of kind %d", (long long)t, r.kind.c_str(), r.what.c_str(), s.what);
              SIM_CHECK(r.kind == s.kind && r.what == s.text, "wrong-error", "call %lld reported %s: %s instead of %s: %s", (long long)t, r.kind.c_str(), r.what.c_str(), s.kind.c_str(), s.text.c_str());
              sim::probe("failure-reported");
            }
          }
        }
        at_it--;
      });
    }
    crew.add([&] {
      sim::set_node(10);
      auto p = other->get_proxy<Worker>("worker");
      for (int n = 0; n < 3 || (at_it > 0 && n < 30); n++) {
        int64_t t = w.token(), got = 0;
        Result r = attempt([&] { got = p.ping(t); });
        SIM_CHECK(r.ok && got == (int64_t)((uint64_t)t * 3 + 1), "bystander-hurt", "call %lld to another server failed with %s: %s", (long long)t, r.kind.c_str(), r.what.c_str());
        SIM_CHECK(r.t1 - r.t0 < slack_ms() * MS + r.cost, "bystander-held", "call %lld to another server took %lld ms", (long long)t, (long long)((r.t1 - r.t0) / MS));
        sim::sleep_ms(10);
      }
    });
    crew.join();
    // The server comes to its senses.
    behave = true;
    on(10, [&] {
      auto p = client->get_proxy<Pinger>("worker");
      for (int tries = 1;; tries++) {
        int64_t t = w.token(), got = 0;
        arpc::context ctx;
        ctx.set_timeout(ms(slack_ms()));
        Result r = attempt([&] { got = p.ping(t); });
        if (r.ok && got == (int64_t)((uint64_t)t * 3 + 1)) break;
        if (!any_confusion) SIM_CHECK(!r.ok, "wrong-reply", "call %lld got %lld", (long long)t, (long long)got);
        // Half a packet may wait for more to come: that connection has to go first.
        if (tries == 2) sim::net_reset_all(1);
        SIM_CHECK(tries < 8, "not-served-again", "attempt %d failed with %s: %s", tries, r.kind.c_str(), r.what.c_str());
      }
    });
    over = true;
    serving.cancel();
    on(10, [&] { client.reset(); });
    servers.join();
  }
}
