// Clients and servers on simulated nodes, and what happened to every call.
#pragma once
#include <atomic>
#include <map>
#include <optional>
#include "arpc/client.h"
#include "arpc/server.h"
#include "common.h"
#include "graph.h"
#include "trace.h"

namespace rpc {
using namespace sc;

// What a handler is asked to do.
struct Job : arpc::serializable<Job> {
  int32_t how = 0;          // see below
  int32_t ms = 0;           // how long it takes
  int32_t size = 0;         // size of the reply
  std::string text;         // message of an error
  std::vector<int32_t> hops;  // servers to go on to
  ARPC_FIELDS(how, ms, size, text, hops);
};
enum How { AT_ONCE, YIELDING, SLEEPING /* minding its context */, DEAF /* not minding it */, FAILING, WAITING /* until it is cancelled */, HOWS };

ARPC_INTERFACE(Pinger, (), (((int64_t), ping, (((int64_t), token)))));
ARPC_INTERFACE(Worker, ((Pinger)),
               (((std::string), work, (((int64_t), token), ((const Job&), job), ((const std::string&), payload))),
                ((void), poke, (((int64_t), token), ((Job), job))),
                ((std::vector<std::string>), split, (((int64_t), token), ((std::map<std::string, int64_t>), m), ((std::optional<std::string>), o), ((std::vector<int16_t>), v)))));
// Has a method of the same name as Worker's with another signature.
ARPC_INTERFACE(Other, (), (((int64_t), poke, (((int64_t), token))), ((int64_t), nothing, ())));
ARPC_INTERFACE(Graphs, (), (((std::shared_ptr<graph::Node>), turn, (((int64_t), token), ((std::shared_ptr<graph::Node>), n)))));
ARPC_INTERFACE(All, ((Worker), (Graphs)), (((int64_t), extra, (((int64_t), token)))));

// What became of one call, as seen by the handlers (by true simulated time).
struct Exec {
  int runs = 0, live = 0;
  int64_t start = -1, end = -1;            // of the last run
  bool has_deadline = false;
  int64_t deadline = 0;                    // in true time
  bool traced = false;
  int64_t trace = 0;
  std::string trace_text, lang;
  bool cancelled = false;                  // the handler found its context cancelled
  int64_t cancelled_at = -1;
  bool ended_ok = false;
  bool started_cancelled = false;          // its context was cancelled from the beginning
  int server = -1;                         // which incarnation of which server
  std::string object;
};
struct World {
  std::map<int64_t, Exec> exec;
  int64_t next = 1;
  int live_handlers = 0;
  bool spread = false;   // tokens that do not turn into each other by accident
  int64_t token() {
    sim::Quiet q;
    uint64_t x = next++;
    if (!spread) return (int64_t)x;
    x *= 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 29)) * 0xbf58476d1ce4e5b9ull;
    return (int64_t)((x ^ (x >> 32)) >> 3) | 1;
  }
  Exec get(int64_t t) { sim::Quiet q; return exec[t]; }
  template <typename F> void with(int64_t t, F f) { sim::Quiet q; f(exec[t]); }
};

inline std::string fill(int64_t token, size_t size) {
  std::string s = "<" + std::to_string(token) + ">";
  uint64_t x = (uint64_t)token * 0x9e3779b97f4a7c15ull + 1;
  while (s.size() < size) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; s.push_back((char)x); }
  return s;
}
inline uint64_t sum(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}
inline std::string answer(int64_t token, const Job& j, const std::string& payload) {
  return std::to_string(token) + "/" + std::to_string(sum(payload)) + "/" + fill(token ^ 0x5555, j.size);
}
// Errors a handler may throw: what the library knows by name, and what it does not.
inline constexpr int error_kinds = 17;
[[noreturn]] inline void throw_kind(int k, const std::string& text) {
  using namespace arpc::errors;
  switch (k) {
    case 0: throw cancelled(text);
    case 1: throw data_mismatch(text);
    case 2: throw deadline_exceeded(text);
    case 3: throw eof(text);
    case 4: throw internal_error(text);
    case 5: throw invalid_argument(text);
    case 6: throw invalid_state(text);
    case 7: throw io_error(text);
    case 8: throw not_implemented(text);
    case 9: throw not_found(text);
    case 10: throw arpc::errors::out_of_range(text);
    case 11: throw shutting_down(text);
    case 12: throw unavailable(text);
    case 13: throw unknown_error(text);
    case 14: throw std::runtime_error(text);
    case 15: throw text.size();               // not even an exception
    default: throw try_again(text);
  }
}
inline std::string kind_of(std::exception_ptr p) { return arpc::error_factory::analyze_exception(p).first; }
inline std::string kind_name(int k) {
  static const char* n[] = {"cancelled", "data_mismatch", "deadline_exceeded", "eof", "internal_error", "invalid_argument", "invalid_state", "io_error", "not_implemented",
                            "not_found", "out_of_range", "shutting_down", "unavailable", "unknown_error", "unknown_error", "unknown_error", "try_again"};
  return n[k];
}

inline int64_t true_deadline(int node, arpc::context::time_point t) {
  // The library's deadlines are readings of the node's own wall clock.
  return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count() - (sim::real_ns(node) - sim::now_ns());
}

struct Net;   // how handlers reach further servers

// The implementation of all interfaces.
class Impl : public All {
 public:
  Impl(World& w, int server, std::string object, std::function<std::string(int, int64_t, Job, const std::string&)> hop = nullptr)
      : w_(w), server_(server), object_(std::move(object)), hop_(std::move(hop)) {}

  int64_t ping(int64_t token) override {
    Run r(*this, token);
    r.ok();
    return (int64_t)((uint64_t)token * 3 + 1);
  }
  int64_t extra(int64_t token) override {
    Run r(*this, token);
    r.ok();
    return (int64_t)((uint64_t)token * 5 + 2);
  }
  std::string work(int64_t token, const Job& job, const std::string& payload) override {
    Run r(*this, token);
    perform(token, job);
    std::string res = answer(token, job, payload);
    if (!job.hops.empty() && hop_) {
      Job next = job;
      int to = next.hops.front();
      next.hops.erase(next.hops.begin());
      res = hop_(to, token + 1000000, next, res);
    }
    r.ok();
    return res;
  }
  void poke(int64_t token, Job job) override {
    Run r(*this, token);
    perform(token, job);
    r.ok();
  }
  std::vector<std::string> split(int64_t token, std::map<std::string, int64_t> m, std::optional<std::string> o, std::vector<int16_t> v) override {
    Run r(*this, token);
    std::vector<std::string> res{std::to_string(token)};
    for (auto& e : m) res.push_back(e.first + "=" + std::to_string(e.second));
    res.push_back(o ? *o : "none");
    for (auto x : v) res.push_back(std::to_string(x));
    r.ok();
    return res;
  }
  std::shared_ptr<graph::Node> turn(int64_t token, std::shared_ptr<graph::Node> n) override {
    Run r(*this, token);
    if (n) std::swap(n->a, n->b);
    r.ok();
    return n;
  }

 private:
  // One execution, entered into the books.
  class Run {
   public:
    Run(Impl& i, int64_t token) : i_(i), token_(token) {
      int64_t start = sim::now_ns();   // before the look at the context: much may happen in between
      auto& ctx = arpc::context::current();
      auto dl = ctx.deadline();
      int64_t d = dl ? true_deadline(sim::node(), *dl) : 0;
      const Trace& t = ctx.get<Trace>();
      const Locale& l = ctx.get<Locale>();
      bool off = ctx.is_cancelled();
      sim::Quiet q;
      Exec& e = i_.w_.exec[token];
      e.runs++;
      e.live++;
      i_.w_.live_handlers++;
      e.start = start;
      e.started_cancelled = off;
      e.has_deadline = (bool)dl;
      e.deadline = d;
      e.trace = t.token;
      e.trace_text = t.text;
      e.lang = l.lang;
      e.server = i_.server_;
      e.object = i_.object_;
      sim::note("handler of %lld starts on server %d", (long long)token, i_.server_);
    }
    void ok() { ok_ = true; }
    ~Run() {
      sim::Quiet q;
      Exec& e = i_.w_.exec[token_];
      e.live--;
      i_.w_.live_handlers--;
      e.end = sim::now_ns();
      e.ended_ok = ok_;
      sim::note("handler of %lld ends", (long long)token_);
    }
   private:
    Impl& i_;
    int64_t token_;
    bool ok_ = false;
  };
  void cancelled(int64_t token) {
    w_.with(token, [](Exec& e) { if (!e.cancelled) { e.cancelled = true; e.cancelled_at = sim::now_ns(); } });
  }
  void perform(int64_t token, const Job& job) {
    switch (job.how) {
      case YIELDING:
        for (int i = 0; i < job.ms; i++) sim::yield();
        break;
      case SLEEPING:
      case WAITING:
        try {
          if (job.how == SLEEPING) auto [t] = arpc::select(arpc::timeout(ms(job.ms)));
          else auto [t] = arpc::select(arpc::never());
        } catch (const arpc::errors::cancelled&) {
          cancelled(token);
          throw;
        }
        break;
      case DEAF:
        sim::sleep_ms(job.ms);
        if (arpc::context::current().is_cancelled()) cancelled(token);
        break;
      case FAILING:
        if (job.ms) sim::sleep_ms(job.ms % 20);
        throw_kind(job.size, job.text);
      default: break;
    }
  }
  World& w_;
  const int server_;
  const std::string object_;
  std::function<std::string(int, int64_t, Job, const std::string&)> hop_;
};

using Object = arpc::server_object<Impl>;
using Server = arpc::server<>;
using Client = arpc::client_connection<>;
// Readiness that turns out wrong is no fault of stream sockets.
inline void rpc_faults() {
  net_faults();
  sim::faults().spurious_ready = 0;
}
inline constexpr int PORT = 700;
inline std::string host(int node) { return "server" + std::to_string(node); }
inline arpc::endpoint place(int node) { return arpc::endpoint().name(host(node)).port(PORT); }
inline void publish(int node, int delay_ms = 0) {
  uint32_t ip = 0x0a000000u + node * 16 + 1;
  sim::host_set(ip, node);
  sim::dns_set(host(node).c_str(), {{ip, false, 0}}, delay_ms * 1000000LL, 0);
}
// Runs f as if on that node.
template <typename F> auto on(int node, F f) {
  int was = sim::node();
  struct Back { int n; ~Back() { sim::set_node(n); } } back{was};
  sim::set_node(node);
  return f();
}
inline arpc::server_options server_options(unsigned workers = 0, int queue = -1, std::optional<ms> timeout = std::nullopt) {
  arpc::server_options o;
  o.num_worker_threads = workers ? workers : sim::range(CFG, 1, 5);
  o.queue_size = queue;
  if (timeout) o.request_timeout = *timeout;
  return o;
}
// A server process with one object named "worker".
struct ServerNode {
  ServerNode(World& w, int node, int incarnation, const arpc::server_options& o)
      : node(node), obj(w, incarnation, "worker") {
    on(node, [&] {
      srv.emplace(o, arpc::endpoint().port(PORT));
      srv->register_object("worker", obj);
      srv->start();
    });
  }
  ~ServerNode() { on(node, [&] { srv.reset(); }); }
  int node;
  Object obj;
  std::optional<Server> srv;
};

// The outcome of a call.
struct Result {
  bool ok = false;
  std::string kind, what;       // of the error
  int64_t t0 = 0, t1 = 0;
  int64_t cost = 0;             // time that the steps of all threads took meanwhile
};
template <typename F> Result attempt(F f) {
  Result r;
  uint64_t s0 = sim::steps();
  r.t0 = sim::now_ns();
  try {
    f();
    r.ok = true;
  } catch (const arpc::errors::base_error& e) {
    r.kind = std::string(e.portable_error_class_name());
    r.what = e.what();
  } catch (const std::exception& e) {
    sim::fail("foreign-exception", "a call ended with an exception that is none of the library's: %s", e.what());
  }
  r.t1 = sim::now_ns();
  r.cost = (int64_t)(sim::steps() - s0) * sim::options().step_ns;
  return r;
}
inline std::string payload_of(int64_t token, uint32_t biggest = 3000) {
  static const uint32_t sizes[] = {0, 1, 60, 127, 128, 1000, 20000};
  uint32_t n = sizes[sim::weighted(OPS, {4, 2, 4, 1, 1, 2, 1})];
  return fill(token, std::min(n, biggest));
}
inline Job random_job(int slow_ms) {
  Job j;
  j.how = sim::weighted(OPS, {6, 3, 3, 2, 3});
  j.ms = j.how == YIELDING ? sim::pick(OPS, 6) : j.how >= SLEEPING && j.how <= FAILING ? sim::pick(OPS, slow_ms + 1) : 0;
  static const uint32_t sizes[] = {0, 1, 60, 127, 128, 1000, 20000};
  j.size = sizes[sim::weighted(OPS, {4, 2, 4, 1, 1, 2, 1})];
  if (j.how == FAILING) {
    j.size = sim::pick(OPS, error_kinds - 1);   // try_again: see known-findings.txt
    j.text = "E" + std::to_string(sim::pick(OPS, 1000));
    if (sim::chance(OPS, 1, 6)) j.text = "";
    if (sim::chance(OPS, 1, 6)) j.text = std::string(300, 'e');
  }
  return j;
}
// What a finished, undisturbed call has to say.
inline void check_failure(int64_t token, const Job& j, const Result& r) {
  SIM_CHECK(!r.ok, "wrong-reply", "call %lld should have reported %s and returned instead", (long long)token, kind_name(j.size).c_str());
  SIM_CHECK(r.kind == kind_name(j.size), "wrong-error", "call %lld reported %s (%s) instead of %s", (long long)token, r.kind.c_str(), r.what.c_str(), kind_name(j.size).c_str());
  if (j.size != 15) SIM_CHECK(r.what == j.text, "wrong-error", "call %lld reported the message '%s' instead of '%s'", (long long)token, r.what.c_str(), j.text.c_str());
}


// ---- raw peers -----------------------------------------------------------
using Enc = arpc::little_endian_binary_encoder;
using Dec = arpc::little_endian_binary_decoder;
// A request as the library itself would write it, in the current context; the
// object name is already encoded.
template <auto mptr, typename C, typename... A>
std::string request_bytes_as(const std::string& method, uint32_t hash_twist, const C& context, uint32_t id, const std::string& object, A... args) {
  std::string s;
  arpc::string_output_stream os(s);
  { Enc e(os); e(arpc::rpc_defs::message_type::REQUEST); e(id); }
  {
    Enc e(os);
    e(object);   // already encoded
    using info = arpc::method_descriptor<mptr>;
    e(method);
    arpc::traits::type_hash_t hash = arpc::traits::type_hash_v<typename info::method_type> ^ hash_twist;
    e(hash);
    e(context);
  }
  { Enc e(os); std::tuple<std::decay_t<A>...> t(args...); e(t); }
  return s;
}
template <auto mptr, typename C, typename... A>
std::string request_bytes_in(const C& context, uint32_t id, const std::string& object, A... args) {
  return request_bytes_as<mptr>(std::string(arpc::method_descriptor<mptr>::name()), 0, context, id, object, args...);
}
template <auto mptr, typename... A>
std::string request_bytes(uint32_t id, const std::string& object, A... args) {
  return request_bytes_in<mptr>(arpc::context::current(), id, object, args...);
}
// Looks like a context, with whatever in it.
struct StrangeContext : arpc::serializable<StrangeContext> {
  ARPC_CUSTOM_SERIALIZATION_VERSION(1);
  std::optional<ms> left;
  std::vector<std::shared_ptr<arpc::dynamic_base_class>> data;
  bool cancelled = false;
  template <typename E> void save(E& e) const { e(left); e(data); e(cancelled); }
  template <typename D> void load(D& d) { d(left); d(data); d(cancelled); }
};
inline std::string worker_name() { return arpc::object_name<Enc>("worker"); }
inline std::string cancel_bytes(uint32_t id) {
  std::string s;
  arpc::string_output_stream os(s);
  Enc e(os);
  e(arpc::rpc_defs::message_type::CANCEL_REQUEST);
  e(id);
  return s;
}
inline std::string packet(const std::string& data) {
  std::string s;
  arpc::string_output_stream os(s);
  Enc e(os);
  e(data);
  return s;
}
// What a reply says, of a method returning T.
template <typename T> inline bool read_reply(const std::string& p, uint32_t& id, std::optional<T>& v, std::string& error) {
  try {
    arpc::string_input_stream is(p);
    arpc::rpc_defs::message_type mt;
    { Dec d(is); d(mt); d(id); }
    if (mt != arpc::rpc_defs::message_type::RESPONSE) return false;
    arpc::result_holder<T> r;
    { Dec d(is); d(r); }
    try { v = std::move(r).value(); } catch (const arpc::errors::base_error& e) { error = std::string(e.portable_error_class_name()); }
    return true;
  } catch (const arpc::errors::base_error&) { return false; }
}
// Connects to a server without the client's help.
inline arpc::channel raw_dial(int node) { return arpc::dial(place(node)); }
inline void raw_write(arpc::channel& c, const std::string& s) {
  for (size_t at = 0; at < s.size();) at += c.write(s.data() + at, s.size() - at);
}
// Reads whole packets until the end of the stream or the time is up.  The sink
// gets each packet and says whether to go on.
template <typename F>
bool raw_read(arpc::channel& c, int64_t ms_left, F sink) {   // true: the stream ended
  std::string buf;
  int64_t until = sim::now_ns() + ms_left * 1000000;
  while (true) {
    while (true) {
      if (buf.size() < 2) break;
      std::string p;
      arpc::string_input_stream is(buf);
      try { Dec d(is); d(p); } catch (const std::exception&) { break; }
      buf.erase(0, is.pos());
      if (!sink(p)) return false;
    }
    char b[512];
    int64_t left = (until - sim::now_ns()) / 1000000;
    if (left <= 0) return false;
    try {
      auto [n, t] = arpc::select(c.async_read(b, sizeof b), arpc::timeout(ms(left)));
      if (t) return false;
      buf.append(b, *n);
    } catch (const arpc::errors::eof&) { return true;
    } catch (const arpc::errors::io_error&) { return true; }
  }
}

}  // namespace rpc
