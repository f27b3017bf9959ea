#include "near_ids.h"
using namespace rpc;

namespace {
constexpr int64_t MS = 1000000;
void timely() {       // bounds on reaction times need threads that run
  rpc_faults();
  sim::faults().stall = 0;
  if (sim::faults().sndbuf < 400) sim::faults().sndbuf = 400;
}
// Simulated network round trips that a message and its answer can take.
int64_t slack_ms() { return 300 + 20000 * sim::options().step_ns / 1000000 + 40LL * sim::faults().lat_max_us / 1000; }
}  // namespace

// Calls whose requests have been delivered are cancelled: their callers are let go
// at once, their handlers see it, and nothing else does.
SIM_SCENARIO(R04, delivered, 14) {
  timely();
  World w;
  publish(1);
  int nclients = sim::range(CFG, 1, 2);
  int calls = sim::range(OPS, 2, 7);
  ServerNode server(w, 1, 0, server_options(calls + 2));
  std::vector<std::unique_ptr<Client>> clients;
  for (int i = 0; i < nclients; i++) on(10 + i, [&] { clients.push_back(std::make_unique<Client>(place(1))); });
  struct Call {
    int64_t t = 0;
    Job j;
    bool async = false, doomed = false;
    std::string payload;
    arpc::context* ctx = nullptr;
    uint32_t id = 0;
    bool have_id = false, over = false;
    int64_t cancelled = -1;
  };
  std::vector<Call> cs(calls);
  std::mutex mu;
  int64_t slack = slack_ms();
  {
    Crew crew;
    for (int k = 0; k < calls; k++) {
      Call& c = cs[k];
      c.t = w.token();
      c.doomed = sim::pick(OPS, 2);
      c.async = sim::pick(OPS, 2);
      c.j.how = c.doomed ? (int)std::vector<int>{WAITING, SLEEPING, DEAF, WAITING}[sim::pick(OPS, 4)] : SLEEPING;
      c.j.ms = sim::pick(OPS, 400);
      c.j.size = sim::pick(OPS, 300);
      c.payload = payload_of(c.t, 1000);
      int cl = sim::pick(OPS, nclients);
      crew.add([&, cl, &c = cs[k]] {
        sim::set_node(10 + cl);
        pause();
        std::string got;
        Result r;
        {
          arpc::context ctx;
          { std::scoped_lock l(mu); c.ctx = &ctx; }
          if (!c.async) {
            auto p = clients[cl]->get_proxy<Worker>("worker");
            r = attempt([&] { got = p.work(c.t, c.j, c.payload); });
          } else {
            auto as = clients[cl]->get_proxy<Worker::async>("worker");
            r = attempt([&] {
              auto [f, id] = as.work(c.t, c.j, c.payload);
              { std::scoped_lock l(mu); c.id = id; c.have_id = true; }
              got = f.get();
            });
          }
          std::scoped_lock l(mu);
          c.ctx = nullptr;
          c.over = true;
        }
        int64_t asked;
        { std::scoped_lock l(mu); asked = c.cancelled; }
        if (asked < 0) {
          SIM_CHECK(r.ok, "bystander-hurt", "call %lld, which nobody cancelled, failed with %s: %s", (long long)c.t, r.kind.c_str(), r.what.c_str());
        } else {
          SIM_CHECK(r.ok || r.kind == "cancelled", "wrong-error", "cancelled call %lld failed with %s: %s", (long long)c.t, r.kind.c_str(), r.what.c_str());
          SIM_CHECK(r.t1 - asked <= 100 * MS + r.cost, "not-released", "the caller of %lld was let go %lld ms after cancelling", (long long)c.t, (long long)((r.t1 - asked) / MS));
          if (!r.ok) sim::probe("released");
        }
        if (r.ok) SIM_CHECK(got == answer(c.t, c.j, c.payload), "wrong-reply", "call %lld got a wrong reply", (long long)c.t);
      });
    }
    // Each doomed call gets cancelled at some instant after its handler began.
    for (auto& c : cs)
      if (c.doomed) crew.add([&, &c = c] {
        while (w.get(c.t).runs == 0) sim::sleep_us(1 + sim::pick(FAULT, 300));
        if (sim::pick(FAULT, 2)) sim::sleep_us(sim::pick(FAULT, 50000));
        std::scoped_lock l(mu);
        if (c.over) { sim::probe("too-late"); return; }
        c.cancelled = sim::now_ns();
        sim::count_fault(sim::F_CANCEL);
        if (c.async && c.have_id && sim::pick(FAULT, 2)) {
          for (auto& cl : clients) (void)cl;
          c.ctx->cancel();   // the context of an asynchronous call concerns its future only
        } else if (c.ctx) c.ctx->cancel();
      });
    crew.join();
  }
  // The handlers of synchronous calls know by now, or soon will.
  sim::sleep_ms(slack);
  for (auto& c : cs) {
    Exec e = w.get(c.t);
    SIM_CHECK(e.runs == 1, "run-count", "call %lld ran %d times", (long long)c.t, e.runs);
    if (c.cancelled < 0 || c.async) continue;
    if (c.j.how == WAITING) {
      SIM_CHECK(!e.live, "handler-not-told", "the handler of cancelled call %lld still waits after %lld ms", (long long)c.t, (long long)((sim::now_ns() - c.cancelled) / MS));
    }
    if (!e.live && c.j.how != DEAF && !e.ended_ok) SIM_CHECK(e.cancelled, "handler-not-told", "handler of %lld failed otherwise", (long long)c.t);
    if (e.cancelled) sim::probe("handler-told");
  }
  for (auto& c : cs) if (c.cancelled < 0) { Exec e = w.get(c.t); SIM_CHECK(!e.cancelled, "bystander-hurt", "the handler of %lld saw a cancellation", (long long)c.t); }
}

// The same by request id, for asynchronous calls.
SIM_SCENARIO(R04, by_id, 8) {
  timely();
  World w;
  publish(1);
  int calls = sim::range(OPS, 2, 7);
  ServerNode server(w, 1, 0, server_options(calls + 2));
  sim::set_node(10);
  Client client(place(1));
  auto as = client.get_proxy<Worker::async>("worker");
  struct Call { int64_t t; Job j; std::string payload; std::optional<arpc::future<std::string>> f; uint32_t id; int64_t cancelled = -1; bool ended = false; };
  std::vector<Call> cs;
  for (int k = 0; k < calls; k++) {
    Call c;
    c.t = w.token();
    c.j.how = sim::pick(OPS, 3) ? SLEEPING : DEAF;
    c.j.ms = sim::pick(OPS, 300);
    c.payload = payload_of(c.t, 1000);
    auto p = as.work(c.t, c.j, c.payload);
    c.f.emplace(std::move(p.first));
    c.id = p.second;
    cs.push_back(std::move(c));
    if (sim::chance(OPS, 1, 3)) pause();
  }
  for (int k = 0; k < calls; k++) if (sim::pick(OPS, 2)) {
    auto& c = cs[sim::pick(OPS, calls)];
    if (c.cancelled < 0) c.cancelled = sim::now_ns();
    client.cancel_request(c.id);     // again, perhaps, or after its end
    sim::count_fault(sim::F_CANCEL);
    if (sim::chance(OPS, 1, 3)) pause();
  }
  for (auto& c : cs) {
    std::string got;
    Result r = attempt([&] { got = c.f->get(); });
    if (c.cancelled < 0) {
      SIM_CHECK(r.ok, "bystander-hurt", "call %lld, which nobody cancelled, failed with %s: %s", (long long)c.t, r.kind.c_str(), r.what.c_str());
    } else if (!r.ok) {
      SIM_CHECK(r.kind == "cancelled", "wrong-error", "cancelled call %lld failed with %s: %s", (long long)c.t, r.kind.c_str(), r.what.c_str());
      SIM_CHECK(r.t1 - std::max(r.t0, c.cancelled) <= 20 * MS + r.cost, "not-released", "the future of %lld was set %lld ms after cancelling", (long long)c.t, (long long)((r.t1 - c.cancelled) / MS));
      sim::probe("released");
    }
    if (r.ok) SIM_CHECK(got == answer(c.t, c.j, c.payload), "wrong-reply", "call %lld got a wrong reply", (long long)c.t);
  }
  sim::sleep_ms(slack_ms());
  for (auto& c : cs) {
    Exec e = w.get(c.t);
    SIM_CHECK(e.runs == 1, "run-count", "call %lld ran %d times", (long long)c.t, e.runs);
    if (c.cancelled >= 0 && c.j.how == SLEEPING) {
      SIM_CHECK(e.cancelled || e.end - c.cancelled < slack_ms() * MS, "handler-not-told", "the handler of cancelled call %lld went on for %lld ms", (long long)c.t, (long long)((e.end - c.cancelled) / MS));
      if (e.cancelled) sim::probe("handler-told");
    } else if (c.cancelled < 0) SIM_CHECK(!e.cancelled, "bystander-hurt", "the handler of %lld saw a cancellation", (long long)c.t);
  }
}

// Cancelled at any instant, be it while connecting, resolving or sending: the
// caller is let go, and no handler waits on.
SIM_SCENARIO(R04, anytime, 10) {
  timely();
  if (sim::chance(CFG, 1, 3)) sim::faults().sndbuf = 64;
  World w;
  int64_t slack = slack_ms() + 3000;
  publish(1, sim::chance(CFG, 1, 3) ? 50 : 0);
  ServerNode server(w, 1, 0, server_options(12));
  sim::set_node(10);
  Client client(place(1));
  std::vector<int64_t> asked_for;
  std::mutex mu;
  {
    Crew crew;
    for (int k = sim::range(OPS, 1, 4); k; k--) crew.add([&] {
      auto p = client.get_proxy<Worker>("worker");
      for (uint32_t n = sim::range(OPS, 1, 3); n; n--) {
        int64_t t = w.token();
        Job j;
        j.how = sim::pick(OPS, 2) ? SLEEPING : WAITING;
        j.ms = sim::pick(OPS, 100);
        std::string payload = payload_of(t, 3000), got;
        std::atomic<int64_t> at{-1};
        arpc::context ctx;
        std::thread c([&] {
          sim::sleep_us(sim::pick(FAULT, 4) ? sim::pick(FAULT, 3000) : sim::pick(FAULT, 120000));
          sim::count_fault(sim::F_CANCEL);
          at = sim::now_ns();
          ctx.cancel();
        });
        Result r = attempt([&] { got = p.work(t, j, payload); });
        bool was = at >= 0;
        c.join();
        if (r.ok) { SIM_CHECK(got == answer(t, j, payload), "wrong-reply", "call %lld got a wrong reply", (long long)t); continue; }
        // Another call may have broken the connection by being cancelled half sent.
        if (was && r.kind == "cancelled") SIM_CHECK(r.t1 - at <= 100 * MS + r.cost, "not-released", "the caller of %lld was let go %lld ms after cancelling", (long long)t, (long long)((r.t1 - at) / MS));
        SIM_CHECK(r.t1 - at <= 100 * MS + r.cost, "not-released", "the caller of %lld was let go %lld ms after cancelling (%s)", (long long)t, (long long)((r.t1 - at) / MS), r.kind.c_str());
        sim::probe(r.kind == "cancelled" ? "released" : "connection-lost");
      }
    });
  }
  int64_t from = sim::now_ns();
  // Usable again.
  auto p = client.get_proxy<Worker>("worker");
  int tries = 0;
  while (true) {
    int64_t t = w.token();
    if (attempt([&] { p.ping(t); }).ok) break;
    SIM_CHECK(++tries < 4, "not-served-again", "%d calls failed after the cancellations", tries);
  }
  SIM_CHECK(sim::now_ns() - from < slack * MS, "slow-recovery", "served again only %lld ms after the cancellations", (long long)((sim::now_ns() - from) / MS));
  sim::sleep_ms(slack);
  if (tries == 0)
    for (auto& e : w.exec) if (e.second.live) sim::probe("handler-on-lost-connection");
}

// Calls cancelled at the very moment at which others run out of time.
SIM_SCENARIO(R04, coinciding, 7) {
  timely();
  World w;
  publish(1);
  int doomed = sim::range(OPS, 1, 4), late = sim::range(OPS, 1, 4);
  ServerNode server(w, 1, 0, server_options(doomed + late + 2));
  sim::set_node(10);
  Client client(place(1));
  auto as = client.get_proxy<Worker::async>("worker");
  struct Call { int64_t t; Job j; std::string payload; std::optional<arpc::future<std::string>> f; uint32_t id = 0; int64_t at = 0; bool by_id = true; int64_t cancelled = -1; Result r; };
  std::vector<Call> to_cancel(doomed), to_expire(late);
  auto base_point = std::chrono::time_point_cast<ms>(std::chrono::system_clock::now()) + ms(slack_ms() + 200);
  const int64_t base = true_deadline(10, base_point);
  // Those that will run out of time.
  auto start = [&](Call& c, int64_t deadline_ns) {
    c.t = w.token();
    c.j.how = WAITING;
    c.payload = payload_of(c.t, 200);
    arpc::context ctx;
if (deadline_ns) ctx.set_deadline(base_point + ms((deadline_ns - base) / MS));
    auto p = as.work(c.t, c.j, c.payload);
    c.f.emplace(std::move(p.first));
    c.id = p.second;
  };
  for (auto& c : to_expire) { c.at = base + sim::pick(OPS, 3) * 5 * MS; start(c, c.at); }
  for (auto& c : to_cancel) { c.at = to_expire[sim::pick(OPS, late)].at; start(c, 0); }
  Call other;   // has nothing to do with any of it
  other.t = w.token();
  other.j.how = DEAF;
  other.j.ms = slack_ms() + 300;
  other.payload = payload_of(other.t, 200);
  other.f.emplace(as.work(other.t, other.j, other.payload).first);
  for (auto& c : to_cancel) while (w.get(c.t).runs == 0) { sim::sleep_us(500); if (sim::now_ns() > base) return; }
  for (auto& c : to_expire) while (w.get(c.t).runs == 0) { sim::sleep_us(500); if (sim::now_ns() > base) return; }
  sim::probe("coinciding");
  if (sim::chance(CFG, 1, 2)) sim::faults().sndbuf = 1 + sim::pick(CFG, 8);   // cancellations get stuck half way
  {
    Crew crew;
    for (auto& c : to_cancel)
      crew.add([&, &c = c] {
        sim::set_node(10);
        int64_t wait = c.at - sim::now_ns() + 1000 * ((int64_t)sim::pick(FAULT, 300) - 100);
        if (sim::pick(FAULT, 2)) wait -= sim::pick(FAULT, 1000) * 20000;
        if (wait > 0) sim::sleep_us(wait / 1000);
        c.cancelled = sim::now_ns();
        sim::count_fault(sim::F_CANCEL);
        client.cancel_request(c.id);
      });
    for (auto* v : {&to_cancel, &to_expire})
      for (auto& c : *v) crew.add([&] { sim::set_node(10); std::string got; c.r = attempt([&] { got = c.f->get(); }); });
  }
  for (auto& c : to_cancel) {
    SIM_CHECK(!c.r.ok && c.r.kind == "cancelled", "wrong-error", "cancelled call %lld ended with %s: %s", (long long)c.t, c.r.ok ? "success" : c.r.kind.c_str(), c.r.what.c_str());
    SIM_CHECK(c.r.t1 - c.cancelled <= 100 * MS + c.r.cost, "not-released", "the caller of %lld was let go %lld ms after cancelling", (long long)c.t, (long long)((c.r.t1 - c.cancelled) / MS));
  }
  for (auto& c : to_expire) {
    SIM_CHECK(!c.r.ok && c.r.kind == "deadline_exceeded", "wrong-error", "call %lld, out of time, ended with %s: %s", (long long)c.t, c.r.ok ? "success" : c.r.kind.c_str(), c.r.what.c_str());
    SIM_CHECK(c.r.t1 - c.at <= 100 * MS + c.r.cost, "not-released", "call %lld was ended %lld ms after its deadline", (long long)c.t, (long long)((c.r.t1 - c.at) / MS));
  }
  std::string got;
  Result r = attempt([&] { got = other.f->get(); });
  SIM_CHECK(r.ok, "bystander-hurt", "call %lld, not cancelled, ended with %s: %s", (long long)other.t, r.kind.c_str(), r.what.c_str());
  sim::sleep_ms(slack_ms() + 500);
  for (auto& c : to_cancel) {
    Exec e = w.get(c.t);
    SIM_CHECK(e.runs == 1, "run-count", "call %lld ran %d times", (long long)c.t, e.runs);
    SIM_CHECK(!e.live, "handler-not-told", "the handler of cancelled call %lld still waits after %lld ms", (long long)c.t, (long long)((sim::now_ns() - c.cancelled) / MS));
    sim::probe("handler-told");
  }
}

SIM_SCENARIO(R04, near_ids, 6) { near_ids(true); }
