// A peer, not the library's client, whose request ids are a bit apart from
// each other: what is said about one of them concerns no other.
#pragma once
#include "rpc.h"
namespace rpc {
inline void near_ids(bool cancels) {
  constexpr int64_t MS = 1000000;
  rpc_faults();
  sim::faults().stall = 0;
  if (sim::faults().sndbuf < 400) sim::faults().sndbuf = 400;
  const int64_t slack = 300 + 20000 * sim::options().step_ns / 1000000 + 40LL * sim::faults().lat_max_us / 1000;
  World w;
  publish(1);
  int n = sim::range(OPS, 2, 8);
  ServerNode server(w, 1, 0, server_options(n + 2));
  struct Call { int64_t t; Job j; std::string payload; int64_t cancelled = -1; int replies = 0; };
  std::map<uint32_t, Call> calls;
  static const uint32_t bases[] = {0, 1, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff};
  uint32_t base = bases[sim::pick(OPS, 9)];
  std::string out;
  for (int i = 0; i < n; i++) {
    uint32_t id = i == 0 ? base : base ^ (1u << sim::pick(OPS, 32));
    if (sim::chance(OPS, 1, 8)) id ^= 1u << sim::pick(OPS, 32);
    if (calls.count(id)) continue;
    Call& c = calls[id];
    c.t = w.token();
    c.j.how = sim::pick(OPS, 3) ? SLEEPING : DEAF;
    c.j.ms = sim::pick(OPS, 300);
    c.payload = payload_of(c.t, 1000);
    out += packet(request_bytes<&Worker::work>(id, worker_name(), c.t, c.j, c.payload));
  }
  sim::set_node(10);
  {
    arpc::channel line = raw_dial(1);
    line.make_non_blocking();
    raw_write(line, out);
    out.clear();
    if (cancels) {
      sim::sleep_us(sim::pick(OPS, 100000));
      for (uint32_t k = sim::range(OPS, 1, 5); k; k--) {
        auto it = calls.begin();
        std::advance(it, sim::pick(OPS, (uint32_t)calls.size()));
        uint32_t id = it->first;
        if (sim::pick(OPS, 2)) id ^= 1u << sim::pick(OPS, 32);   // most likely in use by nobody
        auto c = calls.find(id);
        if (c != calls.end() && c->second.cancelled < 0) c->second.cancelled = sim::now_ns();
        sim::count_fault(sim::F_CANCEL);
        sim::note("cancelling %u%s", id, c == calls.end() ? ", which nobody uses" : "");
        out += packet(cancel_bytes(id));
        if (sim::pick(OPS, 2)) { raw_write(line, out); out.clear(); pause(); }
      }
      raw_write(line, out);
    }
    size_t left = calls.size();
    raw_read(line, 300 + 3 * slack, [&](const std::string& p) {
      uint32_t id = 0;
      std::optional<std::string> v;
      std::string error;
      SIM_CHECK(read_reply<std::string>(p, id, v, error), "wrong-reply", "an unintelligible reply");
      auto it = calls.find(id);
      SIM_CHECK(it != calls.end(), "wrong-reply", "a reply to request %u, which nobody made", id);
      Call& c = it->second;
      SIM_CHECK(++c.replies == 1, "answered-twice", "request %u was answered %d times", id, c.replies);
      if (v) SIM_CHECK(*v == answer(c.t, c.j, c.payload), "wrong-reply", "request %u got a reply that is not its own", id);
      else {
        SIM_CHECK(c.cancelled >= 0, "bystander-hurt", "request %u, which nobody cancelled, failed with %s", id, error.c_str());
        SIM_CHECK(error == "cancelled", "wrong-error", "cancelled request %u failed with %s", id, error.c_str());
        sim::probe("released");
      }
      return --left > 0;
    });
    for (auto& [id, c] : calls) SIM_CHECK(c.replies == 1, "no-reply", "request %u was never answered", id);
  }
  sim::sleep_ms(slack);
  for (auto& [id, c] : calls) {
    Exec e = w.get(c.t);
    SIM_CHECK(e.runs == 1, "run-count", "request %u ran %d times", id, e.runs);
    if (c.cancelled < 0) SIM_CHECK(!e.cancelled, "bystander-hurt", "the handler of %u saw a cancellation", id);
    else if (c.j.how == SLEEPING) SIM_CHECK(e.cancelled || e.end - c.cancelled < slack * MS, "handler-not-told", "the handler of cancelled request %u went on for %lld ms", id, (long long)((e.end - c.cancelled) / MS));
  }
  sim::probe("near-ids");
}
}  // namespace rpc
