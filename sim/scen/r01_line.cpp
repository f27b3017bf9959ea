// Calls over noisy lines, calls with object graphs, and one recorded defect.
#include "rpc.h"
using namespace rpc;

namespace {
constexpr int64_t MS = 1000000;
using Protocol = arpc::serial_line_packet_protocol<>;
using LineClient = arpc::client_connection<arpc::client_socket_connection, Enc, Dec, Protocol>;
using LineServer = arpc::server<Enc, Dec, Protocol>;
using SerialClient = arpc::client_connection<arpc::char_dev_connection, Enc, Dec, Protocol>;
// A server at the end of a serial line: one connection, opened again if it fails.
class SerialFactory {
 public:
  using connection_type = arpc::packet_connection_impl<arpc::char_dev_connection, Protocol>;
  explicit SerialFactory(const std::string& path) : path_(path) {}
  std::unique_ptr<connection_type> operator()() { return std::make_unique<connection_type>(path_); }
 private:
  std::string path_;
};
using SerialServer = arpc::server<Enc, Dec, Protocol, Enc, arpc::connection_producer<SerialFactory, 1>>;

// Whatever becomes of the calls, no reply is wrong and none runs twice.
template <typename C> void call_over(World& w, C& client, int node, bool noisy, int slow) {
  sim::set_node(node);
  auto p = client.template get_proxy<Worker>("worker");
  auto as = client.template get_proxy<Worker::async>("worker");
  for (uint32_t n = sim::range(OPS, 1, 6); n; n--) {
    pause();
    int64_t t = w.token();
    Job j = random_job(slow);
    if (j.size > 1000 && j.how != FAILING) j.size = 1000;
    std::string payload = payload_of(t, 600), got;
    arpc::context ctx;
    ctx.set_timeout(ms(noisy ? 20000 : 1000000));
    Result r = attempt([&] {
      if (sim::pick(OPS, 2)) got = p.work(t, j, payload);
      else { auto f = as.work(t, j, payload).first; pause(); got = f.get(); }
    });
    Exec e = w.get(t);
    SIM_CHECK(e.runs <= 1, "run-twice", "call %lld ran %d times", (long long)t, e.runs);
    if (r.ok) {
      SIM_CHECK(e.runs == 1, "reply-without-run", "call %lld was answered and never run", (long long)t);
      if (j.how == FAILING) check_failure(t, j, r);
      SIM_CHECK(got == answer(t, j, payload), "wrong-reply", "call %lld got a wrong reply of %zu bytes", (long long)t, got.size());
      sim::probe("line-served");
    } else if (j.how == FAILING && r.kind == kind_name(j.size) && (j.size == 15 || r.what == j.text)) {
      sim::probe("line-failure-reported");
    } else {
      SIM_CHECK(noisy, "call-failed", "call %lld failed with %s: %s though nothing went wrong", (long long)t, r.kind.c_str(), r.what.c_str());
      sim::probe("line-lost");
    }
  }
}
void noise() {
  rpc_faults();
  sim::faults().stall = 0;
  if (sim::faults().lat_max_us > 5000) sim::faults().lat_max_us = 5000;
}
}  // namespace

// Sockets that damage what they carry, and packets protected against that.
SIM_SCENARIO(R01, noisy, 7) {
  noise();
  if (sim::pick(CFG, 4)) sim::faults().corrupt = sim::pick(CFG, 2) ? 2000 : 30000;
  bool noisy = sim::faults().corrupt;
  World w;
  publish(1);
  Object obj(w, 0, "worker");
  std::optional<LineServer> srv;
  on(1, [&] {
    srv.emplace(server_options(4), arpc::endpoint().port(PORT));
    srv->register_object("worker", obj);
    srv->start();
  });
  std::vector<std::unique_ptr<LineClient>> clients;
  int nclients = sim::range(CFG, 1, 2);
  for (int i = 0; i < nclients; i++) on(10 + i, [&] { clients.push_back(std::make_unique<LineClient>(place(1))); });
  {
    Crew crew;
    for (int i = 0; i < nclients; i++) for (int k = sim::range(OPS, 1, 2); k; k--) crew.add([&, i] { call_over(w, *clients[i], 10 + i, noisy, 20); });
  }
  sim::faults().corrupt = 0;
  clients.clear();
  on(1, [&] { srv.reset(); });
  for (auto& e : w.exec) SIM_CHECK(e.second.runs <= 1, "run-twice", "call %lld ran %d times", (long long)e.first, e.second.runs);
}

// A serial line.
SIM_SCENARIO(R01, serial, 6) {
  noise();
  if (sim::pick(CFG, 3)) sim::faults().corrupt = sim::pick(CFG, 2) ? 300 : 5000;
  bool noisy = sim::faults().corrupt;
  sim::device_link("/dev/ttyA", "/dev/ttyB");
  World w;
  Object obj(w, 0, "worker");
  std::optional<SerialServer> srv;
  on(1, [&] {
    srv.emplace(server_options(4), std::string("/dev/ttyB"));
    srv->register_object("worker", obj);
    srv->start();
  });
  std::optional<SerialClient> client;
  on(10, [&] { client.emplace(std::string("/dev/ttyA")); });
  {
    Crew crew;
    for (int k = sim::range(OPS, 1, 3); k; k--) crew.add([&] { call_over(w, *client, 10, noisy, 20); });
  }
  sim::faults().corrupt = 0;
  client.reset();
  on(1, [&] { srv.reset(); });
  for (auto& e : w.exec) SIM_CHECK(e.second.runs <= 1, "run-twice", "call %lld ran %d times", (long long)e.first, e.second.runs);
}

// Arguments and results that share and point to each other.
SIM_SCENARIO(R01, graphs, 5) {
  rpc_faults();
  World w;
  publish(1);
  ServerNode server(w, 1, 0, server_options());
  std::optional<Client> client;
  on(10, [&] { client.emplace(place(1)); });
  {
    Crew crew;
    for (int k = sim::range(OPS, 1, 3); k; k--) crew.add([&] {
      sim::set_node(10);
      auto p = client->get_proxy<Graphs>("worker");
      for (int n = sim::range(OPS, 1, 4); n; n--) {
        int64_t t = w.token();
        std::shared_ptr<graph::Node> root;
        int shape = sim::pick(OPS, 5);
        auto node = [&](int i) { auto x = std::make_shared<graph::Node>(); x->id = (int32_t)(t * 100 + i); return x; };
        if (shape) {
          root = node(0);
          root->a = node(1);
          if (shape == 2) root->b = root->a;
          if (shape == 3) { root->b = node(2); root->a->a = root->b; root->b->w = root; }
          if (shape == 4) { root->b = node(2); auto s = std::make_shared<std::string>(fill(t, 200)); root->text = root->a->text = root->b->text = s; }
        }
        std::shared_ptr<graph::Node> got;
        Result r = attempt([&] { got = p.turn(t, root); });
        SIM_CHECK(r.ok, "call-failed", "turn %lld failed with %s: %s", (long long)t, r.kind.c_str(), r.what.c_str());
        SIM_CHECK((bool)got == (bool)root, "wrong-reply", "turn %lld lost its object", (long long)t);
        if (!root) continue;
        auto id = [](const std::shared_ptr<graph::Node>& x) { return x ? x->id : -1; };
        SIM_CHECK(got->id == root->id && id(got->a) == id(root->b) && id(got->b) == id(root->a), "wrong-reply", "turn %lld got another graph", (long long)t);
        if (shape == 2) SIM_CHECK(got->a == got->b, "wrong-reply", "turn %lld: what was one object came back as two", (long long)t);
        if (shape == 3) SIM_CHECK(got->b->a == got->a && got->a->w.lock() == got, "wrong-reply", "turn %lld: sharing was lost", (long long)t);
        if (shape == 4) SIM_CHECK(got->text && *got->text == fill(t, 200) && got->text == got->a->text && got->text == got->b->text, "wrong-reply", "turn %lld: shared text was lost", (long long)t);
        sim::probe("graph-turned");
      }
    });
  }
}

// A handler that reports try_again.
SIM_SCENARIO(R01, again, 1) {
  rpc_faults();
  sim::faults().stall = 0;
  if (sim::faults().sndbuf < 400) sim::faults().sndbuf = 400;
  World w;
  publish(1);
  ServerNode server(w, 1, 0, server_options());
  sim::set_node(10);
  Client client(place(1));
  auto p = client.get_proxy<Worker>("worker");
  int64_t t = w.token();
  Job j;
  j.how = FAILING;
  j.size = 16;
  j.text = "busy";
  arpc::context ctx;
  ctx.set_timeout(ms(3000));
  Result r = attempt([&] { p.poke(t, j); });
  if (!r.ok && r.kind == "deadline_exceeded" && w.get(t).runs == 1 && sim::known_finding("try-again-outcome")) return;
  check_failure(t, j, r);
}
