#include <atomic>
#include "arpc/packet_protocols.h"
#include "values.h"
using namespace sc;
using namespace val;

namespace {
// A repeatable writing job: the same calls on whatever stream it is given.
struct Job {
  virtual ~Job() = default;
  virtual void run(arpc::output_stream& out) = 0;
};
struct Raw : Job {
  std::vector<std::string> parts;
  std::vector<bool> by_char;
  Raw() { for (uint32_t n = sim::range(OPS, 1, 5); n; n--) { parts.push_back(random_bytes(size_near_edges(false))); by_char.push_back(sim::pick(OPS, 2)); } }
  void run(arpc::output_stream& out) override {
    for (size_t i = 0; i < parts.size(); i++) {
      if (by_char[i]) for (char c : parts[i]) out.putc(c);
      else out.write(parts[i].data(), parts[i].size());
    }
    out.flush();
  }
};
template <typename T, typename E>
struct Encode : Job {
  T v{};
  Encode() { gen(v); }
  void run(arpc::output_stream& out) override {
    E e(out);
    e(v);
    out.flush();
  }
};
template <typename E>
std::unique_ptr<Job> encode_job() {
  uint32_t n = 0;
  each_type([&]<typename T>(const char*) { n++; });
  uint32_t k = sim::pick(OPS, n);
  std::unique_ptr<Job> r;
  each_type([&]<typename T>(const char* name) { if (k-- == 0) { sim::note("%s", name); r.reset(new Encode<T, E>); } });
  return r;
}
template <typename P>
struct Send : Job {
  std::string packet = random_bytes(size_near_edges());
  void run(arpc::output_stream& out) override { P().send(out, packet); }
};
std::unique_ptr<Job> random_job() {
  switch (sim::pick(OPS, 6)) {
    case 0: return std::make_unique<Raw>();
    case 1: return encode_job<arpc::little_endian_binary_encoder>();
    case 2: return encode_job<arpc::big_endian_binary_encoder>();
    case 3: return std::make_unique<Send<arpc::serial_line_packet_protocol<>>>();
    case 4: return std::make_unique<Send<arpc::protected_stream_packet_protocol<>>>();
    default: return std::make_unique<Raw>();
  }
}
std::string intended_bytes(Job& j) {
  std::string s;
  arpc::string_output_stream out(s);
  j.run(out);
  return s;
}
}  // namespace

SIM_SCENARIO(S05, failing_sink, 30) {
  std::vector<std::unique_ptr<Job>> jobs;
  std::vector<std::string> want;
  size_t total = 0;
  for (uint32_t n = sim::range(OPS, 1, 3); n; n--) {
    jobs.push_back(random_job());
    want.push_back(intended_bytes(*jobs.back()));
    total += want.back().size();
  }
  Disk d;
  bool memory = false;
  switch (sim::pick(FAULT, 5)) {
    case 0: break;
    case 1: d.cap = sim::pick(FAULT, (uint32_t)total + 1); break;
    case 2: d.cap = total - std::min<size_t>(total, 1 + sim::pick(FAULT, 4)); break;   // loses only the very end
    case 3: d.fail_sync = true; break;
    default: memory = true;
  }
  bool told = false;
  std::string got, expect;
  with_sink(d, [&](arpc::output_stream& out) {
    for (size_t i = 0; i < jobs.size(); i++) {
      try {
        if (memory) sim::alloc_fail(sim::pick(FAULT, 30));
        jobs[i]->run(out);
        sim::alloc_fail(-1);
      } catch (const std::exception& e) {
        if (memory && !sim::alloc_fail_pending()) sim::count_fault(sim::F_BADALLOC);
        sim::alloc_fail(-1);
        told = true;
        sim::note("told: %s", e.what());
        SIM_CHECK(d.failed || memory, "wrong-error", "the sink accepted everything but the writer was told: %s", e.what());
        break;
      }
      expect += want[i];
      SIM_CHECK(!d.failed, "failure-hidden", "the sink failed after %zu of %zu bytes but the writer was told nothing", d.data.size(), expect.size());
      SIM_CHECK(d.data == expect, "bytes-differ", "after a flush that reported success the sink holds %zu bytes, %zu were written%s", d.data.size(), expect.size(),
                d.data.size() == expect.size() ? ", contents differ" : "");
    }
    got = d.data;
  });
  if (told) sim::probe("writer-told");
  else sim::probe("all-written");
  sim::sample("%zu bytes meant for the sink, %zu reached it, writer %s", total, got.size(), told ? "told of a failure" : "not told of any failure");
}

// Connections: the far end may go away at any moment.
SIM_SCENARIO(S05, vanishing_peer, 15) {
  net_faults();
  auto& f = sim::faults();
  f.spurious_ready = 0;
  static const uint32_t caps[] = {4096, 65536};
  f.pipe_cap = caps[sim::pick(CFG, 2)];
  if (f.sndbuf < 64) f.sndbuf = 64;
  bool socket = sim::chance(CFG, 1, 2);
  std::unique_ptr<arpc::channel_connection> near;
  arpc::channel far;
  if (socket) {
    arpc::listener l(arpc::endpoint().port(700));
    Crew crew;
    crew.add([&] { near.reset(new arpc::client_socket_connection(arpc::endpoint().name("localhost").port(700))); });
    far = l.accept();
    crew.join();
  } else {
    arpc::channel p[2];
    arpc::pipe(p);
    far = std::move(p[0]);
    near.reset(new arpc::channel_connection(std::move(p[1])));
  }
  std::vector<std::unique_ptr<Job>> jobs;
  std::vector<std::string> want;
  std::string all;
  for (uint32_t n = sim::range(OPS, 1, 3); n; n--) {
    jobs.push_back(std::make_unique<Send<arpc::protected_stream_packet_protocol<>>>());
    want.push_back(intended_bytes(*jobs.back()));
    all += want.back();
  }
  size_t stop = sim::chance(FAULT, 1, 2) ? SIZE_MAX : sim::pick(FAULT, (uint32_t)all.size() + 1);
  std::atomic<uint64_t> gone{UINT64_MAX};
  std::string got;
  std::atomic<bool> failed{false};
  size_t accepted = 0;
  Crew crew;
  crew.add([&] {
    std::string b(3000, 0);
    size_t n = 0;
    try {
      while (n < stop) {
        size_t k = far.read(&b[0], std::min<size_t>(stop - n, 1 + sim::pick(OPS, 2999)));
        sim::Quiet q;
        got.append(b, 0, k);
        n += k;
      }
    } catch (const arpc::errors::eof&) {
    } catch (const arpc::errors::io_error&) {
    }
    far.close();
    gone = sim::now_ns();
  });
  crew.add([&] {
    for (size_t i = 0; i < jobs.size(); i++) {
      if (sim::chance(OPS, 1, 3)) sim::sleep_ms(30);
      uint64_t start = sim::now_ns();
      bool was_gone = gone != UINT64_MAX && gone + 2 * (uint64_t)f.lat_max_us * 1000 + 1000000 < start;
      try {
        jobs[i]->run(*near);
      } catch (const arpc::errors::io_error&) {
        failed = true;
        sim::probe("writer-told");
        break;
      }
      sim::Quiet q;
      accepted += want[i].size();
      // A socket needs one write to find out; a pipe knows at once.
      SIM_CHECK(!was_gone || socket, "failure-hidden", "writing %zu bytes into a pipe nobody reads reported success", want[i].size());
    }
    near->disconnect();
  });
  crew.join();
  SIM_CHECK(all.compare(0, got.size(), got) == 0, "bytes-differ", "the peer received %zu bytes that are not what was sent", got.size());
  if (stop == SIZE_MAX) {
    SIM_CHECK(!failed, "wrong-error", "the peer read everything but the writer was told of a failure");
    SIM_CHECK(got.size() == all.size(), "bytes-differ", "%zu bytes reported written, the peer received %zu", accepted, got.size());
  }
}
