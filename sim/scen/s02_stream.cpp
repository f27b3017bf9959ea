#include "arpc/packet_protocols.h"
#include "arpc/socket.h"
#include "streams.h"
using namespace sc;

namespace {
using LE = arpc::protected_stream_packet_protocol<>;
using BE = arpc::protected_stream_packet_protocol<arpc::big_endian_binary_encoder, arpc::big_endian_binary_decoder>;

std::vector<std::string> packets(uint32_t max, bool big) {
  std::vector<std::string> r;
  for (uint32_t i = sim::range(OPS, 1, max); i; i--) r.push_back(random_bytes(size_near_edges(big)));
  return r;
}
// Receives until the stream ends and compares with what was sent.  `whole` is
// how many packets are entirely in the stream; `partial` whether more follows.
template <typename P>
void receive_and_check(arpc::input_stream& in, const std::vector<std::string>& sent, size_t whole, bool fails) {
  P rx;
  for (size_t i = 0;; i++) {
    try {
      std::string p = rx.receive(in);
      sim::Quiet q;
      SIM_CHECK(i < whole, "made-up-packet", "the stream holds %zu whole packets but another of %zu bytes was received", whole, p.size());
      SIM_CHECK(p == sent[i], "packet-altered", "packet %zu: %zu bytes sent, %zu received%s", i, sent[i].size(), p.size(), p.size() == sent[i].size() ? ", contents differ" : "");
    } catch (const arpc::errors::eof&) {
      SIM_CHECK(i >= whole, "packet-lost", "end of stream reported before packet %zu of %zu", i, whole);
      SIM_CHECK(!fails, "failure-hidden", "the stream failed but its reader was told it ended");
      return;
    } catch (const arpc::errors::io_error&) {
      SIM_CHECK(i >= whole, "packet-lost", "an error was reported before packet %zu of %zu", i, whole);
      SIM_CHECK(fails, "wrong-error", "an error was reported at the end of a good stream");
      return;
    } catch (const std::exception& e) {
      sim::fail("wrong-error", "receiving packet %zu of %zu reported: %s", i, whole, e.what());
    }
  }
}
template <typename P>
void piecewise() {
  P tx;
  auto sent = packets(5, true);
  // Three and four bytes of length.
  if (sim::chance(OPS, 1, 200)) sent.insert(sent.begin() + sim::pick(OPS, 2), random_bytes((1 << 21) - 2 + sim::pick(OPS, 4)));
  std::string line;
  std::vector<size_t> ends;
  for (auto& p : sent) {
    Disk d;
    with_sink(d, [&](arpc::output_stream& out) { tx.send(out, p); });
    line += d.data;
    ends.push_back(line.size());
  }
  Cut c;
  if (sim::chance(CFG, 1, 2)) {
    // Aim at packet ends as well as anywhere.
    c.at = sim::chance(CFG, 1, 2) ? sim::pick(FAULT, (uint32_t)line.size() + 1) : ends[sim::pick(FAULT, (uint32_t)ends.size())] - 2 + sim::pick(FAULT, 4);
    if (c.at > line.size()) c.at = line.size();
    c.fail = sim::chance(CFG, 1, 2);
    sim::probe(c.fail ? "source-fails" : "source-ends-early");
  }
  size_t whole = 0;
  while (whole < ends.size() && ends[whole] <= c.at) whole++;
  with_source(line, c, [&](arpc::input_stream& in) { receive_and_check<P>(in, sent, whole, c.fail); });
}
// Both directions of a connection at once, over the simulated network.
template <typename P>
void sockets() {
  net_faults();
  auto& f = sim::faults();
  f.spurious_ready = 0;
  if (f.sndbuf < 64) f.sndbuf = 64;
  arpc::listener l(arpc::endpoint().port(700));
  auto up = packets(3, sim::chance(CFG, 1, 3)), down = packets(3, false);
  // How the client ends: cleanly, after part of a packet, or by a reset.
  int how = sim::pick(CFG, 3);
  size_t extra = 1 + sim::pick(FAULT, 300);
  Crew crew;
  crew.add([&] {
    arpc::client_socket_connection c(arpc::endpoint().name("localhost").port(700));
    {
      Crew in;
      in.add([&] {
        P rx;
        for (auto& p : down) SIM_CHECK(rx.receive(c) == p, "packet-altered", "a packet from the server changed on the way");
      });
      P tx;
      for (auto& p : up) { tx.send(c, p); if (sim::chance(OPS, 1, 4)) pause(); }
      if (how == 1) {
        std::string more;
        arpc::string_output_stream so(more);
        P().send(so, random_bytes(extra));
        c.write(more.data(), 1 + sim::pick(FAULT, (uint32_t)more.size() - 1));
        sim::probe("peer-dies-inside-packet");
      }
    }
    if (how == 2) { sim::net_reset_all(sim::node()); sim::probe("reset"); }
  });
  crew.add([&] {
    arpc::channel_connection c(l.accept());
    Crew out;
    out.add([&] {
      P tx;
      for (auto& p : down) { tx.send(c, p); if (sim::chance(OPS, 1, 4)) pause(); }
    });
    P rx;
    for (size_t i = 0;; i++) {
      try {
        std::string p = rx.receive(c);
        sim::Quiet q;
        SIM_CHECK(i < up.size(), "made-up-packet", "more packets were received than sent");
        SIM_CHECK(p == up[i], "packet-altered", "packet %zu: %zu bytes sent, %zu received", i, up[i].size(), p.size());
      } catch (const arpc::errors::eof&) {
        SIM_CHECK(i == up.size(), "packet-lost", "end of stream before packet %zu of %zu", i, up.size());
        break;
      } catch (const arpc::errors::io_error&) {
        SIM_CHECK(how == 2, "wrong-error", "an I/O error on a connection that was closed normally");
        break;
      }
    }
  });
}
}  // namespace

SIM_SCENARIO(S02, piecewise, 20) { if (sim::chance(CFG, 1, 3)) piecewise<BE>(); else piecewise<LE>(); }
SIM_SCENARIO(S02, sockets, 12) { if (sim::chance(CFG, 1, 3)) sockets<BE>(); else sockets<LE>(); }
