#include "arpc/flag.h"
#include "arpc/packet_protocols.h"
#include "streams.h"
using namespace sc;

namespace {
// Encodes one packet to wire form through a random sink.
template <typename P>
std::string wire(P& proto, const std::string& packet) {
  Disk d;
  with_sink(d, [&](arpc::output_stream& out) { proto.send(out, packet); });
  return d.data;
}
struct Line {
  std::string bytes;             // what comes out of the line
  std::vector<uint32_t> intact;  // packets whose frame came out untouched, delimited on both sides
  std::vector<bool> touched;
};
struct Byte { char c; int packet; uint32_t pos; bool orig; };

// Damages a stream of frames and works out which of them survived.
Line damage(const std::vector<std::string>& frames) {
  std::vector<Byte> s;
  for (size_t i = 0; i < frames.size(); i++)
    for (size_t k = 0; k < frames[i].size(); k++) s.push_back({frames[i][k], (int)i, (uint32_t)k, true});
  uint32_t events = sim::weighted(FAULT, {1, 3, 3, 2, 1}) * (1 + sim::pick(FAULT, 2));
  for (uint32_t e = 0; e < events && !s.empty(); e++) {
    sim::count_fault(sim::F_LINE_NOISE);
    // Half of the damage aims at the ends of frames, where delimiters and checksums live.
    size_t at = sim::pick(FAULT, (uint32_t)s.size());
    if (sim::chance(FAULT, 1, 2)) {
      size_t k = at;
      while (k < s.size() && !(s[k].orig && s[k].c == 0)) k++;
      size_t back = sim::pick(FAULT, 12);
      at = std::min(k + 2 - std::min<size_t>(k + 2, back), s.size() - 1);
    }
    size_t len = 1 + (sim::chance(FAULT, 1, 4) ? sim::pick(FAULT, 40) : 0);
    len = std::min(len, s.size() - at);
    switch (sim::pick(FAULT, 5)) {
      case 0: s.erase(s.begin() + at, s.begin() + at + len); break;                  // lost
      case 1:                                                                       // corrupted
        for (size_t k = 0; k < len; k++) {
          s[at + k].c ^= (char)(1 << sim::pick(FAULT, 8));
          s[at + k].orig = false;
        }
        break;
      case 2:                                                                       // replaced
        for (size_t k = 0; k < len; k++) s[at + k] = {(char)(sim::chance(FAULT, 1, 3) ? 0 : sim::pick(FAULT, 256)), -1, 0, false};
        break;
      case 3: {                                                                     // inserted
        std::vector<Byte> ins;
        for (size_t k = 0; k < len; k++) ins.push_back({(char)(sim::chance(FAULT, 1, 3) ? 0 : sim::pick(FAULT, 256)), -1, 0, false});
        s.insert(s.begin() + at, ins.begin(), ins.end());
        break;
      }
      default: s.erase(s.begin() + at, sim::chance(FAULT, 1, 3) ? s.end() : s.begin() + std::min(s.size(), at + 30));  // truncated
    }
  }
  Line l;
  for (auto& b : s) l.bytes.push_back(b.c);
  size_t start = 0;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i].c != 0) continue;
    // The frame [start, i] as the receiver delimits it.
    int p = s[start].packet;
    bool ok = p >= 0 && frames[p].size() == i - start + 1;
    for (size_t k = start; ok && k <= i; k++) ok = s[k].c == frames[p][k - start] && s[k].packet == p && s[k].pos == k - start;
    if (ok) l.intact.push_back(p);
    start = i + 1;
  }
  return l;
}

void judge(const std::vector<std::string>& sent, const std::vector<std::string>& got, const std::vector<uint32_t>& intact) {
  sim::Quiet q;
  // got must be sent[i1], sent[i2], ... with i increasing, and every intact
  // packet must be among them.  Greedy: earliest match, but never past an
  // intact packet that has not been delivered yet.
  size_t s = 0, need = 0;
  for (size_t g = 0; g < got.size(); g++) {
    size_t m = s;
    while (m < sent.size() && sent[m] != got[g]) m++;
    SIM_CHECK(m < sent.size(), "never-sent", "received packet %zu (%zu bytes) is not the next of anything sent: altered, repeated or reordered", g, got[g].size());
    s = m + 1;
  }
  s = 0;
  for (size_t g = 0; g < got.size() && need < intact.size(); g++)
    if (got[g] == sent[intact[need]]) need++;
  SIM_CHECK(need == intact.size(), "lost-good-packet", "packet %u crossed the line untouched but was not received (%zu of %zu untouched ones were)",
            intact[need], need, intact.size());
}

// Receives until the line ends.  Anything but a packet or an error about this
// packet is a violation.
template <typename P>
std::vector<std::string> receive_all(P& proto, arpc::input_stream& in, size_t limit) {
  std::vector<std::string> got;
  for (size_t n = 0; n < limit; n++) {
    try {
      std::string p = proto.receive(in);
      sim::Quiet q;
      got.push_back(std::move(p));
    } catch (const arpc::errors::data_mismatch&) {
      sim::probe("damaged-packet-rejected");
    } catch (const arpc::errors::out_of_range&) {
      sim::probe("oversized-packet-rejected");
    } catch (const arpc::errors::eof&) {
      return got;
    } catch (const std::exception& e) {
      sim::fail("wrong-error", "receiving a damaged packet reported: %s", e.what());
    }
  }
  sim::fail("receive-stuck", "receive() returned %zu times without reaching the end of the line", limit);
}
std::string packet_content() {
  std::string s = random_bytes(size_near_edges());
  return s;
}
}  // namespace

SIM_SCENARIO(S01, noisy_line, 30) {
  arpc::serial_line_packet_protocol<> tx, rx;
  std::vector<std::string> sent, frames;
  uint32_t n = sim::range(OPS, 1, 6);
  for (uint32_t i = 0; i < n; i++) {
    sent.push_back(i && sim::chance(OPS, 1, 10) ? sent[sim::pick(OPS, i)] : packet_content());
    frames.push_back(wire(tx, sent.back()));
    SIM_CHECK(frames.back().find('\0') == frames.back().size() - 1, "bad-frame", "the frame of a %zu-byte packet has a zero inside or no terminator", sent.back().size());
    size_t overhead = frames.back().size() - sent.back().size();
    SIM_CHECK(overhead <= 8 + 2 + (sent.back().size() + 8) / 254, "bad-overhead", "a %zu-byte packet takes %zu bytes on the line", sent.back().size(), frames.back().size());
  }
  Line l = damage(frames);
  std::vector<std::string> got;
  with_source(l.bytes, Cut{}, [&](arpc::input_stream& in) { got = receive_all(rx, in, l.bytes.size() + 2); });
  if (l.intact.size() < sent.size()) sim::probe("some-packets-damaged");
  sim::sample("%zu packets, %zu untouched, %zu received", sent.size(), l.intact.size(), got.size());
  judge(sent, got, l.intact);
}

// Packets up to the limit pass, longer ones are refused without swallowing
// what follows them.
SIM_SCENARIO(S01, packet_limit, 6) {
  arpc::serial_line_packet_protocol<> tx;
  arpc::serial_line_packet_protocol<100> rx;
  std::vector<std::string> sent, frames;
  std::string line;
  std::vector<uint32_t> fit;
  uint32_t n = sim::range(OPS, 1, 8);
  for (uint32_t i = 0; i < n; i++) {
    sent.push_back(random_bytes(sim::chance(OPS, 1, 2) ? 86 + sim::pick(OPS, 10) : sim::pick(OPS, 400)));
    frames.push_back(wire(tx, sent.back()));
    if (frames.back().size() - 1 <= 100) fit.push_back(i);
    line += frames.back();
  }
  std::vector<std::string> got;
  with_source(line, Cut{}, [&](arpc::input_stream& in) { got = receive_all(rx, in, line.size() + 2); });
  judge(sent, got, fit);
  SIM_CHECK(got.size() == fit.size(), "oversized-accepted", "%zu packets received, %zu are within the limit", got.size(), fit.size());
}

// A device at each end of a noisy line, sender and receiver running together.
SIM_SCENARIO(S01, devices, 20) {
  local_faults();
  auto& f = sim::faults();
  f.lat_min_us = 20;
  f.lat_max_us = 20 + sim::pick(CFG, 300);
  if (sim::chance(CFG, 1, 3)) f.short_read = 300000;
  if (sim::chance(CFG, 1, 3)) f.short_write = 300000;
  static const uint32_t rate[] = {0, 500, 5000, 40000};
  f.corrupt = rate[sim::pick(CFG, 4)];
  sim::device_link("/dev/ttyA", "/dev/ttyB");
  static const uint32_t sizes[] = {0, 1, 5, 30, 120, 245, 246, 247, 260, 600};
  auto content = [&](uint32_t i) {
    std::string s = random_bytes(sizes[sim::pick(OPS, 10)]);
    return s + "#" + std::to_string(i);
  };
  std::vector<std::string> noisy, clean;
  for (uint32_t i = sim::range(OPS, 1, 5); i; i--) noisy.push_back(content(100 + i));
  for (uint32_t i = sim::range(OPS, 2, 4); i; i--) clean.push_back(content(200 + i));
  bool noisy_all = f.corrupt == 0;
  std::vector<std::string> got;
  arpc::flag all_received;
  {
    Crew crew;
    crew.add([&] {
      arpc::char_dev_connection c("/dev/ttyA");
      arpc::serial_line_packet_protocol<> tx;
      for (auto& p : noisy) { tx.send(c, p); sim::note("sent %zu", p.size()); pause(); }
      sim::sleep_ms(5);
      sim::faults().corrupt = 0;
      for (auto& p : clean) { tx.send(c, p); sim::note("sent clean %zu", p.size()); pause(); }
      // If the last packet never gets through, nothing can ever run again:
      // the simulator reports that as a deadlock.
      all_received.wait();
    });
    crew.add([&] {
      arpc::char_dev_connection c("/dev/ttyB");
      arpc::serial_line_packet_protocol<> rx;
      for (;;) {
        try {
          std::string p = rx.receive(c);
          bool last = p == clean.back();
          {
            sim::Quiet q;
            sim::note("received %zu", p.size());
            got.push_back(std::move(p));
          }
          if (last) { all_received.set(); return; }
        } catch (const arpc::errors::data_mismatch&) {
          sim::probe("damaged-packet-rejected");
        } catch (const arpc::errors::eof&) {
          return;
        }
      }
    });
  }
  std::vector<std::string> sent = noisy;
  sent.insert(sent.end(), clean.begin(), clean.end());
  std::vector<uint32_t> must;
  for (size_t i = noisy_all ? 0 : noisy.size() + 1; i < sent.size(); i++) must.push_back((uint32_t)i);
  judge(sent, got, must);
}
