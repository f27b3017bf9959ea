#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <string.h>
#include <sys/socket.h>
#include <array>
#include <atomic>
#include <condition_variable>
#include <set>
#include "arpc/address_resolver.h"
#include "arpc/connection.h"
#include "arpc/file.h"
#include "arpc/pipe.h"
#include "arpc/socket.h"
#include "common.h"
using namespace sc;

namespace {
// The calling thread's own context and its descriptors exist before we count.
int descriptors() {
  arpc::select(arpc::timeout(ms(0)));
  return sim::open_fds();
}
// Byte i of stream s, so that any loss, duplication, reordering or mix shows.
char pat(uint32_t s, uint64_t i) {
  uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ULL + s * 0xD1B54A32D192ED03ULL;
  x ^= x >> 29;
  x *= 0xBF58476D1CE4E5B9ULL;
  return (char)(x >> 56);
}
std::string chunk(uint32_t s, uint64_t from, size_t n) {
  std::string r(n, 0);
  for (size_t i = 0; i < n; i++) r[i] = pat(s, from + i);
  return r;
}
void verify(uint32_t s, uint64_t from, const char* p, size_t n, const char* what) {
  sim::Quiet q;
  for (size_t i = 0; i < n; i++)
    SIM_CHECK(p[i] == pat(s, from + i), "bytes-altered", "%s: byte %llu of stream %u is wrong", what, (unsigned long long)(from + i), s);
}
size_t some() {
  static const uint32_t top[] = {1, 8, 40, 300, 3000};
  return 1 + sim::pick(OPS, top[sim::pick(OPS, 5)]);
}
enum End { CLOSED, BROKEN, STOPPED };   // how a stream ended for its reader

// Writes `total` bytes to a raw channel.  Returns how many went in; anything
// given up (timeout, cancellation) must not have been written.
uint64_t pour(arpc::channel& c, uint32_t s, uint64_t total, bool patient, CancelHub& hub, bool* broken) {
  uint64_t done = 0;
  while (done < total) {
    size_t n = std::min<uint64_t>(some(), total - done);
    std::string b = chunk(s, done, n);
    try {
      size_t w = 0;
      switch (patient ? 0 : sim::pick(OPS, 4)) {
        case 0: w = c.write(b.data(), n); break;
        case 1: {
          auto [r, t] = arpc::select(c.async_write(b.data(), n), arpc::timeout(ms(sim::pick(OPS, 3))));
          if (r) w = *r;
          else SIM_CHECK(t, "empty-select", "nothing was ready");
          break;
        }
        case 2: {
          auto [r, t] = arpc::select(c.can_write(), arpc::timeout(ms(5)));
          if (r) w = c.maybe_write(b.data(), n);
          break;
        }
        default: {
          Scope sc(hub);
          w = c.write(b.data(), n);
        }
      }
      SIM_CHECK(w <= n, "over-write", "write of %zu bytes returned %zu", n, w);
      done += w;
    } catch (const arpc::errors::cancelled&) {
      sim::probe("write-cancelled");
    } catch (const arpc::errors::try_again&) {
      SIM_CHECK(!patient, "try-again", "a blocking write said try again");
    } catch (const arpc::errors::io_error&) {
      *broken = true;
      return done;
    }
    if (sim::chance(OPS, 1, 4)) pause();
  }
  return done;
}
// Reads until the end, verifying every byte.
uint64_t drain(arpc::channel& c, uint32_t s, bool patient, CancelHub& hub, End* end, uint64_t limit = UINT64_MAX) {
  uint64_t got = 0;
  while (got < limit) {
    size_t n = std::min<uint64_t>(some(), limit - got);
    std::string b(n + 8, '\x5a');
    try {
      size_t r = 0;
      switch (patient ? 0 : sim::pick(OPS, 4)) {
        case 0: r = c.read(&b[0], n); SIM_CHECK(r > 0, "empty-read", "a blocking read returned 0 bytes"); break;
        case 1: {
          auto [d, t] = arpc::select(c.async_read(&b[0], n), arpc::timeout(ms(sim::pick(OPS, 3))));
          if (d) r = *d;
          else SIM_CHECK(t, "empty-select", "nothing was ready");
          break;
        }
        case 2: {
          auto [d, t] = arpc::select(c.can_read(), arpc::timeout(ms(5)));
          if (d) r = c.maybe_read(&b[0], n);
          break;
        }
        default: {
          Scope sc(hub);
          r = c.read(&b[0], n);
        }
      }
      SIM_CHECK(r <= n, "over-read", "read of %zu bytes returned %zu", n, r);
      SIM_CHECK(b.compare(n, 8, "ZZZZZZZZ") == 0, "overrun", "a read wrote past its buffer");
      verify(s, got, b.data(), r, "channel");
      got += r;
    } catch (const arpc::errors::cancelled&) {
      sim::probe("read-cancelled");
    } catch (const arpc::errors::try_again&) {
      SIM_CHECK(!patient, "try-again", "a blocking read said try again");
    } catch (const arpc::errors::eof&) {
      *end = CLOSED;
      return got;
    } catch (const arpc::errors::io_error&) {
      *end = BROKEN;
      return got;
    }
    if (sim::chance(OPS, 1, 4)) pause();
  }
  *end = STOPPED;
  return got;
}
struct Pair { arpc::channel a, b; };
Pair socket_pair(int port) {
  Pair p;
  arpc::listener l(arpc::endpoint().port(port));
  Crew crew;
  crew.add([&] { p.a = arpc::dial(arpc::endpoint().name("localhost").port(port)); });
  p.b = l.accept();
  crew.join();
  return p;
}
}  // namespace

SIM_SCENARIO(A10, pipe, 8) {
  local_faults();
  static const uint32_t caps[] = {65536, 4096, 5000, 20000};
  sim::faults().pipe_cap = caps[sim::pick(CFG, 4)];
  int before = descriptors();
  {
    arpc::channel p[2];
    arpc::pipe(p);
    bool wn = sim::chance(OPS, 1, 2), rn = sim::chance(OPS, 1, 2);
    if (wn) p[1].make_non_blocking();
    if (rn) p[0].make_non_blocking();
    uint64_t total = sim::pick(OPS, 20000);
    sim::sample("pipe bytes=%llu ", (unsigned long long)total);
    CancelHub hub;
    Crew crew;
    crew.add([&] {
      bool broken = false;
      uint64_t w = pour(p[1], 7, total, !wn, hub, &broken);
      SIM_CHECK(w == total && !broken, "write-failed", "%llu of %llu bytes written", (unsigned long long)w, (unsigned long long)total);
      p[1].close();
    });
    crew.add([&] {
      End end;
      uint64_t r = drain(p[0], 7, false, hub, &end);
      SIM_CHECK(end == CLOSED && r == total, "bytes-lost", "%llu of %llu bytes read, end %d", (unsigned long long)r, (unsigned long long)total, end);
      if (sim::chance(OPS, 1, 2)) {   // the end stays the end
        End again;
        SIM_CHECK(drain(p[0], 7, true, hub, &again) == 0 && again == CLOSED, "end-lost", "read again past the end: %d", again);
      }
    });
    crew.add([&] { for (int j = sim::pick(OPS, 6); j; j--) { pause(); hub.cancel_one(); } });
  }
  SIM_CHECK(sim::open_fds() == before, "descriptor-leak", "%d descriptors open, %d before", sim::open_fds(), before);
}

SIM_SCENARIO(A10, socket, 8) {
  net_faults();
  if (sim::chance(CFG, 1, 4)) sim::faults().conn_reset = 3000;
  {
    Pair p = socket_pair(700);
    SIM_CHECK(p.a && p.b, "no-connection", "dial or accept returned an empty channel");
    uint64_t total[2] = {sim::pick(OPS, 15000), sim::pick(OPS, 15000)}, wrote[2] = {0, 0}, got[2] = {0, 0};
    bool broken[2] = {false, false};
    End end[2];
    CancelHub hub;
    {
      Crew crew;
      arpc::channel* c[2] = {&p.a, &p.b};
      for (int k = 0; k < 2; k++) {
        crew.add([&, k] {
          wrote[k] = pour(*c[k], k, total[k], false, hub, &broken[k]);
          if (!broken[k]) {
            try { c[k]->flush(); c[k]->shutdown(false, true); } catch (const arpc::errors::io_error&) { broken[k] = true; }
          }
        });
        crew.add([&, k] { got[k] = drain(*c[1 - k], k, false, hub, &end[k]); });
      }
      crew.add([&] { for (int j = sim::pick(OPS, 6); j; j--) { pause(); hub.cancel_one(); } });
    }
    bool fault = sim::faults().conn_reset > 0;
    for (int k = 0; k < 2; k++) {
      SIM_CHECK(fault || !broken[k], "write-failed", "a write failed on a healthy connection");
      SIM_CHECK(fault || (end[k] == CLOSED && got[k] == total[k]), "bytes-lost", "%llu of %llu bytes read", (unsigned long long)got[k], (unsigned long long)total[k]);
      SIM_CHECK(end[k] != CLOSED || broken[k] || broken[1 - k] || fault || got[k] == wrote[k], "bytes-lost", "clean end after %llu of %llu bytes", (unsigned long long)got[k], (unsigned long long)wrote[k]);
    }
    SIM_CHECK(sim::open_sockets() == 2, "descriptor-leak", "%d sockets open instead of 2", sim::open_sockets());
  }
  SIM_CHECK(sim::open_sockets() == 0, "descriptor-leak", "%d sockets still open", sim::open_sockets());
}

// Files in every mode, against a model of their contents and of every channel's place in them.
SIM_SCENARIO(A10, files, 6) {
  local_faults();
  auto& f = sim::faults();
  if (sim::chance(CFG, 1, 3)) f.short_read = f.short_write = 300000;
  if (sim::chance(CFG, 1, 4)) f.disk_error = 100000;
  if (sim::chance(CFG, 1, 4)) f.disk_size = sim::pick(CFG, 3000);
  int before = descriptors();
  sim::file_dir("/data");
  static const char* names[] = {"/data/one", "/data/two", "/data/three", "/none/four"};
  struct Model { bool exists = false; std::string data; } model[4];
  struct Place { uint64_t pos = 0; };
  struct Open { arpc::channel c; int file; bool rd, wr, append; std::shared_ptr<Place> at; };
  std::vector<Open> open;
  uint32_t stream = 0;
  for (int op = 5 + sim::pick(OPS, 60); op; op--) {
    switch (sim::weighted(OPS, {4, 2, 1, 8, 8})) {
      case 0: {
        int k = sim::pick(OPS, 4);
        auto m = static_cast<arpc::open_mode>(sim::pick(OPS, 6));
        bool plus = m >= arpc::open_mode::READ_PLUS, wr = plus || m != arpc::open_mode::READ, rd = plus || m == arpc::open_mode::READ;
        bool append = m == arpc::open_mode::APPEND || m == arpc::open_mode::APPEND_PLUS;
        bool trunc = m == arpc::open_mode::WRITE || m == arpc::open_mode::WRITE_PLUS, create = append || trunc;
        bool possible = k < 3 && (create || model[k].exists), done = false;
        try {
          Open o{arpc::file(names[k], m), k, rd, wr, append, std::make_shared<Place>()};
          done = true;
          SIM_CHECK(o.c, "no-file", "file() returned an empty channel");
          open.push_back(std::move(o));
        } catch (const arpc::errors::io_error& e) {
        }
        SIM_CHECK(done == possible, "open-outcome", "opening file %d in mode %d %s", k, (int)m, done ? "worked" : "failed");
        if (done && trunc) model[k].data.clear();
        if (done && create) model[k].exists = true;
        break;
      }
      case 1:
        if (!open.empty()) open.erase(open.begin() + sim::pick(OPS, (uint32_t)open.size()));
        break;
      case 2:
        if (!open.empty()) {
          auto& o = open[sim::pick(OPS, (uint32_t)open.size())];
          Open d{o.c.dup(), o.file, o.rd, o.wr, o.append, o.at};
          open.push_back(std::move(d));
        }
        break;
      case 3: {
        if (open.empty()) break;
        auto& o = open[sim::pick(OPS, (uint32_t)open.size())];
        auto& data = model[o.file].data;
        size_t n = some(), w = 0;
        std::string b = chunk(++stream, 0, n);
        bool failed = false;
        try {
          if (sim::chance(OPS, 1, 3)) {
            auto [r, t] = arpc::select(o.c.async_write(b.data(), n), arpc::timeout(ms(1)));
            w = *r;
          } else if (sim::chance(OPS, 1, 2)) w = o.c.maybe_write(b.data(), n);
          else w = o.c.write(b.data(), n);
        } catch (const arpc::errors::io_error&) {
          failed = true;
        }
        SIM_CHECK(failed || (o.wr && w > 0 && w <= n), "file-write", "writing %zu bytes gave %zu", n, w);
        SIM_CHECK(!failed || !o.wr || f.disk_error || f.disk_size < 1 << 20, "write-failed", "a write to a healthy file failed");
        if (!failed) {
          uint64_t at = o.append ? data.size() : o.at->pos;
          if (data.size() < at + w) data.resize(at + w, 0);
          data.replace(at, w, b, 0, w);
          o.at->pos = at + w;
        }
        break;
      }
      default: {
        if (open.empty()) break;
        auto& o = open[sim::pick(OPS, (uint32_t)open.size())];
        auto& data = model[o.file].data;
        size_t n = some(), r = 0;
        std::string b(n + 8, '\x5a');
        bool failed = false, end = false;
        try {
          if (sim::chance(OPS, 1, 3)) {
            auto [d, t] = arpc::select(o.c.async_read(&b[0], n), arpc::timeout(ms(1)));
            r = *d;
          } else if (sim::chance(OPS, 1, 2)) r = o.c.maybe_read(&b[0], n);
          else r = o.c.read(&b[0], n);
        } catch (const arpc::errors::eof&) {
          end = true;
        } catch (const arpc::errors::io_error&) {
          failed = true;
        }
        bool more = o.at->pos < data.size();
        SIM_CHECK(failed || o.rd, "file-read", "reading from a file opened for writing only worked");
        SIM_CHECK(!failed || !o.rd || f.disk_error, "read-failed", "a read from a healthy file failed");
        if (failed) break;
        SIM_CHECK(end != more, "file-end", "end %d at byte %llu of %zu", end, (unsigned long long)o.at->pos, data.size());
        if (end) break;
        SIM_CHECK(r > 0 && r <= n && r <= data.size() - o.at->pos && data.compare(o.at->pos, r, b, 0, r) == 0 && b.compare(n, 8, "ZZZZZZZZ") == 0, "bytes-altered",
                  "read %zu bytes at %llu that are not those written", r, (unsigned long long)o.at->pos);
        o.at->pos += r;
      }
    }
  }
  if (sim::chance(OPS, 1, 2)) {   // several at once append whole pieces
    uint64_t from = model[0].data.size(), sum = 0;
    uint64_t wrote[3] = {0, 0, 0};
    if (model[0].exists) {
      {
        Crew crew;
        for (uint32_t k = 0; k < 3; k++) {
          crew.add([&, k] {
            try {
              auto c = arpc::file(names[0], arpc::open_mode::APPEND);
              for (int i = 1 + sim::pick(OPS, 6); i; i--) {
                std::string b = chunk(1000 + k, wrote[k], 1 + sim::pick(OPS, 30));
                wrote[k] += c.write(b.data(), b.size());
                if (sim::chance(OPS, 1, 3)) pause();
              }
            } catch (const arpc::errors::io_error&) {
              SIM_CHECK(f.disk_error || f.disk_size < 1 << 20, "write-failed", "appending to a healthy file failed");
            }
          });
        }
      }
      std::string now;
      SIM_CHECK(sim::file_get(names[0], &now), "file-lost", "the file is gone");
      for (auto w : wrote) sum += w;
      SIM_CHECK(now.size() == from + sum && now.compare(0, from, model[0].data) == 0, "bytes-lost", "%zu bytes in a file of %llu and %llu appended", now.size(), (unsigned long long)from, (unsigned long long)sum);
      // Whose piece comes next is told by its bytes; pieces may look alike at first, so keep all possibilities.
      std::set<std::array<uint64_t, 3>> may{{{0, 0, 0}}};
      for (uint64_t i = from; i < now.size(); i++) {
        std::set<std::array<uint64_t, 3>> next;
        for (auto a : may)
          for (uint32_t k = 0; k < 3; k++)
            if (a[k] < wrote[k] && pat(1000 + k, a[k]) == now[i]) { auto b = a; b[k]++; next.insert(b); }
        may.swap(next);
      }
      SIM_CHECK(!may.empty(), "bytes-altered", "an appended file holds something else than the pieces appended");
      model[0].data = now;
    }
  }
  for (int k = 0; k < 4; k++) {
    std::string now;
    bool there = sim::file_get(names[k], &now);
    SIM_CHECK(there == model[k].exists && now == model[k].data, "bytes-altered", "file %d holds %zu bytes instead of %zu", k, now.size(), model[k].data.size());
  }
  open.clear();
  SIM_CHECK(sim::open_fds() == before, "descriptor-leak", "%d descriptors open, %d before", sim::open_fds(), before);
}

namespace {
std::string raw(const arpc::address& a) {
  sim::Quiet q;
  return std::string((const char*)a.address_data(), a.address_size()) + char(a.family()) + char(a.socket_type());
}
void option(arpc::channel& c, int level, int opt, bool want, const char* what) {
  sim::Quiet q;
  int v = sim::sock_opt(c.get(), level, opt);
  SIM_CHECK((v != 0) == want, "wrong-option", "%s is %d, set to %d", what, v, want);
}
}  // namespace
// Both ends agree on who they are; options asked for are those the kernel has.
SIM_SCENARIO(A10, names_and_options, 2) {
  net_faults();
  {
    auto addr = *arpc::address_resolver::get().resolve(sim::chance(OPS, 1, 2) ? arpc::endpoint().port(900).ipv4().passive() : arpc::endpoint().port(900).ipv6().passive()).begin();
    arpc::channel l = arpc::socket(addr);
    l.make_non_blocking().reuse_addr().bind(addr).listen();
    auto target = *arpc::address_resolver::get().resolve(addr.family() == AF_INET ? arpc::endpoint().name("localhost").port(900).ipv4() : arpc::endpoint().name("localhost").port(900).ipv6()).begin();
    arpc::channel a = arpc::socket(target.family(), target.socket_type(), target.protocol()), b;
    a.make_non_blocking(sim::chance(OPS, 1, 2));
    arpc::address from;
    Crew crew;
    crew.add([&] { a.connect(target); });
    bool named = sim::chance(OPS, 1, 2);
    b = named ? l.accept(from) : l.accept();
    crew.join();
    SIM_CHECK(a && b, "no-connection", "connect or accept returned an empty channel");
    arpc::address an = a.own_addr(), ap = a.peer_addr(), bn = b.own_addr(), bp = b.peer_addr();
    SIM_CHECK(raw(an) == raw(bp), "wrong-name", "%s is called %s by its peer", an.as_string().c_str(), bp.as_string().c_str());
    SIM_CHECK(raw(ap) == raw(bn), "wrong-name", "%s is called %s by its peer", bn.as_string().c_str(), ap.as_string().c_str());
    SIM_CHECK(!named || (from.address_size() == bp.address_size() && !memcmp(from.address_data(), bp.address_data(), bp.address_size())), "wrong-name", "accept() says %s, peer_addr() %s", from.as_string().c_str(), bp.as_string().c_str());
    bool nb[2];
    for (int e = 0; e < 2; e++) nb[e] = (fcntl((e ? b : a).get(), F_GETFL) & O_NONBLOCK) != 0;
    bool want[2][5] = {};
    for (int i = sim::pick(OPS, 20); i; i--) {
      int e = sim::pick(OPS, 2);
      auto& c = e ? b : a;
      bool on = sim::chance(OPS, 1, 2);
      int secs = sim::pick(OPS, 100);
      switch (sim::pick(OPS, 6)) {
        case 5: c.make_non_blocking(on); nb[e] = on; break;
        case 0: c.keep_alive(on); want[e][0] = on; break;
        case 1: c.reuse_addr(on); want[e][1] = on; break;
        case 2: c.reuse_port(on); want[e][2] = on; break;
        case 3: c.no_delay(on); want[e][3] = on; break;
        default:
          c.linger(on, std::chrono::seconds(secs));
          want[e][4] = on;
          SIM_CHECK(sim::sock_opt(c.get(), SOL_SOCKET, SO_LINGER, 4) == secs, "wrong-option", "lingering for %d s instead of %d", sim::sock_opt(c.get(), SOL_SOCKET, SO_LINGER, 4), secs);
      }
      for (e = 0; e < 2; e++) {
        auto& x = e ? b : a;
        option(x, SOL_SOCKET, SO_KEEPALIVE, want[e][0], "keep_alive");
        option(x, SOL_SOCKET, SO_REUSEADDR, want[e][1], "reuse_addr");
        option(x, SOL_SOCKET, SO_REUSEPORT, want[e][2], "reuse_port");
        option(x, IPPROTO_TCP, TCP_NODELAY, want[e][3], "no_delay");
        option(x, SOL_SOCKET, SO_LINGER, want[e][4], "linger");
        SIM_CHECK(((fcntl(x.get(), F_GETFL) & O_NONBLOCK) != 0) == nb[e], "wrong-option", "the channel is %sblocking, which is not what was asked for", nb[e] ? "" : "non-");
      }
    }
    // Shutting down one direction leaves the other alone.
    if (sim::faults().conn_reset == 0) {
      auto passes = [](arpc::channel& f, arpc::channel& t) {
        char x = 'q', y = 0;
        SIM_CHECK(f.write(&x, 1) == 1, "write-failed", "-");
        SIM_CHECK(t.read(&y, 1) == 1 && y == x, "bytes-altered", "-");
      };
      auto ended = [](arpc::channel& t) {
        char y;
        bool over = false;
        try { t.read(&y, 1); } catch (const arpc::errors::eof&) { over = true; }
        SIM_CHECK(over, "not-shut-down", "a direction that was shut down still gives bytes");
      };
      a.make_non_blocking();
      b.make_non_blocking();
      a.shutdown(false, false);
      passes(a, b);
      passes(b, a);
      switch (sim::pick(OPS, 3)) {
        case 0: a.shutdown(false, true); ended(b); passes(b, a); break;
        case 1: a.shutdown(true, false); passes(a, b); ended(a); break;
        default: a.shutdown(true, true); ended(a); ended(b);
      }
    }
  }
  SIM_CHECK(sim::open_sockets() == 0, "descriptor-leak", "%d sockets still open", sim::open_sockets());
}

// Descriptor ownership against a model: each live channel owns one descriptor.
SIM_SCENARIO(A10, ownership, 4) {
  local_faults();
  int before = descriptors();
  if (sim::chance(CFG, 1, 3)) sim::faults().fd_exhaust = 100000;
  {
    const int N = 6;
    arpc::channel ch[N];
    int own[N];              // model: descriptor owned by slot, -1 none
    for (auto& o : own) o = -1;
    std::vector<int> loose;  // released: ours to close
    int ops = sim::range(OPS, 5, 60);
    for (int k = 0; k < ops; k++) {
      int i = sim::pick(OPS, N), j = sim::pick(OPS, N);
      try {
        switch (sim::pick(OPS, 10)) {
          case 0: {
            arpc::channel p[2];
            arpc::pipe(p);
            int x = *p[0], y = p[1].get();
            ch[i] = std::move(p[0]);
            own[i] = x;
            if (i != j) { p[1].swap(ch[j]); own[j] = y; }
            break;
          }
          case 1: ch[i] = std::move(ch[j]); if (i != j) { own[i] = own[j]; own[j] = -1; } break;
          case 2: ch[i].swap(ch[j]); std::swap(own[i], own[j]); break;
          case 3: ch[i].reset(); own[i] = -1; break;
          case 4: ch[i].close(); own[i] = -1; break;
          case 5: { int fd = ch[i].release(); SIM_CHECK(fd == own[i], "wrong-descriptor", "released %d, owned %d", fd, own[i]); if (fd >= 0) loose.push_back(fd); own[i] = -1; break; }
          case 6: if (own[j] >= 0) { auto d = ch[j].dup(); SIM_CHECK(d && *d != own[j], "wrong-descriptor", "dup returned the same descriptor"); int fd = *d; ch[i] = std::move(d); own[i] = fd; } break;
          case 7: { arpc::channel t(std::move(ch[i])); SIM_CHECK(*t == own[i] && !ch[i], "wrong-descriptor", "moved %d, owned %d", *t, own[i]); own[i] = -1; break; }
          case 8: if (!loose.empty()) { int fd = loose.back(); loose.pop_back(); ch[i].reset(fd); own[i] = fd; } break;
          default: { auto s = arpc::socket(AF_INET, SOCK_STREAM, 0); int fd = *s; s.make_non_blocking(); ch[i] = std::move(s); own[i] = fd; break; }
        }
      } catch (const arpc::errors::io_error&) {
        sim::probe("out-of-descriptors");
        SIM_CHECK(sim::faults().fd_exhaust, "io-error", "descriptor creation failed");
      }
      int live = (int)loose.size();
      for (int a = 0; a < N; a++) {
        SIM_CHECK(ch[a].get() == own[a] && (bool)ch[a] == (own[a] >= 0), "wrong-descriptor", "channel %d holds %d, should hold %d", a, ch[a].get(), own[a]);
        live += own[a] >= 0;
      }
      SIM_CHECK(sim::open_fds() - before == live, "descriptor-leak", "%d descriptors open, %d owned", sim::open_fds() - before, live);
    }
    for (int fd : loose) arpc::channel c(fd);
  }
  SIM_CHECK(sim::open_fds() == before, "descriptor-leak", "%d descriptors open, %d before", sim::open_fds(), before);
}

namespace {
// Whole reads through a connection.  Returns the bytes read.
uint64_t drain(arpc::connection& c, uint32_t s, uint64_t known_total, bool exact, bool avail, End* end) {
  uint64_t got = 0;
  while (true) {
    size_t n = some();
    std::string b(n + 8, '\x5a');
    try {
      switch (sim::pick(OPS, 4)) {
        case 0: case 1: {
          if (exact && known_total - got < n) n = std::max<uint64_t>(1, known_total - got);
          size_t r = c.read(&b[0], n);
          SIM_CHECK(r <= n, "over-read", "read of %zu returned %zu", n, r);
          verify(s, got, b.data(), r, "connection");
          got += r;
          if (r < n) { *end = CLOSED; return got; }
          break;
        }
        case 2: {
          char x = c.getc();
          verify(s, got, &x, 1, "connection");
          got++;
          break;
        }
        default: {
          if (!avail) break;
          auto [d, t] = arpc::select(c.data_available(), arpc::timeout(ms(20)));
          (void)d;
        }
      }
      SIM_CHECK(b.compare(b.size() - 8, 8, "ZZZZZZZZ") == 0, "overrun", "a read wrote past its buffer");
    } catch (const arpc::errors::eof&) {
      *end = CLOSED;
      return got;
    } catch (const arpc::errors::io_error&) {
      *end = BROKEN;
      return got;
    }
    if (sim::chance(OPS, 1, 4)) pause();
  }
}
uint64_t pour(arpc::connection& c, uint32_t s, uint64_t total, bool* broken) {
  uint64_t done = 0;
  while (done < total) {
    size_t n = std::min<uint64_t>(some(), total - done);
    std::string b = chunk(s, done, n);
    try {
      if (sim::chance(OPS, 1, 4)) { c.putc(b[0]); n = 1; }
      else c.write(b.data(), n);
      if (sim::chance(OPS, 1, 4)) c.flush();
      done += n;
    } catch (const arpc::errors::io_error&) {
      *broken = true;
      return done;
    }
    if (sim::chance(OPS, 1, 4)) pause();
  }
  return done;
}
}  // namespace

// Connections in both directions; optionally somebody disconnects meanwhile.
SIM_SCENARIO(A10, connection, 10) {
  net_faults();
  bool resets = sim::chance(CFG, 1, 5);
  if (resets) sim::faults().conn_reset = 3000;
  int hangups = sim::chance(OPS, 1, 2) ? sim::range(OPS, 1, 3) : 0;
  {
    Pair p = socket_pair(700);
    arpc::channel_connection a(std::move(p.a)), b(std::move(p.b));
    SIM_CHECK(!p.a && !p.b, "wrong-descriptor", "the connection did not take the channel");
    arpc::connection* c[2] = {&a, &b};
    SIM_CHECK(a.connected() && b.connected(), "not-connected", "a fresh connection is not connected");
    uint64_t total[2] = {sim::pick(OPS, 8000), sim::pick(OPS, 8000)}, wrote[2] = {0, 0}, got[2] = {0, 0};
    bool broken[2] = {false, false};
    End end[2];
    std::mutex m;
    std::condition_variable cv;
    int wdone = 0;
    Crew crew;
    for (int k = 0; k < 2; k++) {
      crew.add([&, k] {
        wrote[k] = pour(*c[k], k, total[k], &broken[k]);
        std::scoped_lock l(m);
        wdone++;
        cv.notify_all();
      });
      crew.add([&, k] { got[k] = drain(*c[1 - k], k, total[k], true, false, &end[k]); });
    }
    if (hangups) {
      for (int h = 0; h < hangups; h++)
        crew.add([&] {
          pause();
          pause();
          int k = sim::pick(OPS, 2);
          c[k]->disconnect();
          SIM_CHECK(!c[k]->connected(), "still-connected", "connected() after disconnect()");
          try {
            c[k]->write("x", 1);
            SIM_CHECK(false, "write-after-disconnect", "a write succeeded after disconnect()");
          } catch (const arpc::errors::io_error&) {
          }
          try {
            char x;
            c[k]->read(&x, 1);
            SIM_CHECK(false, "read-after-disconnect", "a read succeeded after disconnect()");
          } catch (const arpc::errors::io_error&) {
          }
          // The other side learns of it.
        });
    } else {
      crew.add([&] {
        // Both writers done: hang up only once the peer has everything.
        { std::unique_lock l(m); cv.wait(l, [&] { return wdone == 2; }); }
        if (resets) { sim::sleep_ms(2000); a.disconnect(); b.disconnect(); return; }
        for (int k = 0; k < 5000 ; k++) {
          bool all;
          { sim::Quiet q; all = got[0] == total[0] && got[1] == total[1]; }
          if (all) break;
          sim::sleep_ms(20);
        }
        a.disconnect();
        b.disconnect();
      });
    }
    crew.join();
    for (int k = 0; k < 2; k++) {
      SIM_CHECK(got[k] <= wrote[k] + 3000 + 1, "bytes-made-up", "more bytes read than written");
      if (!hangups && !resets) SIM_CHECK(got[k] == total[k] && !broken[k], "bytes-lost", "%llu of %llu bytes read", (unsigned long long)got[k], (unsigned long long)total[k]);
      SIM_CHECK(end[k] != CLOSED || got[k] >= wrote[k] || hangups || resets, "bytes-lost", "clean end after %llu of %llu", (unsigned long long)got[k], (unsigned long long)wrote[k]);
    }
  }
  SIM_CHECK(sim::open_sockets() == 0, "descriptor-leak", "%d sockets still open", sim::open_sockets());
}

// Blocks larger than what the system takes at once.
SIM_SCENARIO(A10, blocks, 1) {
  auto& f = sim::faults();
  f.lat_min_us = f.lat_max_us = 20;
  static const uint32_t cap[] = {65536, 4096, 70000, 300000, 1000000};
  f.sndbuf = cap[sim::pick(CFG, 5)];
  f.rcvbuf = cap[sim::pick(CFG, 5)];
  if (sim::chance(CFG, 1, 2)) f.short_write = 300000;
  if (sim::chance(CFG, 1, 2)) f.short_read = 300000;
  if (sim::chance(CFG, 1, 3)) f.eintr = 100000;
  int n = sim::range(OPS, 1, 3);
  std::vector<size_t> size;
  for (int k = 0; k < n; k++) size.push_back(1 + sim::pick(OPS, sim::chance(OPS, 1, 6) ? 1200000 : 200000));
  {
    Pair p = socket_pair(700);
    arpc::channel_connection a(std::move(p.a)), b(std::move(p.b));
    Crew crew;
    crew.add([&] {
      uint64_t at = 0;
      for (auto s : size) { auto d = chunk(3, at, s); a.write(d.data(), d.size()); at += s; }
      a.flush();
    });
    crew.add([&] {
      uint64_t at = 0;
      for (auto s : size) {
        std::string d(s, 0);
        SIM_CHECK(b.read(&d[0], s) == s, "bytes-lost", "a block came short");
        verify(3, at, d.data(), s, "block");
        at += s;
      }
    });
    crew.join();
    for (auto s : size) if (s > 65536) sim::probe("block-over-64k");
  }
  SIM_CHECK(sim::open_sockets() == 0, "descriptor-leak", "%d sockets still open", sim::open_sockets());
}

// The peer sends everything and hangs up: whoever reads gets every byte, then the end.
SIM_SCENARIO(A10, last_bytes, 6) {
  net_faults();
  {
    Pair p = socket_pair(700);
    arpc::channel_connection a(std::move(p.a));
    auto b = std::make_unique<arpc::channel_connection>(std::move(p.b));
    uint64_t total = sim::pick(OPS, 3000), got = 0;
    End end = STOPPED;
    Crew crew;
    crew.add([&] {
      bool broken = false;
      uint64_t w = pour(*b, 3, total, &broken);
      SIM_CHECK(w == total, "write-failed", "%llu of %llu written", (unsigned long long)w, (unsigned long long)total);
      if (sim::chance(OPS, 1, 2)) b->disconnect();
      b.reset();
    });
    crew.add([&] { got = drain(a, 3, 0, false, true, &end); });
    crew.join();
    SIM_CHECK(end == CLOSED && got == total, "bytes-lost", "%llu of %llu bytes read before the end (%d)", (unsigned long long)got, (unsigned long long)total, end);
  }
  SIM_CHECK(sim::open_sockets() == 0, "descriptor-leak", "%d sockets still open", sim::open_sockets());
}

// Serial devices.
SIM_SCENARIO(A10, device, 3) {
  net_faults();
  sim::device_link("/dev/ttyA", "/dev/ttyB");
  int before = descriptors();
  {
    arpc::char_dev_connection a("/dev/ttyA"), b("/dev/ttyB");
    uint64_t total[2] = {sim::pick(OPS, 3000), sim::pick(OPS, 3000)};
    Crew crew;
    arpc::connection* c[2] = {&a, &b};
    for (int k = 0; k < 2; k++) {
      crew.add([&, k] { bool broken = false; SIM_CHECK(pour(*c[k], k, total[k], &broken) == total[k], "write-failed", "write to a device failed"); });
      crew.add([&, k] {
        std::string s(total[k], 0);
        size_t r = 0;
        while (r < s.size()) {
          size_t n = std::min(some(), s.size() - r);
          c[1 - k]->read_fully(&s[r], n);
          r += n;
        }
        verify(k, 0, s.data(), s.size(), "device");
      });
    }
    crew.join();
    try {
      arpc::char_dev_connection none("/dev/none");
      SIM_CHECK(false, "opened-nothing", "opened a device that does not exist");
    } catch (const arpc::errors::io_error&) {
    }
  }
  SIM_CHECK(sim::open_fds() - before <= 0, "descriptor-leak", "%d descriptors open, %d before", sim::open_fds(), before);
}

namespace {
// A connection that notices by itself that it is over, as connected() allows.
class watchful_connection : public arpc::client_socket_connection {
 public:
  using client_socket_connection::client_socket_connection;
  bool connected() override { return !dead_ && client_socket_connection::connected(); }
  std::size_t read(char* d, std::size_t n) override {
    try {
      auto r = client_socket_connection::read(d, n);
      if (r < n) dead_ = true;
      return r;
    } catch (...) {
      dead_ = true;
      throw;
    }
  }
  void write(const char* d, std::size_t n) override {
    try {
      client_socket_connection::write(d, n);
    } catch (...) {
      dead_ = true;
      throw;
    }
  }
 private:
  std::atomic<bool> dead_{false};
};

template <typename Conn>
void reconnecting(bool self_aware) {
  net_faults();
  sim::faults().spurious_ready = 0;   // data_available() would lie to this scenario's server
  int sessions = sim::range(OPS, 1, 5);
  bool meddler = sim::chance(OPS, 1, 2);
  bool refuse_first = sim::chance(OPS, 1, 4);
  sim::sample("sessions=%d meddler=%d ", sessions, meddler);
  std::atomic<bool> stop{false};
  std::atomic<int> accepted{0};
  Crew crew;
  arpc::flag ready;
  arpc::context server_ctx;
  auto server = [&] {
    arpc::context ctx(server_ctx);
    try {
      if (refuse_first) sim::sleep_ms(3);
      arpc::listener l(arpc::endpoint().port(700));
      ready.set();
      std::vector<std::thread> ts;
      try {
        while (!stop) {
          auto ch = l.accept();
          int id = ++accepted;
          ts.emplace_back([&, id, ch = std::move(ch)]() mutable {
            arpc::context c2(server_ctx);
            // What this connection sends is its own stream; what it gets must be one too.
            arpc::channel_connection c(std::move(ch));
            try {
              char tag[2];
              c.read_fully(tag, 2);
              uint64_t r = 0, w = 0;
              uint64_t budget = sim::chance(OPS, 1, 3) ? sim::pick(OPS, 400) : 5000;
              c.write((const char*)&id, sizeof id);
              while (w < budget) {
                size_t n = std::min<uint64_t>(some(), budget - w);
                auto b = chunk(1000 + id, w, n);
                c.write(b.data(), n);
                w += n;
                auto [d, t] = arpc::select(c.data_available(), arpc::timeout(ms(sim::pick(OPS, 2))));
                if (d) {
                  char x = c.getc();
                  SIM_CHECK(x == pat((uint8_t)tag[1], r), "bytes-mixed", "byte %llu of session %d is from elsewhere", (unsigned long long)r, tag[1]);
                  r++;
                }
              }
              if (budget == 5000) {   // more than anybody wants: stay until the client goes
                while (true) {
                  char x = c.getc();
                  SIM_CHECK(x == pat((uint8_t)tag[1], r), "bytes-mixed", "byte %llu of session %d is from elsewhere", (unsigned long long)r, tag[1]);
                  r++;
                }
              }
            } catch (const arpc::errors::base_error&) {
            }
          });
        }
      } catch (const arpc::errors::cancelled&) {
      }
      for (auto& t : ts) t.join();
    } catch (const arpc::errors::cancelled&) {
    }
  };
  std::thread st(server);
  {
    arpc::reconnectable_connection<Conn> c(arpc::endpoint().name("localhost").port(700));
    SIM_CHECK(!c.connected(), "connected-early", "connected before connect()");
    try {
      c.write("x", 1);
      SIM_CHECK(false, "write-unconnected", "wrote to no connection");
    } catch (const arpc::errors::io_error&) {
    }
    std::atomic<bool> over{false};
    std::thread med([&] {
      if (!meddler) return;
      while (!over) {
        sim::sleep_us(200 + sim::pick(OPS, 20000));
        if (over) break;
        if (sim::chance(OPS, 1, 2)) c.disconnect();
        else sim::net_reset_all(-1);
      }
    });
    bool heal = false;
    for (int s = 1; s <= sessions; s++) {
      // Connects again after whatever happened before.
      int tries = 0;
      while (true) {
        try {
          c.connect();
          SIM_CHECK(meddler || c.connected(), "not-connected", "connect() returned, and connected() is false");
          break;
        } catch (const arpc::errors::io_error&) {
          sim::sleep_ms(2);
          SIM_CHECK(++tries < 3000, "never-reconnects", "3000 attempts to connect failed");
        }
      }
      try {
        char tag[2] = {'t', (char)s};
        c.write(tag, 2);
        int id = 0;
        c.read_fully((char*)&id, sizeof id);
        uint64_t r = 0, w = 0, want = sim::pick(OPS, 1500);
        while (r < want) {
          size_t n = some();
          std::string b(n, 0);
          if (sim::chance(OPS, 1, 3)) {
            auto [d, t] = arpc::select(c.data_available(), arpc::timeout(ms(sim::pick(OPS, 30))));
            sim::probe(d ? "data-available" : "no-data-yet");
          }
          size_t k = c.read(&b[0], n);
          // A meddler may disconnect, but only this thread connects, so the
          // session cannot change under a read.
          verify(1000 + id, r, b.data(), k, "session");
          r += k;
          if (k < n) throw arpc::errors::eof("end");
          if (w < 4 && sim::chance(OPS, 1, 2)) { auto o = chunk((uint8_t)tag[1], w, 1); c.write(o.data(), 1); w++; }
        }
        sim::probe("session-completed");
        if (sim::chance(OPS, 1, 2)) { c.disconnect(); SIM_CHECK(!c.connected(), "still-connected", "connected() after disconnect()"); }
        else if (!meddler) {
          SIM_CHECK(c.connected(), "not-connected", "connected() is false on a working connection");
          c.disconnect();
        } else c.disconnect();
      } catch (const arpc::errors::base_error& e) {
        sim::note("session %d: %s", s, e.what());
        SIM_CHECK(!self_aware || !c.connected(), "still-connected", "connected() although the connection knows that it is over");
        if (!self_aware) c.disconnect();   // as the library's client does on any error
      }
      if (sim::chance(OPS, 1, 2)) pause();
    }
    (void)heal;
    over = true;
    med.join();
  }
  ready.wait();
  stop = true;
  server_ctx.cancel();
  st.join();
  SIM_CHECK(sim::open_sockets() == 0, "descriptor-leak", "%d sockets still open", sim::open_sockets());
}
}  // namespace

SIM_SCENARIO(A10, reconnect, 8) { reconnecting<arpc::client_socket_connection>(false); }
SIM_SCENARIO(A10, reconnect_aware, 4) { reconnecting<watchful_connection>(true); }

// Disconnecting interrupts whoever is blocked on the connection.
SIM_SCENARIO(A10, disconnect_interrupts, 4) {
  net_faults();
  {
    arpc::listener l(arpc::endpoint().port(700));
    arpc::reconnectable_connection<arpc::client_socket_connection> c(arpc::endpoint().name("localhost").port(700));
    bool reader = sim::chance(OPS, 2, 3), writer = sim::chance(OPS, 1, 2), waiter = sim::chance(OPS, 1, 2);
    sim::faults().sndbuf = 500;
    c.connect();
    auto peer = l.accept();
    int told = 0, want = reader + writer + waiter;
    Crew crew;
    if (waiter) crew.add([&] {
      bool timed = sim::chance(OPS, 1, 3);
      try {
        auto available = c.data_available();
        if (timed) { auto [a, t] = arpc::select(available, arpc::timeout(std::chrono::hours(1)));
          SIM_CHECK(a, "not-interrupted", "waited an hour for data on a connection that was cut"); }
        else { auto [a] = arpc::select(available); *a; }
      } catch (const arpc::errors::io_error&) { sim::Quiet q; told++; return; }
      char x;
      try { c.read_fully(&x, 1); SIM_CHECK(false, "bytes-made-up", "read something nobody sent"); }
      catch (const arpc::errors::io_error&) { sim::Quiet q; told++; }
      catch (const arpc::errors::eof&) { sim::Quiet q; told++; }
    });
    if (reader) crew.add([&] {
      try { char x; c.read_fully(&x, 1); SIM_CHECK(false, "bytes-made-up", "read something nobody sent"); }
      catch (const arpc::errors::io_error&) { sim::Quiet q; told++; }
      catch (const arpc::errors::eof&) { sim::Quiet q; told++; }
    });
    if (writer) crew.add([&] {
      std::string s(5000, 'x');
      try { c.write(s.data(), s.size()); SIM_CHECK(false, "over-write", "wrote more than fits"); }
      catch (const arpc::errors::io_error&) { sim::Quiet q; told++; }
    });
    for (int i = sim::range(OPS, 1, 2); i; i--) crew.add([&] { pause(); c.disconnect(); });
    crew.join();
    sim::Quiet q;
    SIM_CHECK(told == want, "not-interrupted", "%d of %d users were told", told, want);
  }
  SIM_CHECK(sim::open_sockets() == 0, "descriptor-leak", "%d sockets still open", sim::open_sockets());
}
