#include <string.h>
#include <atomic>
#include <set>
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include "arpc/address_resolver.h"
#include "arpc/socket.h"
#include "common.h"
using namespace sc;

namespace {
struct Host { uint32_t ip; bool v6; int behaviour; };
struct Name {
  std::string name;
  std::vector<Host> hosts;
  int64_t delay_ms = 0;
  int fail = 0;
};
uint32_t ip_of(const arpc::address& a, bool* v6, int* port) {
  uint32_t x;
  if (a.address_data()->sa_family == AF_INET6) {
    auto* s = (const sockaddr_in6*)a.address_data();
    *v6 = true;
    *port = ntohs(s->sin6_port);
    memcpy(&x, &s->sin6_addr.s6_addr[12], 4);
  } else {
    auto* s = (const sockaddr_in*)a.address_data();
    *v6 = false;
    *port = ntohs(s->sin_port);
    memcpy(&x, &s->sin_addr, 4);
  }
  return ntohl(x);
}
Name make_name(int k, int max_hosts, bool behave) {
  Name n;
  n.name = "host" + std::to_string(k);
  int c = sim::range(OPS, 1, max_hosts);
  for (int i = 0; i < c; i++) {
    Host h{0x0a640000u + k * 256 + i + 1, sim::chance(OPS, 1, 3), 0};
    if (behave) h.behaviour = sim::weighted(OPS, {3, 3, 2, 2});
    if (h.behaviour == 3) h.behaviour = 10 + sim::pick(OPS, sim::chance(OPS, 1, 3) ? 3000 : 600);
    n.hosts.push_back(h);
  }
  return n;
}
void publish(const Name& n, int node) {
  std::vector<sim::HostAddr> v;
  for (auto& h : n.hosts) { v.push_back({h.ip, h.v6, h.behaviour}); sim::host_set(h.ip, node); }
  sim::dns_set(n.name.c_str(), v, n.delay_ms * 1000000, n.fail);
}
void check_list(const Name& n, int family, int port, const arpc::address_list& l) {
  std::vector<Host> want;
  for (auto& h : n.hosts)
    if (family == AF_UNSPEC || (family == AF_INET6) == h.v6) want.push_back(h);
  SIM_CHECK(l.size() == want.size() && l.empty() == want.empty(), "wrong-answer", "%zu addresses for %s, should be %zu", l.size(), n.name.c_str(), want.size());
  size_t i = 0;
  for (auto it = l.begin(); it != l.end(); ++it, ++i) {
    bool v6; int p;
    uint32_t ip = ip_of(*it, &v6, &p);
    SIM_CHECK(ip == want[i].ip && v6 == want[i].v6 && p == port, "wrong-answer", "%s resolved to the address of something else: %x port %d, expected %x port %d", n.name.c_str(), ip, p, want[i].ip, port);
    SIM_CHECK(it->family() == (v6 ? AF_INET6 : AF_INET) && it->socket_type() == SOCK_STREAM, "wrong-answer", "family %d type %d", it->family(), it->socket_type());
    // Copies and moves stand on their own.
    arpc::address c(*it);
    arpc::address m(std::move(c));
    SIM_CHECK(ip_of(m, &v6, &p) == ip && m.address_size() == it->address_size() && m.family() == it->family(), "wrong-copy", "a copied address differs");
    std::string s = m.as_string();
    SIM_CHECK(s.size() > 3 && s.substr(s.rfind(':') + 1) == std::to_string(port), "wrong-text", "address prints as %s", s.c_str());
  }
}
}  // namespace

// Many threads resolve different names at once.
SIM_SCENARIO(A11, resolve, 8) {
  local_faults();
  int nn = sim::range(OPS, 1, 4), nt = sim::range(OPS, 1, 5);
  bool calm_clock = sim::faults().stall == 0;
  std::vector<Name> names;
  for (int k = 0; k < nn; k++) {
    Name n = make_name(k, 4, false);
    if (sim::chance(OPS, 1, 3)) n.delay_ms = 1 + sim::pick(OPS, 300);
    if (sim::chance(OPS, 1, 4)) n.fail = sim::chance(OPS, 1, 2) ? EAI_NONAME : EAI_AGAIN;
    publish(n, 0);
    names.push_back(n);
  }
  int64_t worst = 0;
  for (auto& n : names) worst += n.delay_ms;
  CancelHub hub;
  Crew crew;
  for (int t = 0; t < nt; t++)
    crew.add([&] {
      for (int j = sim::range(OPS, 1, 4); j; j--) {
        auto& n = names[sim::pick(OPS, nn)];
        int port = 1 + sim::pick(OPS, 65535), family = AF_UNSPEC;
        arpc::endpoint e;
        e.name(n.name).port(port);
        if (sim::chance(OPS, 1, 5)) { e.ipv4(); family = AF_INET; }
        else if (sim::chance(OPS, 1, 5)) { e.ipv6(); family = AF_INET6; }
        bool any = family == AF_UNSPEC;
        for (auto& h : n.hosts) any |= (family == AF_INET6) == h.v6;
        int how = sim::pick(OPS, 4);
        int64_t t0 = sim::now_ns(), dl = -1;
        auto run = [&] {
          arpc::address_list l = how == 1 ? arpc::address_resolver::get().async_resolve(e).get()
                                          : sim::chance(OPS, 1, 2) ? arpc::address_resolver::get().resolve(e) : arpc::address_resolver::get().resolve(arpc::endpoint(e));
          SIM_CHECK(!n.fail && any, "resolved-nothing", "%s cannot be resolved and was", n.name.c_str());
          check_list(n, family, port, l);
          sim::probe("resolved");
        };
        try {
          if (how == 2) {
            Scope sc(hub);
            int ms_left = sim::pick(OPS, 200);
            sc.ctx.set_timeout(ms(ms_left));
            dl = ms_left * 1000000LL;
            run();
          } else if (how == 3) {
            // Abandon the answer, or look at it in a select.
            auto f = arpc::address_resolver::get().async_resolve(e);
            if (sim::chance(OPS, 1, 2)) {
              auto [r, to] = arpc::select(f.async_get(), arpc::timeout(ms(sim::pick(OPS, 400))));
              if (r) { auto l = std::move(*r); SIM_CHECK(!n.fail && any, "resolved-nothing", "-"); check_list(n, family, port, l); }
            }
          } else {
            run();
          }
        } catch (const arpc::errors::io_error& x) {
          SIM_CHECK(n.fail || !any, "resolve-failed", "%s exists; resolving it failed: %s", n.name.c_str(), x.what());
          sim::probe("resolve-failed");
        } catch (const arpc::errors::deadline_exceeded&) {
          int64_t took = sim::now_ns() - t0;
          SIM_CHECK(dl >= 0 && took >= dl - 2000000, "early-deadline", "deadline error after %lld us of %lld", (long long)took / 1000, (long long)dl / 1000);
          SIM_CHECK(!calm_clock || took <= dl + 30000000, "late-deadline", "deadline error after %lld us of %lld", (long long)took / 1000, (long long)dl / 1000);
        } catch (const arpc::errors::cancelled&) {
          SIM_CHECK(dl >= 0, "cancelled", "cancelled without anybody cancelling");
        }
      }
    });
  crew.add([&] { for (int j = sim::pick(OPS, 5); j; j--) { sim::sleep_ms(sim::pick(OPS, 50)); hub.cancel_one(); } });
}

// More questions at once than the resolver keeps waiting.
SIM_SCENARIO(A11, crowd, 4) {
  local_faults();
  int nn = sim::range(OPS, 1, 4), nt = sim::range(OPS, 1, 3), per = sim::range(OPS, 3, 24);
  std::vector<Name> names;
  for (int k = 0; k < nn; k++) {
    Name n = make_name(k, 3, false);
    if (sim::chance(OPS, 1, 2)) n.delay_ms = 1 + sim::pick(OPS, 40);
    if (sim::chance(OPS, 1, 5)) n.fail = sim::chance(OPS, 1, 2) ? EAI_NONAME : EAI_AGAIN;
    publish(n, 0);
    names.push_back(n);
  }
  sim::sample("threads=%d questions=%d ", nt, nt * per);
  Crew crew;
  for (int t = 0; t < nt; t++)
    crew.add([&] {
      struct Asked { int name, port; arpc::future<arpc::address_list> answer; };
      std::vector<Asked> asked;
      int given_up = 0;
      for (int j = 0; j < per; j++) {
        int k = sim::pick(OPS, nn), port = 1 + sim::pick(OPS, 65535);
        arpc::endpoint e;
        e.name(names[k].name).port(port);
        // Asking may itself have to wait for room, and be given up.
        arpc::context c;
        bool hurry = sim::chance(OPS, 1, 8);
        if (hurry) c.set_timeout(ms(sim::pick(OPS, 20)));
        auto r = outcome([&] {
          asked.push_back({k, port, sim::chance(OPS, 1, 2) ? arpc::address_resolver::get().async_resolve(e) : arpc::address_resolver::get().async_resolve(std::move(e))});
          return true;
        });
        SIM_CHECK(r == DONE || (hurry && r == LATE), "resolve-outcome", "asking ended with outcome %d", r);
        if (r != DONE) { given_up++; sim::probe("no-room"); }
      }
      SIM_CHECK((int)asked.size() + given_up == per, "resolve-outcome", "-");
      while (!asked.empty()) {
        int i = sim::chance(OPS, 1, 2) ? 0 : sim::pick(OPS, (uint32_t)asked.size());
        auto& n = names[asked[i].name];
        bool failed = false;
        try {
          auto l = asked[i].answer.get();
          SIM_CHECK(!n.fail, "resolved-nothing", "%s cannot be resolved and was", n.name.c_str());
          check_list(n, AF_UNSPEC, asked[i].port, l);
          sim::probe("resolved");
        } catch (const arpc::errors::io_error& x) {
          failed = true;
        }
        SIM_CHECK(failed == (n.fail != 0), "resolve-failed", "%s %s; resolving it %s", n.name.c_str(), n.fail ? "does not exist" : "exists", failed ? "failed" : "succeeded");
        asked.erase(asked.begin() + i);
      }
    });
}

// Dial names whose addresses accept, refuse or stay silent.
SIM_SCENARIO(A11, dial, 10) {
  local_faults();
  sim::faults().stall = 0;
  static const uint32_t lat[] = {50, 500, 3000};
  sim::faults().lat_min_us = sim::faults().lat_max_us = lat[sim::pick(CFG, 3)];
  bool fdx = sim::chance(CFG, 1, 6);
  const int SRV = 1, PORT = 700;
  bool no_v6 = sim::chance(CFG, 1, 4);
  if (no_v6) sim::faults().no_v6_node = 0;
  int nn = sim::range(OPS, 1, 3);
  std::vector<Name> names;
  int64_t slowest = 0;
  for (int k = 0; k < nn; k++) {
    Name n = make_name(k, 4, true);
    if (sim::chance(OPS, 1, 5)) n.delay_ms = 1 + sim::pick(OPS, 50);
    if (sim::chance(OPS, 1, 8)) n.fail = EAI_NONAME;
    publish(n, SRV);
    names.push_back(n);
    slowest = std::max(slowest, n.delay_ms);
  }
  arpc::context server_ctx;
  arpc::flag up, stop;
  std::thread srv([&] {
    sim::set_node(SRV);
    arpc::context ctx(server_ctx);
    try {
      arpc::listener l(arpc::endpoint().port(PORT));
      up.set();
      std::vector<arpc::channel> keep;
      while (true) {
        auto c = l.accept();
        try { c.write("!", 1); } catch (const arpc::errors::io_error&) {}   // gave up meanwhile
        keep.push_back(std::move(c));
      }
    } catch (const arpc::errors::cancelled&) {
    }
  });
  up.wait();
  CancelHub hub;
  {
    Crew crew;
    int nt = fdx ? 1 : sim::range(OPS, 1, 3);
    for (int t = 0; t < nt; t++)
      crew.add([&, nt] {
        arpc::select(arpc::timeout(ms(0)));
        for (int j = sim::range(OPS, 1, 3); j; j--) {
          auto& n = names[sim::pick(OPS, nn)];
          int mode = sim::pick(OPS, 3);   // plain, deadline, deadline with cancellation
          int64_t t0 = sim::now_ns(), dl = -1;
          int d = 200 + sim::pick(OPS, 3000);
          bool cancellable = mode == 2;
          // Who answers within an equal share of the time is reached, unless someone before is.
          // (One thread resolves for all.)
          int64_t share = mode ? (d - nt * slowest - 40) / (int64_t)n.hosts.size() : 1000000;
          int first_ok = -1, silent = 0, maybe = 0;
          for (size_t i = 0; i < n.hosts.size(); i++) {
            auto& h = n.hosts[i];
            if (first_ok >= 0 || (h.v6 && no_v6) || h.behaviour == 1) continue;
            if (h.behaviour == 0 ? share > 10 : h.behaviour >= 10 && h.behaviour - 10 < share) first_ok = i;
            else if (h.behaviour == 2) silent++;
            else maybe++;
          }
          try {
            arpc::channel c;
            auto go = [&] {
              arpc::endpoint e;
              e.name(n.name).port(PORT);
              struct Scarce {   // descriptors run out, but only while dialing
                bool on;
                explicit Scarce(bool b) : on(b) { if (on) sim::faults().fd_exhaust = 100000; }
                ~Scarce() { if (on) sim::faults().fd_exhaust = 0; }
              } scarce(fdx);
              c = sim::chance(OPS, 1, 5) && mode == 0 ? arpc::dial(e, false) : arpc::dial(e);
            };
            if (mode == 0) {
              go();
            } else {
              std::unique_ptr<Scope> sc;
              std::unique_ptr<arpc::context> own;
              dl = d * 1000000LL;
              if (cancellable) { sc = std::make_unique<Scope>(hub); sc->ctx.set_timeout(ms(d)); }
              else { own = std::make_unique<arpc::context>(); own->set_timeout(ms(d)); }
              t0 = sim::now_ns();
              go();
            }
            SIM_CHECK(!n.fail && (first_ok >= 0 || maybe), "dialed-nothing", "dialed %s, which nobody answers for", n.name.c_str());
            SIM_CHECK(dl < 0 || sim::now_ns() - t0 <= dl + 30000000, "late-deadline", "dialing took %lld us with a deadline of %lld", (long long)(sim::now_ns() - t0) / 1000, (long long)dl / 1000);
            arpc::address a = c.peer_addr();
            bool v6; int p;
            uint32_t ip = ip_of(a, &v6, &p);
            if (!fdx && !maybe && !cancellable) SIM_CHECK(ip == n.hosts[first_ok].ip && p == PORT, "wrong-host", "connected to %x, the first address that accepts is %x", ip, n.hosts[first_ok].ip);
            bool known = false, past = false;
            for (size_t i = 0; i < n.hosts.size(); i++) {
              auto& h = n.hosts[i];
              known |= !past && h.ip == ip && h.v6 == v6 && p == PORT && (h.behaviour == 0 || h.behaviour >= 10);
              past |= !fdx && !cancellable && first_ok == (int)i;
            }
            bool late = n.hosts[0].behaviour >= 10;
            SIM_CHECK(known, "wrong-host", "connected to %x, which is not an accepting address of %s", ip, n.name.c_str());
            char b = 0;
            auto [r, to] = arpc::select(c.async_read(&b, 1), arpc::timeout(ms(5000)));
            if (r) SIM_CHECK(*r == 1 && b == '!', "not-connected", "the peer did not greet");
            else SIM_CHECK(fdx, "not-connected", "the peer never greeted");
            sim::probe(silent ? "dialed-past-silence" : no_v6 && n.hosts[0].v6 ? "dialed-without-ipv6" : late ? "dialed-late" : "dialed");
          } catch (const arpc::errors::io_error& x) {
            // (Once cancelled it may still report what the last address said.)
            SIM_CHECK(n.fail || first_ok < 0 || fdx || (cancellable && no_v6), "dial-failed", "%s accepts and there was time; dialing it failed: %s", n.name.c_str(), x.what());
            if (n.fail && !fdx) SIM_CHECK(std::string(x.what()).find("resolve") != std::string::npos, "wrong-error", "a resolution failure is reported as %s", x.what());
            sim::probe("dial-failed");
          } catch (const arpc::errors::deadline_exceeded&) {
            int64_t took = sim::now_ns() - t0;
            SIM_CHECK(dl >= 0, "deadline", "deadline error without a deadline");
            SIM_CHECK(took <= dl + 30000000, "late-deadline", "deadline error %lld us after a deadline of %lld", (long long)took / 1000, (long long)dl / 1000);
            // With someone who accepts among them, each address has its share of the time.
            SIM_CHECK(first_ok < 0 || fdx, "dial-failed", "%s accepts and there was time", n.name.c_str());
          } catch (const arpc::errors::cancelled&) {
            SIM_CHECK(cancellable, "cancelled", "cancelled without anybody cancelling");
            sim::probe("dial-cancelled");
          }
          if (sim::chance(OPS, 1, 3)) pause();
        }
      });
    if (!fdx) crew.add([&] {
      for (int j = sim::pick(OPS, 5); j; j--) {
        sim::sleep_ms(sim::pick(OPS, 100));
        hub.cancel_one();
      }
    });
  }
  server_ctx.cancel();
  srv.join();
  SIM_CHECK(sim::open_sockets() == 0, "descriptor-leak", "%d sockets still open", sim::open_sockets());
}

// A cancelled or late dial comes back at once, wherever it is.
SIM_SCENARIO(A11, interrupt, 5) {
  local_faults();
  sim::faults().stall = 0;
  Name n = make_name(0, 3, false);
  for (auto& h : n.hosts) h.behaviour = 2;
  if (sim::chance(OPS, 1, 2)) n.delay_ms = 100000;
  publish(n, 1);
  int64_t at = -1, back = -1;
  int before = sim::open_sockets();
  {
    CancelHub hub;
    arpc::flag started;
    Crew crew;
    crew.add([&] {
      Scope sc(hub);
      started.set();
      try {
        auto c = arpc::dial(arpc::endpoint().name(n.name).port(700));
        SIM_CHECK(false, "dialed-nothing", "dialed a silent host");
      } catch (const arpc::errors::cancelled&) {
      }
      back = sim::now_ns();
    });
    started.wait();
    sim::sleep_us(sim::pick(OPS, 3000000));
    at = sim::now_ns();
    hub.cancel_one();
    crew.join();
  }
  SIM_CHECK(back >= at && back - at < 20000000, "slow-cancel", "a cancelled dial returned %lld us later", (long long)(back - at) / 1000);
  SIM_CHECK(sim::open_sockets() == before, "descriptor-leak", "%d sockets open", sim::open_sockets());
}

// Listening: every client is accepted once; failures leave nothing behind.
SIM_SCENARIO(A11, listen, 5) {
  local_faults();
  if (sim::chance(CFG, 1, 3)) sim::faults().accept_fail = 300000;
  int nc = sim::range(OPS, 1, 6);
  {
    bool nb = sim::chance(OPS, 2, 3);
    arpc::listener l(arpc::endpoint().port(700), true, nb);
    int mine = sim::open_sockets();
    if (sim::chance(OPS, 1, 2)) {
      try {
        arpc::listener again(sim::chance(OPS, 1, 2) ? arpc::endpoint().port(700).ipv4() : arpc::endpoint().port(700));
        SIM_CHECK(false, "listened-twice", "two listeners on one port");
      } catch (const arpc::errors::io_error&) {
      }
      SIM_CHECK(sim::open_sockets() == mine, "descriptor-leak", "a failed listener left %d sockets", sim::open_sockets() - mine);
    }
    std::set<int> seen;
    std::atomic<int> lost{0}, done{0};
    Crew crew;
    for (int k = 0; k < nc; k++)
      crew.add([&, k] {
        if (sim::chance(OPS, 1, 2)) pause();
        arpc::endpoint e;
        e.name("localhost").port(700);
        if (sim::chance(OPS, 1, 2)) e.ipv4();
        bool broken = false;
        try {
          bool cnb = sim::chance(OPS, 2, 3);
          auto c = arpc::dial(e, cnb);
          SIM_CHECK(((fcntl(c.get(), F_GETFL) & O_NONBLOCK) != 0) == cnb, "wrong-option", "the dialed channel is %sblocking, which is not what was asked for", cnb ? "" : "non-");
          char b = (char)k;
          SIM_CHECK(c.write(&b, 1) == 1, "write-failed", "-");
          char r = 0;
          SIM_CHECK(c.read(&r, 1) == 1 && r == b, "wrong-peer", "client %d got the answer of %d", k, r);
        } catch (const arpc::errors::io_error&) {
          broken = true;
        } catch (const arpc::errors::eof&) {
          broken = true;
        }
        if (broken) {
          // Only a connection that the kernel gave up before it was accepted.
          sim::Quiet q;
          lost++;
          SIM_CHECK(lost <= (int)sim::net_stats().aborted, "connection-lost", "%d clients lost their connection; %d were aborted", (int)lost, (int)sim::net_stats().aborted);
          sim::probe("aborted-before-accepted");
        }
        done++;
      });
    crew.add([&] {
      std::vector<arpc::channel> cs;
      // Answers come as soon as a client is accepted, so all that succeed are accepted before the last one is done.
      while (true) {
        try {
          arpc::channel c;
          {
            arpc::context ctx;
            ctx.set_timeout(ms(500));
            c = l.accept();
          }
          SIM_CHECK(c, "accepted-nothing", "accept() returned an empty channel");
          SIM_CHECK(((fcntl(c.get(), F_GETFL) & O_NONBLOCK) != 0) == nb, "wrong-option", "the accepted channel is %sblocking, which is not what was asked for", nb ? "" : "non-");
          char b = -1;
          SIM_CHECK(c.read(&b, 1) == 1, "read-failed", "-");
          SIM_CHECK(seen.insert(b).second, "accepted-twice", "client %d accepted twice", b);
          c.write(&b, 1);
          if (sim::chance(OPS, 1, 2)) cs.push_back(std::move(c));
        } catch (const arpc::errors::deadline_exceeded&) {
          if (done == nc) break;
        } catch (const arpc::errors::io_error&) {
          SIM_CHECK(sim::faults().accept_fail, "accept-failed", "accept failed for no reason");
          sim::probe("accept-failed");
        }
      }
      SIM_CHECK((int)seen.size() + lost == nc, "accepted-nothing", "%zu clients accepted and %d aborted of %d", seen.size(), (int)lost, nc);
    });
  }
  SIM_CHECK(sim::open_sockets() == 0, "descriptor-leak", "%d sockets still open", sim::open_sockets());
}
