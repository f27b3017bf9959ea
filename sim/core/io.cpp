// Simulated descriptors: pipes, TCP sockets, serial lines, name resolution.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <memory>
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>
#include <set>
#include "internal.h"

namespace simi {

static constexpr int FD0 = 1000;
static constexpr int OWN_BUFFER = 1 << 30;  // do_read, do_write: the buffer belongs to the simulator

struct Addr {
  bool v6 = false;
  uint32_t ip = 0;
  uint16_t port = 0;
};

enum Kind { K_PIPE, K_SOCK, K_DEV, K_EVENT, K_FILE };
struct Obj {
  Kind kind;
  int refs = 0;
  int flags = 0;  // O_NONBLOCK
  int node = 0;
  int id = 0;
  VC vc;
  virtual ~Obj() {}
};
struct PipeBuf {
  std::deque<char> q;
  int readers = 0, writers = 0;
  VC vc;
};
struct PipeEnd : Obj {
  PipeBuf* b;
  bool rd;
};
struct Event : Obj {
  uint64_t n;
  bool one;  // EFD_SEMAPHORE
};
struct Sock : Obj {
  int family = AF_INET, type = SOCK_STREAM, proto = IPPROTO_TCP;
  enum St { NEW, CONNECTING, CONNECTED, FAILED } st = NEW;
  int err = 0;
  bool listening = false;
  int backlog = 0;
  std::deque<Sock*> accq;
  Addr local, remote;
  bool bound = false;
  Sock* peer = nullptr;
  // receive side
  std::deque<char> rx;
  bool fin_rx = false, rst = false, rst_reported = false;
  bool shut_rd = false, shut_wr = false, closed = false;
  uint64_t inflight = 0;       // bytes sent by us and not yet delivered
  int64_t last_delivery = 0;   // ordering of what we send
  VC tx_vc;
  std::map<std::pair<int, int>, std::vector<char>> opts;
  std::deque<std::function<void()>> stuck;  // held while partitioned
};
struct Dev : Obj {
  std::deque<char>* rx;
  std::deque<char>* tx;
  VC *rxvc, *txvc;
  const void *rxkey, *txkey;
  int64_t* last;
};

struct Inode { std::string data; int mode = 0; VC vc; };
struct File : Obj {
  Inode* ino;
  uint64_t pos = 0;
  int acc;      // O_RDONLY, O_WRONLY, O_RDWR
  bool append;
};

struct Fd {
  Obj* o = nullptr;
  bool ever = false;
};
static std::vector<Fd>* g_fds;
static bool g_fd_reuse = false;
static int g_open = 0, g_objs = 0;
static std::vector<Sock*>* g_listeners;
static std::map<uint32_t, int>* g_hosts;
struct Dns { std::vector<sim::HostAddr> a; int64_t delay; int fail; };
static std::map<std::string, Dns>* g_dns;
static std::map<uint32_t, int>* g_behaviour;
static std::set<std::pair<int, int>>* g_parts;
static std::vector<Sock*>* g_socks;
static uint16_t g_eph = 40000;
static sim::NetStats g_ns;
struct Line { std::deque<char> q[2]; VC vc[2]; int64_t last[2] = {0, 0}; };
static std::map<std::string, std::pair<Line*, int>>* g_devs;
static std::map<std::string, Inode*>* g_files;
static std::set<std::string>* g_dirs;
static uint64_t g_disk_used = 0;

void io_begin_run() {
  g_fds = new std::vector<Fd>;
  g_listeners = new std::vector<Sock*>;
  g_hosts = new std::map<uint32_t, int>;
  g_dns = new std::map<std::string, Dns>;
  g_behaviour = new std::map<uint32_t, int>;
  g_parts = new std::set<std::pair<int, int>>;
  g_socks = new std::vector<Sock*>;
  g_devs = new std::map<std::string, std::pair<Line*, int>>;
  g_files = new std::map<std::string, Inode*>;
  g_dirs = new std::set<std::string>;
  g_disk_used = 0;
  g_fd_reuse = sim::chance(sim::CFG, 1, 4);
}

static int new_fd(Obj* o) {
  size_t i = g_fds->size();
  if (g_fd_reuse) {
    for (i = 0; i < g_fds->size() && (*g_fds)[i].o; i++) {}
  }
  if (i == g_fds->size()) g_fds->push_back(Fd());
  (*g_fds)[i].o = o;
  (*g_fds)[i].ever = true;
  o->refs++;
  if (!o->id) o->id = ++g_objs;
  ++g_open;
  return FD0 + (int)i;
}

static Obj* get(int fd, const char* what, void* pc) {
  size_t i = (size_t)(fd - FD0);
  if (fd < FD0 || i >= g_fds->size()) {
    errno = EBADF;
    return nullptr;
  }
  Obj* o = (*g_fds)[i].o;
  if (!o) {
    if (sim::options().fd_check && !g_fd_reuse)
      sim::fail("closed-descriptor-used", "%s on descriptor %d after it was closed pc=%p", what, fd, pc);
    errno = EBADF;
  }
  return o;
}

static bool is_part(int a, int b) { return a != b && g_parts->count({std::min(a, b), std::max(a, b)}); }

static int64_t latency() {
  auto& f = sim::faults();
  int64_t l = f.lat_min_us * 1000LL;
  if (f.lat_max_us > f.lat_min_us) {
    uint32_t e = sim::pick(sim::NET, f.lat_max_us - f.lat_min_us + 1);
    if (e) sim::count_fault(sim::F_DELAY);
    l += e * 1000LL;
  }
  return l;
}

static void deliver(Sock* from, std::function<void()> fn) {
  Sock* to = from->peer;
  int64_t t = std::max(from->last_delivery + 1, g_now + latency());
  from->last_delivery = t;
  at(t, [from, to, fn] {
    if (!from->stuck.empty() || is_part(from->node, to->node)) {
      from->stuck.push_back(fn);
      return;
    }
    fn();
  });
}
static void flush_stuck(Sock* s) {
  if (s->stuck.empty() || !s->peer || is_part(s->node, s->peer->node)) return;
  auto q = std::move(s->stuck);
  s->stuck.clear();
  for (auto& f : q) f();
}

static void recv_rst(Sock* s) {
  if (s->rst || s->closed) { s->rst = true; return; }
  s->rst = true;
  s->err = ECONNRESET;
  s->rx.clear();
  wake_io(s);
  if (s->peer) wake_io(s->peer);
}

static void send_rst(Sock* s) {
  Sock* p = s->peer;
  if (!p) return;
  s->inflight = 0;
  deliver(s, [p] { recv_rst(p); });
}

static size_t space(Sock* s) {
  Sock* p = s->peer;
  uint64_t used = s->inflight + (p ? p->rx.size() : 0);
  uint64_t cap = std::max<uint32_t>(1, sim::faults().sndbuf);
  return used >= cap ? 0 : (size_t)(cap - used);
}

static short ready(Obj* o, short want) {
  short r = 0;
  if (o->kind == K_PIPE) {
    auto* p = (PipeEnd*)o;
    if (p->rd) {
      if (!p->b->q.empty()) r |= POLLIN;
      if (p->b->writers == 0) r |= POLLHUP;
    } else {
      if (p->b->readers == 0) r |= POLLERR | POLLOUT;
      else if (p->b->q.size() < sim::faults().pipe_cap) r |= POLLOUT;
    }
  } else if (o->kind == K_DEV) {
    auto* d = (Dev*)o;
    if (!d->rx->empty()) r |= POLLIN;
    r |= POLLOUT;
  } else if (o->kind == K_FILE) {
    r |= POLLIN | POLLOUT;
  } else if (o->kind == K_EVENT) {
    if (((Event*)o)->n) r |= POLLIN;
    if (((Event*)o)->n < UINT64_MAX - 1) r |= POLLOUT;
  } else {
    auto* s = (Sock*)o;
    if (s->listening) {
      if (!s->accq.empty()) r |= POLLIN;
    } else if (s->st == Sock::NEW) {
      r |= POLLOUT | POLLHUP;
    } else if (s->st == Sock::CONNECTING) {
    } else if (s->st == Sock::FAILED) {
      r |= POLLIN | POLLOUT | POLLHUP | (s->err ? POLLERR : 0);
    } else {
      if (!s->rx.empty() || s->fin_rx || s->shut_rd) r |= POLLIN;
      if (s->shut_wr || space(s) > 0) r |= POLLOUT;
      if (s->rst) r |= POLLIN | POLLOUT | POLLHUP | (s->err ? POLLERR : 0);
      if ((s->fin_rx || s->shut_rd) && s->shut_wr) r |= POLLHUP;
    }
  }
  return r & (want | POLLERR | POLLHUP | POLLNVAL);
}

static void obj_unref(Obj* o) {
  if (--o->refs) return;
  if (o->kind == K_PIPE) {
    auto* p = (PipeEnd*)o;
    (p->rd ? p->b->readers : p->b->writers)--;
    wake_io(p->b);
  } else if (o->kind == K_SOCK) {
    auto* s = (Sock*)o;
    s->closed = true;
    if (s->listening) {
      g_listeners->erase(std::remove(g_listeners->begin(), g_listeners->end(), s), g_listeners->end());
      for (auto* a : s->accq) { a->closed = true; send_rst(a); }
      s->accq.clear();
    }
    if (s->st == Sock::CONNECTED && s->peer && !s->rst) {
      if (!s->rx.empty()) {
        send_rst(s);
      } else {
        Sock* p = s->peer;
        if (!s->shut_wr) deliver(s, [p] { p->fin_rx = true; wake_io(p); });
      }
    }
    wake_io(s);
  }
}

static int fault_errno_fd() {
  auto& f = sim::faults();
  if (f.fd_exhaust && sim::chance(sim::FAULT, f.fd_exhaust, 1000000)) {
    sim::count_fault(sim::F_EMFILE);
    return EMFILE;
  }
  return 0;
}

static Addr from_sa(const sockaddr* sa) {
  Addr a;
  if (sa->sa_family == AF_INET6) {
    auto* s = (const sockaddr_in6*)sa;
    a.v6 = true;
    a.port = ntohs(s->sin6_port);
    uint32_t x;
    __builtin_memcpy(&x, &s->sin6_addr.s6_addr[12], 4);
    a.ip = ntohl(x);
  } else {
    auto* s = (const sockaddr_in*)sa;
    a.port = ntohs(s->sin_port);
    a.ip = ntohl(s->sin_addr.s_addr);
  }
  return a;
}
static socklen_t to_sa(const Addr& a, sockaddr_storage* st) {
  __builtin_memset(st, 0, sizeof *st);
  if (a.v6) {
    auto* s = (sockaddr_in6*)st;
    s->sin6_family = AF_INET6;
    s->sin6_port = htons(a.port);
    if (a.ip) { s->sin6_addr.s6_addr[0] = 0xfd; uint32_t x = htonl(a.ip); __builtin_memcpy(&s->sin6_addr.s6_addr[12], &x, 4); }
    return sizeof *s;
  }
  auto* s = (sockaddr_in*)st;
  s->sin_family = AF_INET;
  s->sin_port = htons(a.port);
  s->sin_addr.s_addr = htonl(a.ip);
  return sizeof *s;
}

static int host_node(uint32_t ip, int self) {
  if ((ip >> 24) == 127 || ip == 1) return self;
  auto it = g_hosts->find(ip);
  return it == g_hosts->end() ? -1 : it->second;
}
static Sock* find_listener(int node, const Addr& a) {
  for (auto* l : *g_listeners)
    if (l->node == node && l->local.port == a.port && l->local.v6 == a.v6 && (l->local.ip == 0 || l->local.ip == a.ip)) return l;
  return nullptr;
}

static void syn(Sock* s, int attempt);
static void connect_fail(Sock* s, int err) {
  if (s->closed || s->st != Sock::CONNECTING) return;
  s->st = Sock::FAILED;
  s->err = err;
  wake_io(s);
}
static const int SLOW = -1;   // the attempt that a late host answers
static void syn_arrive(Sock* s, int attempt) {
  if (s->closed || s->st != Sock::CONNECTING) return;
  int dst = host_node(s->remote.ip, s->node);
  int beh = g_behaviour->count(s->remote.ip) ? (*g_behaviour)[s->remote.ip] : 0;
  if (beh == 2 || dst < 0 || is_part(s->node, dst)) {
    if (beh == 2) sim::count_fault(sim::F_BLACKHOLE);
    // SYN lost: retransmit with backoff, give up after ~127s.
    if (attempt >= 6) { connect_fail(s, ETIMEDOUT); return; }
    at(g_now + (1000000000LL << attempt), [s, attempt] { syn(s, attempt + 1); });
    return;
  }
  if (beh >= 10 && attempt != SLOW) {
    sim::count_fault(sim::F_SLOW_HOST);
    at(g_now + (beh - 10) * 1000000LL, [s] { syn_arrive(s, SLOW); });
    return;
  }
  if (attempt == SLOW) attempt = 0;
  Sock* l = beh == 1 ? nullptr : find_listener(dst, s->remote);
  if (!l) {
    sim::count_fault(sim::F_REFUSE);
    g_ns.refused++;
    at(g_now + latency(), [s] { connect_fail(s, ECONNREFUSED); });
    return;
  }
  if ((int)l->accq.size() > l->backlog) {
    if (attempt >= 6) { connect_fail(s, ETIMEDOUT); return; }
    at(g_now + (1000000000LL << attempt), [s, attempt] { syn(s, attempt + 1); });
    return;
  }
  auto* a = new Sock;
  a->kind = K_SOCK;
  a->vc.clear();
  a->tx_vc.clear();
  a->id = ++g_objs;
  a->node = l->node;
  a->family = l->family;
  a->st = Sock::CONNECTED;
  a->local = l->local;
  if (!a->local.ip) a->local.ip = s->remote.ip;
  a->remote = s->local;
  a->peer = s;
  s->peer = a;
  g_socks->push_back(a);
  g_ns.conns++;
  l->accq.push_back(a);
  wake_io(l);
  at(g_now + latency(), [s] {
    if (s->closed) { s->st = Sock::CONNECTED; send_rst(s); return; }
    if (s->st != Sock::CONNECTING) return;
    s->st = Sock::CONNECTED;
    wake_io(s);
  });
}
static void syn(Sock* s, int attempt) {
  if (s->closed || s->st != Sock::CONNECTING) return;
  at(g_now + latency(), [s, attempt] { syn_arrive(s, attempt); });
}

static void maybe_eintr_setup() {
  auto& f = sim::faults();
  g_cur->eintr_at = -1;
  if (f.eintr && sim::chance(sim::FAULT, f.eintr, 1000000)) g_cur->eintr_at = g_now + 1000 + sim::pick(sim::FAULT, 5000000);
}

static ssize_t do_read(int fd, void* buf, size_t len, void* pc, int flags = 0) {
  point("read", pc);
  Obj* o = get(fd, "read", pc);
  if (!o) return -1;
  if (len && !(flags & OWN_BUFFER)) mem_check(buf, len, true, pc);
  while (true) {
    if (o->kind == K_PIPE) {
      auto* p = (PipeEnd*)o;
      if (!p->rd) { errno = EBADF; return -1; }
      if (!p->b->q.empty()) {
        size_t n = std::min(len, p->b->q.size());
        for (size_t i = 0; i < n; i++) { ((char*)buf)[i] = p->b->q.front(); p->b->q.pop_front(); }
        hb_acquire(p->b->vc);
        hb_release(p->b->vc);
        wake_io(p->b);
        return n;
      }
      if (p->b->writers == 0) return 0;
    } else if (o->kind == K_DEV) {
      auto* d = (Dev*)o;
      if (!d->rx->empty()) {
        size_t n = std::min(len, d->rx->size());
        auto& f = sim::faults();
        if (n > 1 && f.short_read && sim::chance(sim::NET, f.short_read, 1000000)) { n = 1 + sim::pick(sim::NET, n - 1); sim::count_fault(sim::F_SHORT_READ); }
        for (size_t i = 0; i < n; i++) { ((char*)buf)[i] = d->rx->front(); d->rx->pop_front(); }
        hb_acquire(*d->rxvc);
        return n;
      }
    } else if (o->kind == K_FILE) {
      auto* x = (File*)o;
      auto& f = sim::faults();
      if (x->acc == O_WRONLY) { errno = EBADF; return -1; }
      if (f.disk_error && sim::chance(sim::FAULT, f.disk_error, 1000000)) { sim::count_fault(sim::F_DISK); errno = EIO; return -1; }
      hb_acquire(x->ino->vc);
      size_t left = x->pos < x->ino->data.size() ? x->ino->data.size() - x->pos : 0;
      size_t n = std::min(len, left);
      if (n > 1 && f.short_read && sim::chance(sim::NET, f.short_read, 1000000)) { n = 1 + sim::pick(sim::NET, (uint32_t)n - 1); sim::count_fault(sim::F_SHORT_READ); }
      if (n) __builtin_memcpy(buf, x->ino->data.data() + x->pos, n);
      x->pos += n;
      return n;
    } else if (o->kind == K_EVENT) {
      auto* e = (Event*)o;
      if (len < 8) { errno = EINVAL; return -1; }
      if (e->n) {
        uint64_t v = e->one ? 1 : e->n;
        __builtin_memcpy(buf, &v, 8);
        e->n -= v;
        hb_acquire(e->vc);
        hb_release(e->vc);
        wake_io(e);
        return 8;
      }
    } else {
      auto* s = (Sock*)o;
      if (s->listening || s->st == Sock::NEW || s->st == Sock::CONNECTING) { errno = ENOTCONN; return -1; }
      if (s->st == Sock::FAILED) { errno = s->err ? s->err : ENOTCONN; s->err = 0; if (errno == ENOTCONN) return 0; return -1; }
      if (s->rst) {
        if (s->err) { errno = s->err; s->err = 0; return -1; }
        return 0;
      }
      if (s->shut_rd) return 0;
      if (!s->rx.empty()) {
        size_t n = std::min(len, s->rx.size());
        auto& f = sim::faults();
        if (n > 1 && f.short_read && sim::chance(sim::NET, f.short_read, 1000000)) {
          n = 1 + sim::pick(sim::NET, (uint32_t)n - 1);
          sim::count_fault(sim::F_SHORT_READ);
        }
        for (size_t i = 0; i < n; i++) { ((char*)buf)[i] = s->rx.front(); s->rx.pop_front(); }
        hb_acquire(s->vc);
        if (s->peer) wake_io(s->peer);
        return n;
      }
      if (s->fin_rx) { hb_acquire(s->vc); return 0; }
    }
    if ((o->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
    g_cur->io.clear();
    g_cur->io.push_back(o->kind == K_PIPE ? (const void*)((PipeEnd*)o)->b : o->kind == K_DEV ? ((Dev*)o)->rxkey : (const void*)o);
    maybe_eintr_setup();
    block(W_IO, o, -1, "read", pc);
    if (g_cur->eintr && !g_cur->woken) { g_cur->eintr = false; sim::count_fault(sim::F_EINTR); errno = EINTR; return -1; }
  }
}

static void send_bytes(Sock* s, const char* data, size_t n) {
  auto& f = sim::faults();
  size_t off = 0;
  while (off < n) {
    size_t k = n - off;
    if (f.seg_max && k > 1) {
      size_t m = 1 + sim::pick(sim::NET, f.seg_max);
      if (m < k) { k = m; sim::count_fault(sim::F_SPLIT); }
    }
    auto seg = std::make_shared<std::string>(data + off, k);
    if (f.corrupt && sim::chance(sim::NET, f.corrupt, 1000000)) {
      (*seg)[sim::pick(sim::NET, (uint32_t)k)] ^= 1 << sim::pick(sim::NET, 8);
      sim::count_fault(sim::F_CORRUPT);
    }
    off += k;
    g_ns.segs++;
    Sock* p = s->peer;
    auto vc = std::make_shared<VC>(s->tx_vc);
    deliver(s, [s, p, seg, vc] {
      if (s->inflight >= seg->size()) s->inflight -= seg->size(); else s->inflight = 0;
      if (p->closed) {  // data for a closed socket: reset
        if (!s->rst) send_rst(p);
        return;
      }
      if (p->rst) {  // nobody there any more: reset the sender too
        if (!s->rst) send_rst(p);
        return;
      }
      if (p->shut_rd) return;
      for (char c : *seg) p->rx.push_back(c);
      for (int i = 0; i < g_nthreads; i++) if (vc->v[i] > p->vc.v[i]) p->vc.v[i] = vc->v[i];
      g_ns.bytes += seg->size();
      wake_io(p);
    });
  }
}

// Writing where nobody reads any more kills a process that did not prevent it.
static ssize_t broken_pipe(int flags, void* pc) {
  struct sigaction sa;
  if (!(flags & MSG_NOSIGNAL) && !sigaction(SIGPIPE, nullptr, &sa) && sa.sa_handler == SIG_DFL)
    sim::fail("killed-by-sigpipe", "writing to a connection whose other end has gone ended the process pc=%p", pc);
  errno = EPIPE;
  return -1;
}
static ssize_t do_write(int fd, const void* buf, size_t len, void* pc, int flags = 0) {
  point("write", pc);
  Obj* o = get(fd, "write", pc);
  if (!o) return -1;
  if (len && !(flags & OWN_BUFFER)) mem_check(buf, len, false, pc);
  while (true) {
    if (o->kind == K_PIPE) {
      auto* p = (PipeEnd*)o;
      if (p->rd) { errno = EBADF; return -1; }
      if (p->b->readers == 0) return broken_pipe(flags, pc);
      size_t cap = sim::faults().pipe_cap, used = p->b->q.size();
      size_t sp = used < cap ? cap - used : 0;
      if (sp >= len || (sp > 0 && len > 4096)) {
        size_t n = std::min(len, sp);
        const char* c = (const char*)buf;
        for (size_t i = 0; i < n; i++) p->b->q.push_back(c[i]);
        hb_release(p->b->vc);
        wake_io(p->b);
        return n;
      }
    } else if (o->kind == K_DEV) {
      auto* d = (Dev*)o;
      auto& f = sim::faults();
      size_t n = len;
      if (n > 1 && f.short_write && sim::chance(sim::NET, f.short_write, 1000000)) { n = 1 + sim::pick(sim::NET, (uint32_t)n - 1); sim::count_fault(sim::F_SHORT_WRITE); }
      std::string out;
      for (size_t i = 0; i < n; i++) {
        char c = ((const char*)buf)[i];
        if (f.corrupt && sim::chance(sim::NET, f.corrupt, 1000000)) {
          sim::count_fault(sim::F_LINE_NOISE);
          switch (sim::pick(sim::NET, 4)) {
            case 0: continue;                                   // lost
            case 1: out.push_back(c); out.push_back(c); break;  // duplicated
            case 2: out.push_back((char)sim::pick(sim::NET, 256)); break;
            default: out.push_back(c ^ (char)(1 << sim::pick(sim::NET, 8)));
          }
        } else out.push_back(c);
      }
      hb_release(*d->txvc);
      auto data = std::make_shared<std::string>(std::move(out));
      int64_t t = std::max(*d->last + 1, g_now + latency());
      *d->last = t;
      at(t, [d, data] { for (char c : *data) d->tx->push_back(c); wake_io(d->txkey); });
      return n;
    } else if (o->kind == K_FILE) {
      auto* x = (File*)o;
      auto& f = sim::faults();
      if (x->acc == O_RDONLY) { errno = EBADF; return -1; }
      if (f.disk_error && sim::chance(sim::FAULT, f.disk_error, 1000000)) { sim::count_fault(sim::F_DISK); errno = EIO; return -1; }
      std::string& data = x->ino->data;
      uint64_t at = x->append ? data.size() : x->pos;
      size_t n = len;
      if (n > 1 && f.short_write && sim::chance(sim::NET, f.short_write, 1000000)) { n = 1 + sim::pick(sim::NET, (uint32_t)n - 1); sim::count_fault(sim::F_SHORT_WRITE); }
      if (at + n > data.size()) {
        uint64_t more = at + n - data.size(), room = f.disk_size > g_disk_used ? f.disk_size - g_disk_used : 0;
        if (more > room) {
          sim::count_fault(sim::F_DISK_FULL);
          if (data.size() + room <= at) { errno = ENOSPC; return -1; }
          n = data.size() + room - at;
          more = room;
        }
        g_disk_used += more;
        data.resize(std::max<uint64_t>(data.size(), at + n), 0);
      }
      __builtin_memcpy(&data[at], buf, n);
      x->pos = at + n;
      hb_release(x->ino->vc);
      return n;
    } else if (o->kind == K_EVENT) {
      auto* e = (Event*)o;
      uint64_t v;
      if (len < 8) { errno = EINVAL; return -1; }
      __builtin_memcpy(&v, buf, 8);
      if (v == UINT64_MAX) { errno = EINVAL; return -1; }
      if (e->n + v >= e->n && e->n + v < UINT64_MAX) {
        e->n += v;
        hb_release(e->vc);
        wake_io(e);
        return 8;
      }
    } else {
      auto* s = (Sock*)o;
      if (s->listening || s->st == Sock::NEW) { errno = ENOTCONN; return -1; }
      if (s->st == Sock::FAILED || s->rst) {
        if (!s->err) return broken_pipe(flags, pc);
        errno = s->err;
        s->err = 0;
        return -1;
      }
      if (s->shut_wr) return broken_pipe(flags, pc);
      if (s->st == Sock::CONNECTED) {
        auto& f = sim::faults();
        if (f.conn_reset && sim::chance(sim::NET, f.conn_reset, 1000000)) {
          sim::count_fault(sim::F_RESET);
          size_t keep = sim::pick(sim::NET, (uint32_t)std::min<size_t>(len, space(s)) + 1);
          if (keep) { hb_release(s->tx_vc); s->inflight += keep; send_bytes(s, (const char*)buf, keep); }
          send_rst(s);
          Sock* p = s->peer;
          (void)p;
          at(g_now + latency(), [s] { recv_rst(s); });
          if (keep) return keep;
          continue;
        }
        size_t sp = space(s);
        if (sp > 0) {
          size_t n = std::min(len, sp);
          if (n > 1 && f.short_write && sim::chance(sim::NET, f.short_write, 1000000)) {
            n = 1 + sim::pick(sim::NET, (uint32_t)n - 1);
            sim::count_fault(sim::F_SHORT_WRITE);
          }
          hb_release(s->tx_vc);
          s->inflight += n;
          send_bytes(s, (const char*)buf, n);
          return n;
        }
      }
    }
    if ((o->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
    g_cur->io.clear();
    g_cur->io.push_back(o->kind == K_PIPE ? (const void*)((PipeEnd*)o)->b : (const void*)o);
    maybe_eintr_setup();
    block(W_IO, o, -1, "write", pc);
    if (g_cur->eintr && !g_cur->woken) { g_cur->eintr = false; sim::count_fault(sim::F_EINTR); errno = EINTR; return -1; }
  }
}

static const void* io_key(Obj* o) {
  if (o->kind == K_PIPE) return ((PipeEnd*)o)->b;
  if (o->kind == K_DEV) return ((Dev*)o)->rxkey;
  return o;
}

static int do_poll(struct pollfd* fds, nfds_t n, int timeout, void* pc) {
  point("poll", pc);
  int64_t deadline = timeout < 0 ? -1 : g_now + timeout * 1000000LL;
  auto& f = sim::faults();
  while (true) {
    int cnt = 0;
    for (nfds_t i = 0; i < n; i++) {
      fds[i].revents = 0;
      if (fds[i].fd < 0) continue;
      if (fds[i].fd < FD0) { fds[i].revents = POLLNVAL; cnt++; continue; }
      Obj* o = get(fds[i].fd, "poll", pc);
      if (!o) { fds[i].revents = POLLNVAL; cnt++; continue; }
      short r = ready(o, fds[i].events);
      if (!r && o->kind == K_SOCK && (fds[i].events & POLLIN) && ((Sock*)o)->st == Sock::CONNECTED && (o->flags & O_NONBLOCK) && f.spurious_ready &&
          sim::chance(sim::FAULT, f.spurious_ready, 1000000)) {
        r = POLLIN;
        sim::count_fault(sim::F_SPUR_READY);
      }
      if (r) {
        fds[i].revents = r;
        cnt++;
        if (o->kind == K_PIPE) hb_acquire(((PipeEnd*)o)->b->vc);
        if (o->kind == K_EVENT) hb_acquire(o->vc);
      }
    }
    if (cnt) return cnt;
    if (timeout == 0 || (deadline >= 0 && g_now >= deadline)) return 0;
    g_cur->io.clear();
    for (nfds_t i = 0; i < n; i++) {
      if (fds[i].fd < FD0) continue;
      Obj* o = (*g_fds)[fds[i].fd - FD0].o;
      if (o) g_cur->io.push_back(io_key(o));
    }
    maybe_eintr_setup();
    block(W_IO, nullptr, deadline, "poll", pc);
    if (g_cur->eintr && !g_cur->woken && !g_cur->timed_out) {
      g_cur->eintr = false;
      sim::count_fault(sim::F_EINTR);
      errno = EINTR;
      return -1;
    }
  }
}

}  // namespace simi

using namespace simi;
#define PC __builtin_return_address(0)

namespace sim {
void net_partition(int a, int b, bool blocked) {
  InSim in;
  auto k = std::make_pair(std::min(a, b), std::max(a, b));
  if (blocked) { if (g_parts->insert(k).second) count_fault(F_PARTITION); }
  else {
    g_parts->erase(k);
    for (auto* s : *g_socks) flush_stuck(s);
  }
  logf("partition %d-%d %d", a, b, blocked);
  hash_mix(a * 64 + b * 2 + blocked);
}
bool net_partitioned(int a, int b) { InSim in; return is_part(a, b); }
int net_reset_all(int node) {
  InSim in;
  int n = 0;
  for (size_t i = 0; i < g_socks->size(); i++) {
    Sock* s = (*g_socks)[i];
    if (s->st != Sock::CONNECTED || s->closed || s->rst || !s->peer || s->listening) continue;
    if (node >= 0 && s->node != node && s->peer->node != node) continue;
    s->inflight = 0;
    recv_rst(s);
    if (s->peer->st == Sock::CONNECTING) connect_fail(s->peer, ECONNRESET);
    n++;
  }
  if (n) count_fault(F_RESET);
  logf("reset_all node %d: %d ends", node, n);
  hash_mix(n);
  return n;
}
void dns_set(const char* name, std::vector<HostAddr> a, int64_t delay, int fail) {
  InSim in;
  Dns d;
  for (auto& h : a) d.a.push_back(h);
  d.delay = delay;
  d.fail = fail;
  for (auto& h : a) (*g_behaviour)[h.ip] = h.behaviour;
  (*g_dns)[name] = d;
}
void host_set(uint32_t ip, int node) { InSim in; (*g_hosts)[ip] = node; }
NetStats& net_stats() { return g_ns; }
int open_fds() { return g_open; }
int open_sockets() {
  InSim in;
  std::set<Obj*> s;
  for (auto& f : *g_fds) if (f.o && f.o->kind == K_SOCK) s.insert(f.o);
  return (int)s.size();
}
void device_link(const char* a, const char* b) {
  InSim in;
  auto* l = new Line;
  l->vc[0].clear();
  l->vc[1].clear();
  (*g_devs)[a] = {l, 0};
  (*g_devs)[b] = {l, 1};
}
int sock_opt(int fd, int level, int opt, int offset) {
  InSim in;
  auto* o = (*g_fds)[fd - FD0].o;
  auto it = ((Sock*)o)->opts.find({level, opt});
  int v = 0;
  if (it != ((Sock*)o)->opts.end() && it->second.size() >= offset + sizeof v) __builtin_memcpy(&v, it->second.data() + offset, sizeof v);
  return v;
}
void file_dir(const char* path) { InSim in; g_dirs->insert(path); }
bool file_get(const char* path, std::string* data) {
  InSim in;
  auto it = g_files->find(path);
  if (it == g_files->end()) return false;
  data->assign(it->second->data);
  return true;
}
}  // namespace sim

extern "C" {

int poll(struct pollfd* fds, nfds_t n, int timeout) {
  if (!on()) return (int)syscall(SYS_poll, fds, n, timeout);
  InSim in;
  return do_poll(fds, n, timeout, PC);
}
int ppoll(struct pollfd* fds, nfds_t n, const struct timespec* ts, const sigset_t* mask) {
  if (!on()) return (int)syscall(SYS_ppoll, fds, n, ts, mask, 8);
  InSim in;
  // Down to the millisecond, rounded up, is all the simulated poll does.
  int64_t t = ts ? ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000 : -1;
  return do_poll(fds, n, (int)std::min<int64_t>(t, INT32_MAX), PC);
}
int eventfd(unsigned n, int flags) noexcept {
  if (!on()) return (int)syscall(SYS_eventfd2, n, flags);
  InSim in;
  point("eventfd", PC);
  if (int e = fault_errno_fd()) { errno = e; return -1; }
  auto* e = new Event;
  e->kind = K_EVENT;
  e->n = n;
  e->one = flags & 1;
  e->flags = flags & O_NONBLOCK;
  e->vc.clear();
  return new_fd(e);
}
ssize_t read(int fd, void* buf, size_t len) {
  if (!on()) return syscall(SYS_read, fd, buf, len);
  InSim in;
  return do_read(fd, buf, len, PC);
}
ssize_t write(int fd, const void* buf, size_t len) {
  if (!on()) return syscall(SYS_write, fd, buf, len);
  InSim in;
  return do_write(fd, buf, len, PC);
}
// Scattered data goes through one buffer.
static ssize_t do_readv(int fd, const struct iovec* v, int n, int flags, void* pc) {
  size_t total = 0;
  for (int i = 0; i < n; i++) { if (v[i].iov_len) mem_check(v[i].iov_base, v[i].iov_len, true, pc); total += v[i].iov_len; }
  std::string b(total, 0);
  ssize_t r = do_read(fd, b.data(), total, pc, flags | OWN_BUFFER);
  size_t off = 0;
  for (int i = 0; i < n && r > 0 && off < (size_t)r; i++) {
    size_t k = std::min<size_t>(v[i].iov_len, r - off);
    __builtin_memcpy(v[i].iov_base, b.data() + off, k);
    off += k;
  }
  return r;
}
static ssize_t do_writev(int fd, const struct iovec* v, int n, int flags, void* pc) {
  std::string b;
  for (int i = 0; i < n; i++) if (v[i].iov_len) { mem_check(v[i].iov_base, v[i].iov_len, false, pc); b.append((const char*)v[i].iov_base, v[i].iov_len); }
  return do_write(fd, b.data(), b.size(), pc, flags | OWN_BUFFER);
}
ssize_t readv(int fd, const struct iovec* v, int n) { if (!on()) return syscall(SYS_readv, fd, v, n); InSim in; return do_readv(fd, v, n, 0, PC); }
ssize_t writev(int fd, const struct iovec* v, int n) { if (!on()) return syscall(SYS_writev, fd, v, n); InSim in; return do_writev(fd, v, n, 0, PC); }
ssize_t recvmsg(int fd, struct msghdr* m, int fl) { if (!on()) return syscall(SYS_recvmsg, fd, m, fl); InSim in; return do_readv(fd, m->msg_iov, (int)m->msg_iovlen, fl, PC); }
ssize_t sendmsg(int fd, const struct msghdr* m, int fl) { if (!on()) return syscall(SYS_sendmsg, fd, m, fl); InSim in; return do_writev(fd, m->msg_iov, (int)m->msg_iovlen, fl, PC); }
ssize_t recv(int fd, void* buf, size_t len, int fl) { if (!on()) return syscall(SYS_recvfrom, fd, buf, len, fl, 0, 0); InSim in; return do_read(fd, buf, len, PC, fl); }
ssize_t send(int fd, const void* buf, size_t len, int fl) { if (!on()) return syscall(SYS_sendto, fd, buf, len, fl, 0, 0); InSim in; return do_write(fd, buf, len, PC, fl); }

static int make_pipe(int out[2], int flags) {
  point("pipe", PC);
  if (int e = fault_errno_fd()) { errno = e; return -1; }
  auto* b = new PipeBuf;
  b->vc.clear();
  b->readers = b->writers = 1;
  for (int i = 0; i < 2; i++) {
    auto* e = new PipeEnd;
    e->kind = K_PIPE;
    e->b = b;
    e->rd = i == 0;
    e->flags = flags & O_NONBLOCK;
    e->vc.clear();
    out[i] = new_fd(e);
  }
  return 0;
}
int pipe(int out[2]) noexcept {
  if (!on()) return (int)syscall(SYS_pipe, out);
  InSim in;
  return make_pipe(out, 0);
}
int pipe2(int out[2], int flags) noexcept {
  if (!on()) return (int)syscall(SYS_pipe2, out, flags);
  InSim in;
  return make_pipe(out, flags);
}
int close(int fd) {
  if (!on()) return (int)syscall(SYS_close, fd);
  InSim in;
  point("close", PC);
  size_t i = (size_t)(fd - FD0);
  if (fd >= FD0 && i < g_fds->size() && !(*g_fds)[i].o && (*g_fds)[i].ever && sim::options().fd_check)
    sim::fail("descriptor-closed-twice", "close of descriptor %d, already closed pc=%p", fd, PC);
  Obj* o = get(fd, "close", PC);
  if (!o) return -1;
  (*g_fds)[i].o = nullptr;
  --g_open;
  wake_io(io_key(o));
  obj_unref(o);
  return 0;
}
int dup(int fd) noexcept {
  if (!on()) return (int)syscall(SYS_dup, fd);
  InSim in;
  point("dup", PC);
  Obj* o = get(fd, "dup", PC);
  if (!o) return -1;
  if (int e = fault_errno_fd()) { errno = e; return -1; }
  return new_fd(o);
}
int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  if (!on()) return (int)syscall(SYS_fcntl, fd, cmd, arg);
  InSim in;
  Obj* o = get(fd, "fcntl", PC);
  if (!o) return -1;
  if (cmd == F_GETFL) return (o->kind == K_FILE ? ((File*)o)->acc | (((File*)o)->append ? O_APPEND : 0) : O_RDWR) | o->flags;
  if (cmd == F_SETFL) { o->flags = (int)arg & O_NONBLOCK; return 0; }
  if (cmd == F_SETFD || cmd == F_GETFD) return 0;
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return new_fd(o);
  errno = EINVAL;
  return -1;
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  return fcntl(fd, cmd, arg);
}
static int open_file(const char* path, int flags, int mode) {
  std::string name(path), dir(name.substr(0, name.rfind('/')));
  if (!g_dirs->count(dir)) { errno = ENOENT; return -1; }
  int acc = flags & O_ACCMODE;
  auto it = g_files->find(name);
  if (it == g_files->end()) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
  } else {
    int m = it->second->mode;
    if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if ((acc != O_WRONLY && !(m & 0400)) || (acc != O_RDONLY && !(m & 0200))) { errno = EACCES; return -1; }
  }
  if (int e = fault_errno_fd()) { errno = e; return -1; }
  if (it == g_files->end()) {
    auto* n = new Inode;
    n->mode = mode & 07777 & ~022;
    n->vc.clear();
    it = g_files->insert({name, n}).first;
  } else if ((flags & O_TRUNC) && acc != O_RDONLY) {
    g_disk_used -= it->second->data.size();
    it->second->data.clear();
  }
  auto* f = new File;
  f->kind = K_FILE;
  f->vc.clear();
  f->flags = flags & O_NONBLOCK;
  f->ino = it->second;
  f->acc = acc;
  f->append = flags & O_APPEND;
  return new_fd(f);
}
static int do_open(const char* path, int flags, int mode, void* pc) {
  point("open", pc);
  auto it = g_devs->find(path);
  if (it == g_devs->end()) return open_file(path, flags, mode);
  if (int e = fault_errno_fd()) { errno = e; return -1; }
  Line* l = it->second.first;
  int side = it->second.second;
  auto* d = new Dev;
  d->kind = K_DEV;
  d->vc.clear();
  d->flags = flags & O_NONBLOCK;
  d->tx = &l->q[side];
  d->rx = &l->q[1 - side];
  d->txvc = &l->vc[side];
  d->rxvc = &l->vc[1 - side];
  d->txkey = &l->q[side];
  d->rxkey = &l->q[1 - side];
  d->last = &l->last[side];
  return new_fd(d);
}
int open(const char* path, int flags, ...) {
  int m = 0;
  if (flags & O_CREAT) {
    va_list ap;
    va_start(ap, flags);
    m = va_arg(ap, int);
    va_end(ap);
  }
  if (!on()) return (int)syscall(SYS_open, path, flags, m);
  InSim in;
  return do_open(path, flags, m, PC);
}
int open64(const char* path, int flags, ...) {
  int m = 0;
  if (flags & O_CREAT) {
    va_list ap;
    va_start(ap, flags);
    m = va_arg(ap, int);
    va_end(ap);
  }
  if (!on()) return (int)syscall(SYS_open, path, flags, m);
  InSim in;
  return do_open(path, flags, m, PC);
}

int socket(int family, int type, int proto) noexcept {
  if (!on()) return (int)syscall(SYS_socket, family, type, proto);
  InSim in;
  point("socket", PC);
  if (int e = fault_errno_fd()) { errno = e; return -1; }
  if ((family != AF_INET && family != AF_INET6) || (type & 0xf) != SOCK_STREAM) { errno = EAFNOSUPPORT; return -1; }
  if (family == AF_INET6 && sim::faults().no_v6_node == g_cur->node) { sim::count_fault(sim::F_NO_FAMILY); errno = EAFNOSUPPORT; return -1; }
  auto* s = new Sock;
  s->kind = K_SOCK;
  s->vc.clear();
  s->tx_vc.clear();
  s->family = family;
  s->local.v6 = family == AF_INET6;
  s->node = g_cur->node;
  s->flags = type & SOCK_NONBLOCK ? O_NONBLOCK : 0;
  g_socks->push_back(s);
  return new_fd(s);
}
static Sock* get_sock(int fd, const char* what, void* pc) {
  Obj* o = get(fd, what, pc);
  if (!o) return nullptr;
  if (o->kind != K_SOCK) { errno = ENOTSOCK; return nullptr; }
  return (Sock*)o;
}
// A socket for all IPv6 addresses takes the IPv4 ones too, unless told otherwise.
static bool dual(const Sock* s) {
  if (!s->local.v6 || s->local.ip) return false;
  auto it = s->opts.find({IPPROTO_IPV6, IPV6_V6ONLY});
  return it == s->opts.end() || it->second.empty() || !it->second[0];
}
static bool clash(const Sock* l, const Sock* s) {
  return l != s && l->node == s->node && l->local.port == s->local.port && (l->local.v6 == s->local.v6 || dual(l) || dual(s));
}
int bind(int fd, const struct sockaddr* sa, socklen_t) noexcept {
  if (!on()) return (int)syscall(SYS_bind, fd, sa, sizeof(sockaddr_storage));
  InSim in;
  point("bind", PC);
  Sock* s = get_sock(fd, "bind", PC);
  if (!s) return -1;
  Addr a = from_sa(sa), was = s->local;
  s->local = a;
  for (auto* l : *g_listeners)
    if (a.port && clash(l, s)) { s->local = was; errno = EADDRINUSE; return -1; }
  if (!a.port) s->local.port = g_eph++;
  s->bound = true;
  return 0;
}
int listen(int fd, int backlog) noexcept {
  if (!on()) return (int)syscall(SYS_listen, fd, backlog);
  InSim in;
  point("listen", PC);
  Sock* s = get_sock(fd, "listen", PC);
  if (!s) return -1;
  for (auto* l : *g_listeners)
    if (clash(l, s)) { errno = EADDRINUSE; return -1; }
  s->backlog = backlog;
  if (!s->listening) g_listeners->push_back(s);
  s->listening = true;
  return 0;
}
static int do_accept(int fd, struct sockaddr* sa, socklen_t* len, void* pc) {
  point("accept", pc);
  Sock* s = get_sock(fd, "accept", pc);
  if (!s) return -1;
  if (!s->listening) { errno = EINVAL; return -1; }
  while (s->accq.empty()) {
    if (s->flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
    g_cur->io.assign(1, s);
    block(W_IO, s, -1, "accept", pc);
  }
  auto& f = sim::faults();
  if (f.accept_fail && sim::chance(sim::FAULT, f.accept_fail, 1000000)) {
    sim::count_fault(sim::F_ACCEPT);
    uint32_t k = sim::pick(sim::FAULT, 3);
    if (k == 0) {  // client went away: connection is lost
      Sock* a = s->accq.front();
      s->accq.pop_front();
      a->closed = true;
      send_rst(a);
      g_ns.aborted++;
      errno = ECONNABORTED;
    } else {
      errno = k == 1 ? EMFILE : EINTR;
    }
    return -1;
  }
  Sock* a = s->accq.front();
  s->accq.pop_front();
  g_ns.accepted++;
  if (sa && len) {
    sockaddr_storage st;
    socklen_t n = to_sa(a->remote, &st);
    __builtin_memcpy(sa, &st, std::min(n, *len));
    *len = n;
  }
  return new_fd(a);
}
int accept(int fd, struct sockaddr* sa, socklen_t* len) {
  if (!on()) return (int)syscall(SYS_accept, fd, sa, len);
  InSim in;
  return do_accept(fd, sa, len, PC);
}
int accept4(int fd, struct sockaddr* sa, socklen_t* len, int flags) {
  if (!on()) return (int)syscall(SYS_accept4, fd, sa, len, flags);
  InSim in;
  int r = do_accept(fd, sa, len, PC);
  if (r >= 0 && (flags & SOCK_NONBLOCK)) (*g_fds)[r - FD0].o->flags = O_NONBLOCK;
  return r;
}
int connect(int fd, const struct sockaddr* sa, socklen_t n) {
  if (!on()) return (int)syscall(SYS_connect, fd, sa, n);
  InSim in;
  point("connect", PC);
  Sock* s = get_sock(fd, "connect", PC);
  if (!s) return -1;
  if (s->st == Sock::CONNECTED) { errno = EISCONN; return -1; }
  if (s->st == Sock::CONNECTING) { errno = EALREADY; return -1; }
  s->remote = from_sa(sa);
  if (!s->local.port) { s->local.port = g_eph++; s->local.ip = 0x0a000000 + s->node; }
  s->st = Sock::CONNECTING;
  s->err = 0;
  syn(s, 0);
  if (s->flags & O_NONBLOCK) { errno = EINPROGRESS; return -1; }
  while (s->st == Sock::CONNECTING) {
    g_cur->io.assign(1, s);
    maybe_eintr_setup();
    block(W_IO, s, -1, "connect", PC);
    if (g_cur->eintr && !g_cur->woken) { g_cur->eintr = false; sim::count_fault(sim::F_EINTR); errno = EINTR; return -1; }
  }
  if (s->st == Sock::FAILED) { errno = s->err; s->err = 0; return -1; }
  return 0;
}
int shutdown(int fd, int how) noexcept {
  if (!on()) return (int)syscall(SYS_shutdown, fd, how);
  InSim in;
  point("shutdown", PC);
  Sock* s = get_sock(fd, "shutdown", PC);
  if (!s) return -1;
  if (s->st != Sock::CONNECTED || s->rst) { errno = ENOTCONN; return -1; }
  if (how == SHUT_RD || how == SHUT_RDWR) s->shut_rd = true;
  if ((how == SHUT_WR || how == SHUT_RDWR) && !s->shut_wr) {
    s->shut_wr = true;
    Sock* p = s->peer;
    VC* v = new VC(g_cur->vc);
    hb_release(s->tx_vc);
    deliver(s, [p, v] {
      p->fin_rx = true;
      for (int i = 0; i < g_nthreads; i++) if (v->v[i] > p->vc.v[i]) p->vc.v[i] = v->v[i];
      wake_io(p);
    });
  }
  wake_io(s);
  return 0;
}
int getsockopt(int fd, int level, int opt, void* val, socklen_t* len) noexcept {
  if (!on()) return (int)syscall(SYS_getsockopt, fd, level, opt, val, len);
  InSim in;
  Sock* s = get_sock(fd, "getsockopt", PC);
  if (!s) return -1;
  if (level == SOL_SOCKET && (opt == SO_ERROR || opt == SO_TYPE || opt == SO_PROTOCOL)) {
    int v = opt == SO_ERROR ? s->err : opt == SO_TYPE ? s->type : s->proto;
    if (opt == SO_ERROR) s->err = 0;
    __builtin_memcpy(val, &v, std::min<size_t>(*len, 4));
    return 0;
  }
  auto it = s->opts.find({level, opt});
  if (it == s->opts.end()) { __builtin_memset(val, 0, *len); return 0; }
  *len = std::min<socklen_t>(*len, it->second.size());
  __builtin_memcpy(val, it->second.data(), *len);
  return 0;
}
int setsockopt(int fd, int level, int opt, const void* val, socklen_t len) noexcept {
  if (!on()) return (int)syscall(SYS_setsockopt, fd, level, opt, val, len);
  InSim in;
  Sock* s = get_sock(fd, "setsockopt", PC);
  if (!s) return -1;
  s->opts[{level, opt}].assign((const char*)val, (const char*)val + len);
  return 0;
}
static int name_out(const Addr& a, struct sockaddr* sa, socklen_t* len) {
  sockaddr_storage st;
  socklen_t n = to_sa(a, &st);
  __builtin_memcpy(sa, &st, std::min(n, *len));
  *len = n;
  return 0;
}
int getsockname(int fd, struct sockaddr* sa, socklen_t* len) noexcept {
  if (!on()) return (int)syscall(SYS_getsockname, fd, sa, len);
  InSim in;
  Sock* s = get_sock(fd, "getsockname", PC);
  if (!s) return -1;
  return name_out(s->local, sa, len);
}
int getpeername(int fd, struct sockaddr* sa, socklen_t* len) noexcept {
  if (!on()) return (int)syscall(SYS_getpeername, fd, sa, len);
  InSim in;
  Sock* s = get_sock(fd, "getpeername", PC);
  if (!s) return -1;
  if (s->st != Sock::CONNECTED) { errno = ENOTCONN; return -1; }
  return name_out(s->remote, sa, len);
}
int getaddrinfo(const char* name, const char* service, const struct addrinfo* hints, struct addrinfo** out) {
  if (!on()) return EAI_FAIL;
  InSim in;
  point("getaddrinfo", PC);
  std::vector<Addr> list;
  int port = service ? atoi(service) : 0;
  bool passive = hints && (hints->ai_flags & AI_PASSIVE);
  if (!name) {
    for (int v6 = 1; v6 >= 0; v6--) { Addr a; a.v6 = v6; a.ip = passive ? 0 : (v6 ? 1 : 0x7f000001); list.push_back(a); }
  } else {
    auto it = g_dns->find(name);
    if (it == g_dns->end()) {
      if (!strcmp(name, "localhost")) {
        for (int v6 = 1; v6 >= 0; v6--) { Addr a; a.v6 = v6; a.ip = v6 ? 1 : 0x7f000001; list.push_back(a); }
      } else return EAI_NONAME;
    } else {
      Dns& d = it->second;
      if (d.delay) { sim::count_fault(sim::F_DNS_DELAY); block(W_SLEEP, nullptr, g_now + d.delay, "getaddrinfo", PC); }
      if (d.fail) { sim::count_fault(sim::F_DNS_FAIL); return d.fail; }
      for (auto& h : d.a) { Addr a; a.v6 = h.v6; a.ip = h.ip; list.push_back(a); }
    }
  }
  struct addrinfo* head = nullptr;
  struct addrinfo** tail = &head;
  for (auto& a : list) {
    a.port = (uint16_t)port;
    if (hints && hints->ai_family != AF_UNSPEC && hints->ai_family != (a.v6 ? AF_INET6 : AF_INET)) continue;
    int save = t_in_sim;
    t_in_sim = 0;
    auto* ai = (struct addrinfo*)calloc(1, sizeof(struct addrinfo));
    auto* st = (sockaddr_storage*)calloc(1, sizeof(sockaddr_storage));
    t_in_sim = save;
    ai->ai_family = a.v6 ? AF_INET6 : AF_INET;
    ai->ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM;
    ai->ai_protocol = IPPROTO_TCP;
    ai->ai_addrlen = to_sa(a, st);
    ai->ai_addr = (sockaddr*)st;
    *tail = ai;
    tail = &ai->ai_next;
  }
  if (!head) return EAI_NONAME;
  *out = head;
  return 0;
}
void freeaddrinfo(struct addrinfo* ai) noexcept {
  while (ai) {
    auto* n = ai->ai_next;
    free(ai->ai_addr);
    free(ai);
    ai = n;
  }
}
}
