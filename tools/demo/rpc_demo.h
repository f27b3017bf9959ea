// A server, a client and a breakable TCP relay for demonstrations.
#pragma once
#include <arpa/inet.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <mutex>
#include <optional>
#include <string>
#include <thread>
#include <utility>
#include <vector>
#include "arpc/address_resolver.h"
#include "arpc/client.h"
#include "arpc/interface.h"
#include "arpc/mpt.h"
#include "arpc/server.h"
#include "arpc/thread.h"

using namespace std::chrono_literals;

ARPC_INTERFACE(Echo, (), (((std::string), echo, (((std::string), what))), ((int64_t), poke, (((int64_t), n)))));

struct EchoImpl : public Echo {
  std::function<std::string(std::string)> on_echo = [](std::string s) { return s; };
  std::function<int64_t(int64_t)> on_poke = [](int64_t n) { return n; };
  std::string echo(std::string s) override { return on_echo(std::move(s)); }
  int64_t poke(int64_t n) override { return on_poke(n); }
};
using Client = arpc::client_connection<>;
using Server = arpc::server<>;

inline int listen_on(uint16_t& port) {
  int l = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1;
  setsockopt(l, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  a.sin_port = htons(port);
  if (bind(l, (sockaddr*)&a, sizeof a) || listen(l, 64)) { perror("bind"); exit(9); }
  socklen_t n = sizeof a;
  getsockname(l, (sockaddr*)&a, &n);
  port = ntohs(a.sin_port);
  return l;
}
inline uint16_t free_port() {
  uint16_t p = 0;
  int l = listen_on(p);
  ::close(l);
  return p;
}
inline int connect_to(uint16_t port) {
  int s = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  a.sin_port = htons(port);
  if (connect(s, (sockaddr*)&a, sizeof a)) { ::close(s); return -1; }
  return s;
}
inline arpc::endpoint ep(uint16_t port) { return arpc::endpoint().name("127.0.0.1").port(port); }

// Forwards connections to a port until told to break them.
struct Relay {
  uint16_t port = 0, to;
  int l;
  std::mutex mu;
  std::vector<std::pair<int, int>> conns;
  std::atomic<int> accepted{0};
  std::vector<std::thread> ts;
  std::atomic<bool> stop{false};
  explicit Relay(uint16_t to) : to(to) {
    l = listen_on(port);
    ts.emplace_back([this] {
      while (!stop) {
        pollfd p{l, POLLIN, 0};
        if (poll(&p, 1, 20) <= 0) continue;
        int a = ::accept(l, nullptr, nullptr), b = connect_to(this->to);
        if (b < 0) { ::close(a); continue; }
        std::scoped_lock k(mu);
        conns.emplace_back(a, b);
        accepted++;
        ts.emplace_back([this, a, b] { pump(a, b); });
        ts.emplace_back([this, a, b] { pump(b, a); });
      }
    });
  }
  void pump(int a, int b) {
    char buf[4096];
    for (;;) {
      ssize_t n = ::recv(a, buf, sizeof buf, 0);
      if (n <= 0) break;
      if (::send(b, buf, n, MSG_NOSIGNAL) < 0) break;
    }
    ::shutdown(a, SHUT_RDWR);
    ::shutdown(b, SHUT_RDWR);
  }
  void break_all() {
    std::scoped_lock k(mu);
    for (auto& c : conns) { ::shutdown(c.first, SHUT_RDWR); ::shutdown(c.second, SHUT_RDWR); }
  }
  ~Relay() {
    stop = true;
    ts[0].join();
    break_all();
    for (size_t i = 1; i < ts.size(); i++) ts[i].join();
    for (auto& c : conns) { ::close(c.first); ::close(c.second); }
    ::close(l);
  }
};
template <typename F> std::string kind(F f) {
  try { f(); return "ok"; }
  catch (...) { return arpc::error_factory::analyze_exception(std::current_exception()).first; }
}
template <typename F> bool within(std::chrono::milliseconds t, F f) {
  auto e = std::chrono::steady_clock::now() + t;
  while (!f()) { if (std::chrono::steady_clock::now() > e) return false; std::this_thread::sleep_for(1ms); }
  return true;
}
inline double now_s() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
