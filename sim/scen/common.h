// Shared helpers for scenarios: swarm fault mixes, cancellation at arbitrary
// instants, operation histories and a small linearizability checker.
#pragma once
#include <chrono>
#include <functional>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>
#include "arpc/awaitable.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/select.h"
#include "arpc/thread.h"
#include "arpc/wait.h"
#include "sim.h"

namespace sc {
// Mostly a few, now and then a crowd.
inline uint32_t few(uint32_t lo, uint32_t hi, uint32_t many) { return sim::chance(sim::OPS, 1, 25) ? sim::range(sim::OPS, lo, many) : sim::range(sim::OPS, lo, hi); }

using sim::CFG;
using sim::FAULT;
using sim::NET;
using sim::OPS;
using ms = std::chrono::milliseconds;

// Swarm: each run enables a random subset of the local (non-network) faults.
inline void local_faults() {
  auto& f = sim::faults();
  if (sim::chance(CFG, 1, 3)) f.eintr = sim::chance(CFG, 1, 2) ? 30000 : 200000;
  if (sim::chance(CFG, 1, 3)) f.spurious_wake = 150000;
  if (sim::chance(CFG, 1, 4)) f.stall = sim::chance(CFG, 1, 2) ? 2000 : 15000;
}
inline void net_faults() {
  auto& f = sim::faults();
  local_faults();
  static const uint32_t lat[] = {50, 10, 500, 5000};
  f.lat_min_us = lat[sim::pick(CFG, 4)];
  f.lat_max_us = f.lat_min_us;
  if (sim::chance(CFG, 1, 2)) f.lat_max_us = f.lat_min_us * (2 + sim::pick(CFG, 20));
  if (sim::chance(CFG, 1, 2)) { static const uint32_t seg[] = {1, 3, 17, 200}; f.seg_max = seg[sim::pick(CFG, 4)]; }
  if (sim::chance(CFG, 1, 3)) f.short_read = 300000;
  if (sim::chance(CFG, 1, 3)) f.short_write = 300000;
  if (sim::chance(CFG, 1, 4)) f.spurious_ready = 30000;
  if (sim::chance(CFG, 1, 4)) { static const uint32_t b[] = {64, 7, 400, 4096}; f.sndbuf = b[sim::pick(CFG, 4)]; }
}
// A short, random pause of the calling thread.
inline void pause() {
  switch (sim::weighted(OPS, {4, 3, 2, 1})) {
    case 0: return;
    case 1: for (uint32_t i = sim::pick(OPS, 4); i; i--) sim::yield(); return;
    case 2: sim::sleep_us(1 + sim::pick(OPS, 200)); return;
    default: sim::sleep_us(1000 + sim::pick(OPS, 4000)); return;
  }
}

// Joins every thread at scope exit; an escaping exception is a violation.
class Crew {
 public:
  ~Crew() { join(); }
  template <typename F>
  void add(F f) {
    ts_.emplace_back([f]() mutable { f(); });
  }
  void join() {
    for (auto& t : ts_) if (t.joinable()) t.join();
    ts_.clear();
  }
 private:
  std::vector<std::thread> ts_;
};

// Contexts that some other thread may cancel at any instant.
class CancelHub {
 public:
  void enter(arpc::context* c) { std::scoped_lock l(mu_); live_.push_back(c); }
  void leave(arpc::context* c) {
    std::scoped_lock l(mu_);
    for (size_t i = 0; i < live_.size(); i++) if (live_[i] == c) { live_.erase(live_.begin() + i); break; }
  }
  bool cancel_one() {
    std::scoped_lock l(mu_);
    if (live_.empty()) return false;
    live_[sim::pick(OPS, (uint32_t)live_.size())]->cancel();
    sim::count_fault(sim::F_CANCEL);
    return true;
  }
 private:
  std::mutex mu_;
  std::vector<arpc::context*> live_;
};
// A fresh context for the calling thread, registered with the hub.
class Scope {
 public:
  explicit Scope(CancelHub& h) : h_(h) { h_.enter(&ctx); }
  ~Scope() { h_.leave(&ctx); }
  arpc::context ctx;
 private:
  CancelHub& h_;
};

// ---- histories -----------------------------------------------------------
struct Op {
  int thread = 0;
  std::string name;
  int64_t arg = 0, res = 0;
  uint64_t inv = 0, ret = UINT64_MAX;  // UINT64_MAX: never returned
};
class History {
 public:
  int begin(const char* name, int64_t arg = 0) {
    sim::Quiet q;
    Op o;
    o.thread = sim::tid();
    o.name = name;
    o.arg = arg;
    o.inv = sim::seq();
    ops.push_back(o);
    sim::note("%s(%lld) t%d begins", name, (long long)arg, o.thread);
    return (int)ops.size() - 1;
  }
  void end(int i, int64_t res = 0) {
    sim::Quiet q;
    ops[i].res = res;
    ops[i].ret = sim::seq();
    sim::note("%s(%lld) t%d -> %lld", ops[i].name.c_str(), (long long)ops[i].arg, ops[i].thread, (long long)res);
  }
  void drop(int i) {   // the operation reported failure: it must have had no effect
    sim::Quiet q;
    ops[i].name = "";
    sim::note("op %d t%d dropped", i, ops[i].thread);
  }
  std::string text() const {
    std::string s;
    for (auto& o : ops) {
      if (o.name.empty()) continue;
      char b[160];
      snprintf(b, sizeof b, "\n    t%d %s(%lld)=%lld [%llu,%llu]", o.thread, o.name.c_str(), (long long)o.arg, (long long)o.res,
               (unsigned long long)o.inv, o.ret == UINT64_MAX ? 0ULL : (unsigned long long)o.ret);
      s += b;
    }
    return s;
  }
  std::vector<Op> ops;
};

// Wing & Gong search with memoisation.  apply(state, op) returns false when
// the op's result is impossible in that state; State is a string.
template <typename F>
bool linearizable(const History& h, const std::string& init, F apply) {
  sim::Quiet q;
  std::vector<Op> ops;
  for (auto& o : h.ops) if (!o.name.empty()) ops.push_back(o);
  if (ops.size() > 40) return true;
  uint64_t must = 0;
  for (size_t i = 0; i < ops.size(); i++) if (ops[i].ret != UINT64_MAX) must |= 1ULL << i;
  std::unordered_set<std::string> seen;
  size_t budget = 400000;
  std::function<bool(uint64_t, const std::string&)> go = [&](uint64_t done, const std::string& st) {
    if ((done & must) == must) return true;
    if (budget == 0) return true;  // undecided: not a violation
    --budget;
    std::string key = std::string((const char*)&done, 8) + st;
    if (!seen.insert(key).second) return false;
    uint64_t min_ret = UINT64_MAX;
    for (size_t i = 0; i < ops.size(); i++)
      if (!(done >> i & 1) && ops[i].ret < min_ret) min_ret = ops[i].ret;
    for (size_t i = 0; i < ops.size(); i++) {
      if ((done >> i & 1) || ops[i].inv > min_ret) continue;
      std::string s2 = st;
      if (apply(s2, ops[i]) && go(done | 1ULL << i, s2)) return true;
    }
    return false;
  };
  bool ok = go(0, init);
  if (budget == 0) sim::probe("linearizability-undecided");
  return ok;
}

enum Outcome { DONE, CANCELED, LATE, TIMEOUT, AGAIN, OTHER };
template <typename F>
Outcome outcome(F f) {
  try {
    return f() ? DONE : TIMEOUT;
  } catch (const arpc::errors::cancelled&) {
    return CANCELED;
  } catch (const arpc::errors::deadline_exceeded&) {
    return LATE;
  } catch (const arpc::errors::try_again&) {
    return AGAIN;
  } catch (const std::exception& e) {
    sim::fail("unexpected-exception", "an operation that cannot fail that way threw: %s", e.what());
  }
}

}  // namespace sc
