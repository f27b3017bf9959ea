// Sources and sinks that deliver and accept bytes in pieces, end early or fail.
#pragma once
#include <algorithm>
#include <istream>
#include <ostream>
#include <streambuf>
#include "arpc/connection.h"
#include "arpc/io_adapters.h"
#include "arpc/iostream_adapters.h"
#include "arpc/pipe.h"
#include "arpc/string_adapters.h"
#include "common.h"

namespace sc {

struct disk_error : arpc::errors::io_error {
  using arpc::errors::io_error::io_error;
};

// What a source does after `at` bytes: end cleanly, or fail.
struct Cut {
  size_t at = SIZE_MAX;
  bool fail = false;
};

class GetcSource : public arpc::input_stream {
 public:
  GetcSource(const std::string& d, Cut c) : d_(d), c_(c) {}
  std::size_t read(char* p, std::size_t l) override { return arpc::input_stream::read(p, l); }
  char getc() override {
    if (n_ >= std::min(d_.size(), c_.at)) {
      if (c_.fail && n_ >= c_.at) { sim::count_fault(sim::F_SOURCE_FAIL); throw disk_error("source failed"); }
      throw arpc::errors::eof("end of source");
    }
    return d_[n_++];
  }
 private:
  const std::string& d_;
  Cut c_;
  size_t n_ = 0;
};
class ReadSource : public arpc::input_stream {
 public:
  ReadSource(const std::string& d, Cut c) : d_(d), c_(c) {}
  std::size_t read(char* p, std::size_t l) override {
    size_t k = 0;
    while (k < l && n_ < std::min(d_.size(), c_.at)) p[k++] = d_[n_++];
    if (k < l && c_.fail && n_ >= c_.at) { sim::count_fault(sim::F_SOURCE_FAIL); throw disk_error("source failed"); }
    return k;
  }
  char getc() override { return arpc::input_stream::getc(); }
 private:
  const std::string& d_;
  Cut c_;
  size_t n_ = 0;
};
// A file-like buffer: refills with pieces of random size.
class PieceBuf : public std::streambuf {
 public:
  PieceBuf(const std::string& d, Cut c) : d_(d), c_(c) {}
  int_type underflow() override {
    size_t end = std::min(d_.size(), c_.at);
    if (n_ >= end) {
      if (c_.fail && n_ >= c_.at) { sim::count_fault(sim::F_SOURCE_FAIL); throw std::runtime_error("medium error"); }
      return traits_type::eof();
    }
    size_t k = std::min<size_t>(end - n_, 1 + sim::pick(CFG, 3) * sim::pick(CFG, 100));
    buf_.assign(d_, n_, k);
    n_ += k;
    setg(&buf_[0], &buf_[0], &buf_[0] + k);
    return traits_type::to_int_type(buf_[0]);
  }
 private:
  const std::string& d_;
  Cut c_;
  size_t n_ = 0;
  std::string buf_;
};

// Calls f with an input stream of a random kind that delivers d up to the cut.
template <typename F>
void with_source(const std::string& d, Cut c, F f) {
  switch (sim::pick(CFG, c.fail ? 4 : d.size() > 6000 ? 5 : 6)) {
    default: { GetcSource s(d, c); sim::note("source: char by char"); f(s); return; }
    case 1: { ReadSource s(d, c); sim::note("source: blocks"); f(s); return; }
    case 2:
    case 3: {
      PieceBuf b(d, c);
      std::istream is(&b);
      arpc::istream_input_stream s(is);
      sim::note("source: istream");
      f(s);
      return;
    }
    case 4: {
      std::string cut = d.substr(0, std::min(d.size(), c.at));
      arpc::string_input_stream s(cut);
      sim::note("source: string");
      f(s);
      return;
    }
    case 5: {
      // Through the kernel: another thread feeds a pipe and closes it.
      std::string cut = d.substr(0, std::min(d.size(), c.at));
      arpc::channel p[2];
      arpc::pipe(p);
      arpc::channel rd = std::move(p[0]);
      sim::note("source: pipe");
      Crew crew;
      auto wr = std::make_shared<arpc::channel>(std::move(p[1]));
      crew.add([wr, &cut] {
        size_t n = 0;
        try {
          while (n < cut.size()) {
            size_t k = std::min<size_t>(cut.size() - n, 1 + sim::pick(OPS, 4) * sim::pick(OPS, 3000));
            n += wr->write(cut.data() + n, k);
            if (sim::chance(OPS, 1, 8)) sim::yield();
          }
        } catch (const arpc::errors::io_error&) {   // the reader gave up
        }
        wr->close();
      });
      {
        arpc::channel_connection s(std::move(rd));
        f(s);
      }
      return;
    }
  }
}

// ---- sinks ---------------------------------------------------------------
// Where the bytes finally go.  Accepts `cap` bytes, then fails; or fails when
// told to make them durable.
struct Disk {
  std::string data;
  size_t cap = SIZE_MAX;
  bool fail_sync = false;
  bool failed = false;
  // Returns how many were accepted.
  size_t put(const char* p, size_t l) {
    size_t k = std::min(l, cap - std::min(cap, data.size()));
    data.append(p, k);
    if (k < l) { failed = true; sim::count_fault(sim::F_SINK_FAIL); }
    return k;
  }
  bool sync() {
    if (fail_sync) { failed = true; sim::count_fault(sim::F_SINK_FAIL); return false; }
    return true;
  }
};
class PutcSink : public arpc::output_stream {
 public:
  explicit PutcSink(Disk& d) : d_(d) {}
  void write(const char* p, std::size_t l) override { arpc::output_stream::write(p, l); }
  void putc(char c) override { if (!d_.put(&c, 1)) throw disk_error("sink full"); }
  void flush() override { if (!d_.sync()) throw disk_error("cannot sync"); }
 private:
  Disk& d_;
};
class WriteSink : public arpc::output_stream {
 public:
  explicit WriteSink(Disk& d) : d_(d) {}
  void write(const char* p, std::size_t l) override { if (d_.put(p, l) < l) throw disk_error("sink full"); }
  void putc(char c) override { arpc::output_stream::putc(c); }
  void flush() override { if (!d_.sync()) throw disk_error("cannot sync"); }
 private:
  Disk& d_;
};
// Buffered like a file: errors may surface only when the buffer is drained.
class DiskBuf : public std::streambuf {
 public:
  DiskBuf(Disk& d, size_t n, bool throws) : d_(d), buf_(n, 0), throws_(throws) { reset(); }
  int_type overflow(int_type c) override {
    if (!drain()) return fail();
    if (c != traits_type::eof()) {
      if (buf_.empty()) {
        char ch = traits_type::to_char_type(c);
        if (!d_.put(&ch, 1)) return fail();
      } else {
        *pptr() = traits_type::to_char_type(c);
        pbump(1);
      }
    }
    return traits_type::not_eof(c);
  }
  int sync() override {
    if (!drain() || !d_.sync()) { fail(); return -1; }
    return 0;
  }
 private:
  void reset() { setp(buf_.data(), buf_.data() + buf_.size()); }
  bool drain() {
    size_t n = pptr() - pbase();
    size_t k = n ? d_.put(pbase(), n) : 0;
    reset();
    return k == n;
  }
  int_type fail() {
    if (throws_) throw std::runtime_error("medium error");
    return traits_type::eof();
  }
  Disk& d_;
  std::vector<char> buf_;
  bool throws_;
};

// Calls f with an output stream of a random kind that ends up in `d`.  f says
// whether it was told that everything arrived.
template <typename F>
void with_sink(Disk& d, F f) {
  switch (sim::pick(CFG, 4)) {
    case 0:
      if (d.cap == SIZE_MAX && !d.fail_sync) {
        arpc::string_output_stream s(d.data);
        sim::note("sink: string");
        f(s);
        return;
      }
      // fall through
    case 1: { PutcSink s(d); sim::note("sink: char by char"); f(s); return; }
    case 2: { WriteSink s(d); sim::note("sink: blocks"); f(s); return; }
    default: {
      static const uint32_t sizes[] = {0, 1, 7, 64, 4096};
      DiskBuf b(d, sizes[sim::pick(CFG, 5)], sim::chance(CFG, 1, 4));
      std::ostream os(&b);
      if (sim::chance(CFG, 1, 6)) os.exceptions(std::ios::badbit);
      arpc::ostream_output_stream s(os);
      sim::note("sink: ostream");
      f(s);
      return;
    }
  }
}

// Sizes around every place where an encoding changes shape.
inline size_t size_near_edges(bool big = true) {
  static const uint32_t edge[] = {0, 1, 2, 126, 127, 128, 129, 253, 254, 255, 256, 257, 508, 509, 16382, 16383, 16384, 16385};
  switch (sim::weighted(OPS, {5, 4, big ? 1u : 0u})) {
    case 0: return sim::pick(OPS, 12);
    case 1: return edge[sim::pick(OPS, big && sim::chance(OPS, 1, 6) ? 18 : 14)];
    default: return sim::pick(OPS, 40000);
  }
}
inline std::string random_bytes(size_t n) {
  std::string s(n, 0);
  // A few choices decide the whole content, so that traces stay small.
  uint32_t kind = sim::pick(OPS, 5);
  uint64_t x = 0x9E3779B97F4A7C15ULL * (1 + sim::pick(OPS, 1 << 16));
  for (size_t i = 0; i < n; i++) {
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    switch (kind) {
      case 0: s[i] = (char)x; break;
      case 1: s[i] = (char)('a' + x % 26); break;
      case 2: s[i] = (x & 7) ? 0 : (char)(x >> 8); break;
      case 3: s[i] = (char)(1 + (x >> 8) % 255); break;            // no zeroes at all
      default: s[i] = ((x >> 8) % 300) ? (char)(1 + (x >> 20) % 255) : 0;
    }
  }
  return s;
}

}  // namespace sc
