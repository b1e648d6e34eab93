// Sinks with faults and record models for C07 / C08.
#pragma once
#include <iomanip>
#include <iostream>
#include <memory>
#include <source_location>
#include <sstream>
#include <string>
#include <vector>

#include "mbo/log/scoped_log_check.h"
#include "mbo/log/scoped_stream.h"
#include "sim/sim.h"

namespace lc {

// The device end of a sink: accepts bytes until `room` is used up. Stutter accepts a few bytes per call, as a
// descriptor with short writes does (the streambuf, like libc, loops until an error).
struct SinkBuf : std::streambuf {
  std::string got;                 // bytes that reached the device
  std::string pend;                // bytes in the buffer, if buffered
  size_t room = static_cast<size_t>(-1);
  size_t cap = 0;                  // buffer capacity, 0: unbuffered
  uint32_t sync_fail_in = 0;       // fail the n-th sync from now
  bool stutter = false;
  int faults = 0;

  bool Device(const char* s, size_t n, size_t* acc) {
    *acc = 0;
    while (n) {
      size_t k = stutter ? std::min<size_t>(n, 1 + sim::Choose(7)) : n;
      if (stutter && k < n) sim::Fault("short write to sink"), ++faults;
      bool bad = false;
      if (k > room) k = room, bad = true;
      got.append(s, k);
      if (room != static_cast<size_t>(-1)) room -= k;
      s += k; n -= k; *acc += k;
      if (bad) {
        sim::Fault("sink write error");
        ++faults;
        return false;
      }
    }
    return true;
  }
  bool Drain() {
    size_t a;
    const bool ok = Device(pend.data(), pend.size(), &a);
    pend.erase(0, a);
    return ok;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    size_t a = 0;
    if (cap == 0) {
      Device(s, n, &a);
      return a;
    }
    pend.append(s, n);
    if (pend.size() > cap && !Drain()) return 0;
    return n;
  }
  int overflow(int c) override {
    if (c == EOF) return 0;
    const char ch = static_cast<char>(c);
    return xsputn(&ch, 1) == 1 ? static_cast<unsigned char>(ch) : EOF;
  }
  int sync() override {
    if (sync_fail_in && --sync_fail_in == 0) {
      sim::Fault("sink sync error");
      ++faults;
      return -1;
    }
    return Drain() ? 0 : -1;
  }
};

struct Sink {
  SinkBuf buf;
  std::unique_ptr<std::ostream> own;
  std::ostream* os;
  std::string model;     // what must have reached the device, if healthy
  explicit Sink(std::ostream* existing = nullptr) {
    if (existing) {
      os = existing;
      os->rdbuf(&buf);
      os->clear();
    } else {
      own = std::make_unique<std::ostream>(&buf);
      os = own.get();
    }
  }
};

inline std::string Text(uint32_t max = 40) {
  static const char* kSpecial[] = {"", "x", "a\nb", "%s%n", " : ", "[f:1] @g", "\xff\xc3\x28", "tab\there"};
  const uint32_t n = sim::Choose(10);
  if (n < 8) return kSpecial[n];
  std::string s;
  for (uint32_t i = 0, len = n == 9 ? sim::Choose(3000) : sim::Choose(max); i < len; ++i) s += static_cast<char>('a' + (i * 7 + len) % 26);
  if (!s.empty() && sim::Chance(1, 8)) s[sim::Choose(s.size())] = '\0';
  return s;
}
// Streams one random piece into anything that takes <<; mirrored into several streams alike.
struct Piece {
  uint32_t kind;
  std::string text;
  int64_t num;
  Piece() : kind(sim::Choose(8)), text(kind < 3 || kind == 7 ? Text() : ""), num(static_cast<int64_t>(sim::Choose(2000)) - 1000) {}
  template <class S> void To(S& s) const {
    switch (kind) {
      case 0: case 1: s << text; break;
      case 2: s << std::string_view(text); break;
      case 3: s << num; break;
      case 4: s << 1.0 / (1 + std::abs(num)); break;
      case 5: s << static_cast<char>('A' + std::abs(num) % 26); break;
      case 6: s << (num > 0); break;
      default: s << text.c_str(); break;
    }
  }
};
inline std::string Prefix(const std::source_location& l) {
  return std::string("[") + l.file_name() + ":" + std::to_string(l.line()) + "] @" + l.function_name();
}
inline std::string Record(const std::source_location& l, std::string_view msg, const std::string& text) {
  std::string r = Prefix(l);
  if (!msg.empty()) r += " : " + std::string(msg);
  if (!text.empty()) r += " : " + text;
  return r + "\n";
}
}  // namespace lc
