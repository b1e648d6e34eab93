// Shared by the file harnesses: contents, trees and the oracle for "exact bytes or an error".
#pragma once
#include <algorithm>
#include <climits>
#include <set>
#include <string>
#include <vector>

#include "sim/sim.h"
#include "sim/vfs.h"

namespace fc {
// Content without NUL bytes when `text`, sizes around stream buffer boundaries.
inline std::string Content(bool text, size_t max = 70000) {
  size_t n;
  switch (sim::Choose(5)) {
    case 0: n = sim::Range(0, 40); break;
    case 1: n = sim::SizeNear(8191, 20000); break;
    case 2: n = sim::SizeNear(4096, 20000); break;
    case 3: n = sim::SizeNear(1024, 5000); break;
    default: n = sim::SizeNear(65536, max); break;
  }
  n = std::min(n, max);
  std::string s;
  if (!text) return sim::Blob(n);
  const uint64_t seed = sim::Raw64();
  uint64_t x = seed | 1;
  const uint32_t nl = 1 + sim::Choose(90);
  s.reserve(n);
  for (size_t i = 0; i < n; ++i) {
    x = x * 6364136223846793005ULL + 1442695040888963407ULL;
    const uint32_t r = static_cast<uint32_t>(x >> 33);
    s += r % nl == 0 ? '\n' : r % 97 == 1 ? '\r' : r % 89 == 2 ? '\xff' : static_cast<char>('!' + (r >> 8) % 90);
  }
  return s;
}
// Whatever a file can hold: text, DOS text, byte order marks, control-Z, NUL bytes, random bytes; rarely very large.
inline std::string AnyContent(bool huge = false) {
  if (huge) {
    sim::Probe("file beyond 16 MiB");
    return sim::Blob((size_t{1} << 24) - 1 + (sim::Chance(2, 3) ? sim::Choose(4) : sim::Choose(70000)) + (sim::Chance(1, 5) ? (size_t{1} << 24) : 0));
  }
  if (sim::Chance(1, 4)) return Content(false);
  std::string s = Content(true);
  switch (sim::Choose(8)) {
    case 0: {
      std::string r;
      r.reserve(s.size() + s.size() / 8);
      for (const char c : s) {
        if (c == '\n') r += '\r';
        r += c;
      }
      return r;
    }
    case 1: return "\xef\xbb\xbf" + s;
    case 2: {
      for (size_t i = sim::Range(0, 60); i < s.size(); i += 1 + sim::Range(0, 2000)) s[i] = sim::Chance(1, 2) ? '\0' : '\x1a';
      return s;
    }
    case 3: return s + (sim::Chance(1, 2) ? "\n" : "\n\n");
    case 4: {
      for (char& c : s)
        if (c == '\n') c = ' ';
      return s;
    }
    default: return s;
  }
}
inline std::string FirstLines(const std::string& s, size_t n) {
  size_t pos = 0;
  for (size_t i = 0; i < n; ++i) {
    const size_t q = s.find('\n', pos);
    if (q == std::string::npos) return s;
    pos = q + 1;
  }
  return s.substr(0, pos);
}
inline vfs::Plan Draw(unsigned mask, int horizon) {
  switch (sim::Choose(8)) {
    case 0:
    case 1: return vfs::DrawPlan(vfs::Mood::kHealthy, mask, horizon);
    case 2:
    case 3: return vfs::DrawPlan(vfs::Mood::kBenign, mask, horizon);
    case 4:
    case 5: return vfs::DrawPlan(vfs::Mood::kOneHard, mask, horizon);
    default: return vfs::DrawPlan(vfs::Mood::kHostile, mask, horizon);
  }
}
inline bool Hard() { return !vfs::HardFaults().empty(); }
inline std::string FaultText() {
  std::string r;
  for (auto& f : vfs::HardFaults()) {
    if (r.size() > 300) return r + "...";
    r += std::string(vfs::OpName(f.op)) + "(" + f.path + ")=" + std::to_string(f.err) + " ";
  }
  return r.empty() ? "none" : r;
}
inline void NoLeak(const char* what) {
  SIM_CHECK(vfs::OpenFds() == 0, "leak", "%s left open: %s (faults: %s)", what, vfs::FdList().c_str(), FaultText().c_str());
}
constexpr unsigned kReadOps = 1u << vfs::kOpen | 1u << vfs::kRead | 1u << vfs::kSeek | 1u << vfs::kClose | 1u << vfs::kStat;
constexpr unsigned kWriteOps = 1u << vfs::kOpen | 1u << vfs::kWrite | 1u << vfs::kSeek | 1u << vfs::kClose | 1u << vfs::kStat;
}  // namespace fc
