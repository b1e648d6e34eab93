// History machine over streaming objects: any number of live streams of mixed kinds, fed in arbitrary chunks,
// peeked, forked, assigned over, self-assigned, moved and dropped. The model of a stream is the byte string it saw.
#pragma once
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <vector>

#include "sim.h"

namespace sm {

// Hands out an exact-size heap copy so ASAN sees any access beyond the chunk, and clobbers it after use so a
// retained view shows up as a wrong result.
struct Exact {
  explicit Exact(std::string_view s) : n(s.size()), p(n ? static_cast<char*>(malloc(n)) : nullptr) {
    if (n) memcpy(p, s.data(), n);
  }
  ~Exact() {
    if (p) {
      memset(p, 0xA5, n);
      free(p);
    }
  }
  std::string_view view() const { return {p, n}; }
  size_t n;
  char* p;
};

struct Stream {
  virtual ~Stream() = default;
  virtual void Update(std::string_view s) = 0;
  virtual std::string Finalize() const = 0;
  virtual std::unique_ptr<Stream> Clone() const = 0;
  virtual void Assign(const Stream& o) = 0;  // same concrete type
  virtual void SelfMoveRoundTrip() = 0;
};

struct Kind {
  std::string name;
  size_t block;
  size_t big;  // a larger structural unit (e.g. BLAKE3 chunk), or block
  // Creates a stream. May draw parameters (keys, seeds, ...), recorded in `params` for the log and the oracles.
  std::function<std::unique_ptr<Stream>(std::vector<std::string>& params)> make;
  std::function<std::string(const std::vector<std::string>& params, const std::string& msg)> ref;      // oracle
  std::function<std::string(const std::vector<std::string>& params, std::string_view msg)> oneshot;  // real one-shot
};

struct Live {
  int kind = -1;
  std::vector<std::string> params;
  std::unique_ptr<Stream> s;
  std::string msg;
  uint64_t gen = 0;  // assign-compat id (kind instance incl. concrete type)
};

inline void Verify(const std::vector<Kind>& kinds, const Live& l, const char* where) {
  const Kind& k = kinds[l.kind];
  const std::string got = l.s->Finalize();
  const std::string want = k.ref(l.params, l.msg);
  SIM_CHECK(got == want, "stream-mismatch", "%s: %s after %zu bytes: stream gives %s, reference gives %s", where,
            k.name.c_str(), l.msg.size(), sim::Hex(got, 80).c_str(), sim::Hex(want, 80).c_str());
}

inline void VerifyOneShot(const std::vector<Kind>& kinds, const Live& l) {
  const Kind& k = kinds[l.kind];
  if (!k.oneshot) return;
  Exact e(l.msg);
  const std::string got = k.oneshot(l.params, e.view());
  const std::string want = k.ref(l.params, l.msg);
  SIM_CHECK(got == want, "oneshot-mismatch", "%s of %zu bytes: one-shot gives %s, reference gives %s", k.name.c_str(),
            l.msg.size(), sim::Hex(got, 80).c_str(), sim::Hex(want, 80).c_str());
}

inline void Run(const std::vector<Kind>& kinds, size_t max_total) {
  std::vector<Live> live;
  // Swarm: each run concentrates on few kinds and one size regime.
  const uint32_t nk = 1 + sim::Choose(3);
  std::vector<int> use;
  for (uint32_t i = 0; i < nk; ++i) use.push_back(sim::Choose(kinds.size()));
  const uint32_t regime = sim::Choose(4);  // 0: tiny chunks, 1: boundary hunting, 2: big, 3: mixed
  const uint32_t max_ops = 4 + sim::Choose(40);
  int updates = 0, peeks = 0, forks = 0;
  auto chunk_len = [&](const Live& l) -> size_t {
    const Kind& k = kinds[l.kind];
    const size_t room = max_total > l.msg.size() ? max_total - l.msg.size() : 0;
    const size_t unit = sim::Chance(1, 3) ? k.big : k.block;
    const size_t to_boundary = unit - l.msg.size() % unit;
    size_t n;
    uint32_t how = regime == 3 ? sim::Choose(4) : regime;
    if (max_total > 100000 && sim::Chance(1, 2)) return std::min<size_t>(room, sim::Choose(static_cast<uint32_t>(max_total / 2)));
    switch (how) {
      case 0: n = sim::Choose(12); break;
      case 1: {
        const uint32_t d = sim::Choose(8);
        n = to_boundary + unit * sim::Choose(3);
        if (d < 3) n -= std::min<size_t>(n, d);           // at / just below a boundary
        else if (d < 5) n += d - 2;                       // just above
        else n = std::min<size_t>(n, 9 + sim::Choose(64));  // padding tail area
        break;
      }
      case 2: n = sim::SizeNear(unit, room); break;
      default: n = sim::Choose(static_cast<uint32_t>(3 * unit)); break;
    }
    return std::min(n, room);
  };
  for (uint32_t op = 0; op < max_ops; ++op) {
    sim::Span span("op");
    const uint32_t what = live.empty() ? 1 : sim::Choose(16);
    if (what == 1 || what == 2) {
      if (live.size() >= 6) continue;
      Live l;
      l.kind = use[sim::Choose(use.size())];
      l.gen = l.kind;
      l.s = kinds[l.kind].make(l.params);
      std::string p;
      for (auto& x : l.params) p += " " + std::to_string(x.size()) + ":" + sim::Hex(x, 16);
      sim::Ev("new #%zu %s%s", live.size(), kinds[l.kind].name.c_str(), p.c_str());
      live.push_back(std::move(l));
      continue;
    }
    const uint32_t i = sim::Choose(live.size());
    Live& l = live[i];
    switch (what) {
      case 0: {
        sim::Ev("empty update #%u", i);
        if (sim::Chance(1, 2)) l.s->Update(std::string_view{}); else l.s->Update(std::string_view("x", 0));
        break;
      }
      default: {
        const size_t n = chunk_len(l);
        const std::string b = sim::Blob(n);
        sim::Ev("update #%u at %zu +%zu %08x", i, l.msg.size(), n, static_cast<unsigned>(sim::Hash64(b)));
        {
          Exact e(b);
          l.s->Update(e.view());
        }
        l.msg += b;
        ++updates;
        const Kind& k = kinds[l.kind];
        sim::State(sim::Hash64(k.name) ^ (l.msg.size() % k.block) * 0x9e3779b97f4a7c15ULL ^ (std::min<size_t>(l.msg.size() / k.block, 40) << 20) ^ (uint64_t{n % k.block} << 40));
        break;
      }
      case 9: case 10: {
        Verify(kinds, l, "peek");
        Verify(kinds, l, "second peek");
        sim::Ev("peek #%u at %zu", i, l.msg.size());
        ++peeks;
        break;
      }
      case 11: {
        if (live.size() >= 6) break;
        Live c;
        c.kind = l.kind; c.params = l.params; c.msg = l.msg; c.gen = l.gen;
        c.s = l.s->Clone();
        sim::Ev("fork #%u -> #%zu at %zu", i, live.size(), l.msg.size());
        live.push_back(std::move(c));
        ++forks;
        break;
      }
      case 12: {
        const uint32_t j = sim::Choose(live.size());
        if (live[j].gen != l.gen) break;
        sim::Ev("assign #%u := #%u", i, j);
        l.s->Assign(*live[j].s);
        l.msg = std::string(live[j].msg);
        l.params = std::vector<std::string>(live[j].params);
        ++forks;
        break;
      }
      case 13: {
        sim::Ev("move round trip #%u", i);
        l.s->SelfMoveRoundTrip();
        break;
      }
      case 14: {
        Verify(kinds, l, "final");
        VerifyOneShot(kinds, l);
        sim::Ev("close #%u at %zu", i, l.msg.size());
        live.erase(live.begin() + i);
        break;
      }
      case 15: {
        sim::Ev("abandon #%u", i);
        live.erase(live.begin() + i);
        break;
      }
    }
  }
  for (auto& l : live) {
    Verify(kinds, l, "final");
    VerifyOneShot(kinds, l);
  }
  if (updates >= 2) sim::NonTrivial();
  if (peeks) sim::Probe("run with mid-stream finalise");
  if (forks) sim::Probe("run with fork/assign");
}

}  // namespace sm
