// C06: Demangle under allocation failure inside the demangler, allocation audit and concurrent callers.
#include <cxxabi.h>

#include <functional>
#include <map>
#include <string>
#include <vector>

#include "mbo/log/demangle.h"
#include "sim/alloc.h"
#include "sim/sim.h"
#include "sim/simsched.h"

namespace tree {
struct Base { virtual ~Base() = default; };
struct Derived : Base { int x = 0; };
template <class T, int N> struct Tmpl : Base { T t[N]; };
}  // namespace tree

namespace {
std::string Source() {
  static const char* kNames[] = {"a", "foo", "operator_like", "N", "very_long_identifier_name_to_fill_the_growable_buffer", "E0"};
  const std::string n = kNames[sim::Choose(6)];
  return std::to_string(n.size()) + n;
}
std::string Type(int depth) {
  static const char* kBuiltin[] = {"i", "v", "c", "b", "d", "j", "x", "Ss", "Sa", "Di", "Dn", "e", "h"};
  if (depth <= 0) return kBuiltin[sim::Choose(13)];
  switch (sim::Choose(11)) {
    case 0: return kBuiltin[sim::Choose(13)];
    case 1: return "P" + Type(depth - 1);
    case 2: return "R" + Type(depth - 1);
    case 3: return "K" + Type(depth - 1);
    case 4: return "A" + std::to_string(sim::Choose(20)) + "_" + Type(depth - 1);
    case 5: { std::string s = "St6vectorI"; const std::string t = Type(depth - 1); return s + t + "SaI" + t + "EE"; }
    case 6: { std::string s = "St5tupleIJ"; for (uint32_t i = 0, n = sim::Choose(4); i < n; ++i) s += Type(depth - 1); return s + "EE"; }
    case 7: { std::string s = "N"; for (uint32_t i = 0, n = 1 + sim::Choose(4); i < n; ++i) s += Source(); return s + "E"; }
    case 8: { std::string s = Source() + "I"; for (uint32_t i = 0, n = 1 + sim::Choose(3); i < n; ++i) s += sim::Chance(1, 3) ? "Li" + std::to_string(sim::Choose(99)) + "E" : Type(depth - 1); return s + "E"; }
    case 9: { std::string s = "PF" + Type(depth - 1); for (uint32_t i = 0, n = 1 + sim::Choose(3); i < n; ++i) s += Type(depth - 1); return s + "E"; }
    default: return "M" + Source() + Type(depth - 1);
  }
}
std::string Name() {
  std::string s;
  switch (sim::Choose(8)) {
    case 0: return "";
    case 1: s = sim::Blob(sim::Choose(40)); break;
    case 2: s = "_Z" + Source() + Type(sim::Choose(3)); break;
    case 3: { s = "NSt"; for (uint32_t i = 0, n = sim::Choose(60); i < n; ++i) s += Source(); s += "E"; break; }
    case 4: s = std::string("not a mangled name ") + std::to_string(sim::Choose(100)); break;
    default: s = Type(sim::Choose(6)); break;
  }
  if (!s.empty() && sim::Chance(1, 5)) {
    if (sim::Chance(1, 2)) s.resize(sim::Choose(s.size())); else s[sim::Choose(s.size())] = static_cast<char>(32 + sim::Choose(95));
  }
  const size_t nul = s.find('\0');
  if (nul != std::string::npos) s.resize(nul);
  return s;
}
std::string Expect(const std::string& in) {
  int st = 0;
  char* d = abi::__cxa_demangle(in.c_str(), nullptr, nullptr, &st);
  std::string r = st == 0 && d ? d : in;
  free(d);
  return r;
}
struct Call { std::string in; int obj; std::string out; bool armed; };

void Run() {
  const bool threads = sim::Chance(1, 2);
  const int nt = threads ? 2 + sim::Choose(2) : 1;
  std::vector<std::vector<Call>> calls(nt);
  for (auto& c : calls)
    for (uint32_t i = 0, n = 1 + sim::Choose(threads ? 3 : 6); i < n; ++i) c.push_back({Name(), static_cast<int>(sim::Choose(8)), "", false});
  // The failing allocation is counted over all threads.
  const uint32_t fail_at = sim::Chance(2, 3) ? 1 + sim::Choose(threads ? 8 : 6) : 0;
  const bool sticky = sim::Chance(1, 4);
  auto one = [&](Call& c) {
    switch (c.obj) {
      case 1: { tree::Derived d; tree::Base& b = d; c.in = typeid(b).name(); c.out = mbo::log::DemangleV(b); break; }
      case 2: { tree::Tmpl<std::map<std::string, int>, 3> d; tree::Base& b = d; c.in = typeid(b).name(); c.out = mbo::log::DemangleV(b); break; }
      default: {
        // exact-size copy: nothing past the terminator may be needed
        std::vector<char> copy(c.in.begin(), c.in.end());
        copy.push_back(0);
        copy.shrink_to_fit();
        c.out = mbo::log::Demangle(copy.data());
        for (char& ch : copy) ch = 'i';
        break;
      }
    }
  };
  simalloc::StartAudit();
  int64_t leaked = 0;
  if (!threads) {
    // The same batch again and again: a block kept for reuse is fine, one more per round is a leak.
    int64_t out[3];
    for (int round = 0; round < 3; ++round) {
      simalloc::Arm(fail_at, sticky);
      for (auto& x : calls[0]) one(x), x.out.clear();
      out[round] = simalloc::Outstanding();
    }
    if (out[2] > out[1] && out[1] > out[0]) leaked = out[2] - out[1];
  }
  simalloc::Arm(fail_at, sticky);
  if (threads) {
    sched::Begin();
    for (auto& c : calls) sched::Spawn([&] { for (auto& x : c) one(x); });
    sched::RunAll();
  } else {
    for (auto& x : calls[0]) {
      const uint32_t before = simalloc::Failed();
      one(x);
      x.armed = simalloc::Failed() == before;  // no failure during this call: must be the real demangling
    }
  }
  const uint32_t failed = simalloc::Failed(), made = simalloc::Calls();
  simalloc::Disarm();
  if (threads && simalloc::Outstanding() > nt) leaked = simalloc::Outstanding();
  simalloc::StopAudit();
  if (failed) sim::Fault(sticky ? "allocation failure (persistent)" : "allocation failure (single)", failed);
  SIM_CHECK(leaked == 0, "leak", "%lld C-level blocks more are left allocated by the calls (%u allocations, %u failed)", (long long)leaked, made, failed);
  uint32_t demangled = 0;
  for (int t = 0; t < nt; ++t)
    for (auto& x : calls[t]) {
      const std::string want = Expect(x.in);
      const bool ok = x.out == want || (x.out == x.in && failed > 0 && !(nt == 1 && x.armed));
      SIM_CHECK(ok, failed ? "wrong-after-alloc-failure" : "wrong-name", "t%d Demangle(%s) = %s, want %s%s", t, sim::Quote(x.in).c_str(), sim::Quote(x.out, 200).c_str(),
                sim::Quote(want, 200).c_str(), failed ? " or the input" : "");
      if (want != x.in) ++demangled;
      sim::Ev("t%d %s -> %s", t, sim::Quote(x.in, 60).c_str(), sim::Quote(x.out, 60).c_str());
      sim::State(sim::Hash64(x.in) ^ (x.out == x.in ? 1 : 2));
    }
  if (demangled && (failed || sched::Switches())) sim::NonTrivial();
  if (failed && demangled) sim::Probe("allocation failed while demangling");
  if (threads) sim::Probe("concurrent run");
}
}  // namespace
const SimHarness kSimHarness = {"C06", Run, nullptr};
