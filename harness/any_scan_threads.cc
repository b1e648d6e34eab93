// C24: threads that only read, over shared scanners and scanner copies, under a simulated schedule.
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <vector>

#include "mbo/container/any_scan.h"
#include "sim/sim.h"
#include "sim/simsched.h"

namespace {
using mbo::container::AnyScan, mbo::container::ConstScan, mbo::container::ConvertingScan;
#define UNSEEN [[gnu::no_sanitize("thread"), gnu::noinline]]
int g_live, g_died_twice;
UNSEEN void Count(int d) { g_live += d; }
UNSEEN int LiveNow() { return g_live; }

// A value that counts the living and goes bad when destroyed.
struct Val {
  uint32_t magic = 0x600d600d;
  int v;
  Val(int x) : v(x) { Count(1); }  // NOLINT
  Val(const Val& o) : magic(o.magic), v(o.v) { Count(1); }
  Val(Val&& o) noexcept : magic(o.magic), v(o.v) { Count(1); }
  Val& operator=(const Val&) = delete;
  ~Val() {
    if (magic != 0x600d600d) ++g_died_twice;
    magic = 0xdeadbeef;
    Count(-1);
  }
  friend bool operator<(const Val& a, const Val& b) { return a.v < b.v; }
  friend bool operator==(const Val& a, const Val& b) { return a.v == b.v; }
};
struct Copy {
  int v;
  Copy(const Val& x) : v(x.magic == 0x600d600d ? x.v : -1) {}  // NOLINT
};
int Value(const Val& x) { return x.magic == 0x600d600d ? x.v : -1; }
int Value(const Copy& x) { return x.v; }
int Value(const std::pair<const int, Val>& x) { return x.first == x.second.v ? Value(x.second) : -2; }

struct Result {
  std::vector<int> seen;
  bool whole = false, sizes_ok = true, writes_ok = true;
  size_t size = 0;
};
// What one reader does, drawn before the threads start.
struct Plan {
  uint32_t how;     // 0: on the shared scanner, 1: on a copy made by the thread, 2: on a copy handed over
  uint32_t stop;    // elements to look at
  uint32_t style;
  uint32_t rounds;
};
template <class Scan>
void Read(const Scan& s, const Plan& p, Result& r) {
  for (uint32_t n = 0; n < p.rounds; ++n) {
    r.seen.clear();
    r.size = s.size();
    r.sizes_ok = r.sizes_ok && s.empty() == (r.size == 0);
    auto it = s.begin();
    const auto end = s.end();
    while (r.seen.size() < p.stop && it != end) {
      if (p.style == 0) r.seen.push_back(Value(*it++));
      else {
        if (p.style == 2) {
          auto copy = it;
          r.seen.push_back(Value(*copy));
        } else {
          r.seen.push_back(Value(*it));
        }
        ++it;
      }
    }
    r.whole = it == end;
  }
}
template <class Scan>
void Phase(std::optional<Scan> scan, std::vector<int> want, size_t kept, bool owned, const char* kind) {
  const int threads = 2 + static_cast<int>(sim::Choose(2));
  std::vector<Plan> plans(threads);
  std::vector<Result> res(threads);
  std::vector<std::optional<Scan>> own(threads);
  bool all_handed = true;
  for (int i = 0; i < threads; ++i) {
    plans[i] = {sim::Choose(3), 1 + sim::Choose(static_cast<uint32_t>(want.size()) + 2), sim::Choose(3), 1 + sim::Choose(2)};
    if (plans[i].how == 2) own[i].emplace(*scan);
    else all_handed = false;
  }
  // With every thread holding its own copy the last of them releases an owned container.
  const bool release = all_handed && sim::Choose(4) != 0;
  if (release) scan.reset();
  const size_t shots = want.size() + kept;
  SIM_CHECK(LiveNow() == static_cast<int>(shots), "elements-lost", "%d elements alive before the readers start, expected %zu", LiveNow(), shots);
  sched::Begin();
  for (int i = 0; i < threads; ++i)
    sched::Spawn([&, i] {
      if (plans[i].how == 0) Read(*scan, plans[i], res[i]);
      else if (plans[i].how == 1) {
        const Scan copy = *scan;
        Read(copy, plans[i], res[i]);
      } else {
        const Scan copy = std::move(*own[i]);
        own[i].reset();
        Read(copy, plans[i], res[i]);
      }
    });
  sched::RunAll();
  if (sched::Switches() >= 2) sim::NonTrivial();
  for (int i = 0; i < threads; ++i) {
    const auto& r = res[i];
    sim::Ev("reader %d of %s: %zu seen of %zu, %d", i, kind, r.seen.size(), r.size, r.whole);
    const size_t n = std::min<size_t>(plans[i].stop, want.size());
    SIM_CHECK(r.size == want.size() && r.sizes_ok, "wrong-size", "a reader sees size %zu of %zu (%s)", r.size, want.size(), kind);
    SIM_CHECK(r.seen == std::vector<int>(want.begin(), want.begin() + n), "wrong-element", "a reader's elements (%zu of %zu, %s) are not the container's", r.seen.size(), n, kind);
    SIM_CHECK(r.whole == (n == want.size()), "wrong-end", "a reader of %s after %zu of %zu elements is %s", kind, n, want.size(), r.whole ? "at the end" : "not at the end");
  }
  if (release && owned) {
    sim::Probe("last reader releases");
    SIM_CHECK(LiveNow() == static_cast<int>(kept), "elements-not-released", "%d elements survive their last scan", LiveNow());
  }
  scan.reset();
  own.clear();
  SIM_CHECK(LiveNow() == static_cast<int>(owned ? kept : shots), LiveNow() > static_cast<int>(kept) ? "elements-not-released" : "elements-lost",
            "%d elements are alive after all scans, expected %zu", LiveNow(), owned ? kept : shots);
  SIM_CHECK(g_died_twice == 0, "released-twice", "an element was destroyed twice");
  sim::State(sim::Hash64(kind, std::min<uint64_t>(sched::Switches(), 30) * 16 + threads * 4 + owned * 2 + release));
}
template <class C>
C Build(const std::vector<int>& v) {
  C c;
  for (int x : v) {
    if constexpr (requires { c.emplace_back(x); }) c.emplace_back(x);
    else if constexpr (requires { typename C::mapped_type; }) c.emplace(x, Val(x));
    else c.emplace(x);
  }
  return c;
}
template <class Scan, class C, class F>
void On(F adapt, const char* kind) {
  std::vector<int> v;
  for (uint32_t n = sim::Choose(5); n > 0; --n) v.push_back(10 + static_cast<int>(v.size()));
  C c = Build<C>(v);
  if (sim::Choose(2)) {
    C tmp = Build<C>(v);
    std::optional<Scan> s;
    {
      auto data = adapt(std::move(tmp));
      s.emplace(data);
    }
    Phase<Scan>(std::move(s), v, v.size(), true, kind);
  } else {
    std::optional<Scan> s;
    s.emplace(adapt(c));
    Phase<Scan>(std::move(s), v, 0, false, kind);
  }
}
void Run() {
  auto any = [](auto&& c) { return mbo::container::MakeAnyScan(std::forward<decltype(c)>(c)); };
  auto con = [](auto&& c) { return mbo::container::MakeConstScan(std::forward<decltype(c)>(c)); };
  auto cnv = [](auto&& c) { return mbo::container::MakeConvertingScan(std::forward<decltype(c)>(c)); };
  switch (sim::ChooseIndexed(7)) {
    case 0: return On<AnyScan<Val>, std::vector<Val>>(any, "vector");
    case 1: return On<ConstScan<Val>, std::vector<Val>>(con, "const vector");
    case 2: return On<ConstScan<Val>, std::set<Val>>(con, "const set");
    case 3: return On<AnyScan<Val>, std::list<Val>>(any, "list");
    case 4: return On<AnyScan<std::pair<const int, Val>>, std::map<int, Val>>(any, "map");
    case 5: return On<ConvertingScan<Copy>, std::list<Val>>(cnv, "converted list");
    default: return On<ConvertingScan<Copy>, std::set<Val>>(cnv, "converted set");
  }
}
}  // namespace
const SimHarness kSimHarness = {"C24", Run, nullptr};
