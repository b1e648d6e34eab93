// C26: process wide stream formatting options: histories with failing allocations, and threads under a simulated schedule.
#include <array>
#include <deque>
#include <optional>
#include <sstream>
#include <string>
#include <vector>

#include "mbo/types/stringify_ostream.h"
#include "sim/sim.h"
#ifdef THREADS
#include "sim/simsched.h"
#include "absl/synchronization/mutex.h"
#else
#include <new>
#include "absl/synchronization/mutex.h"
#endif

namespace obj {
struct Inner {
  int deep = 0;
  std::vector<int> list;
  using MboTypesStringifySupport = void;
  friend constexpr auto MboTypesStringifyFieldNames(const Inner&) { return std::array<std::string_view, 2>{"deep", "list"}; }
};
struct Text;
// A field that streams another object, in the middle of its owner being streamed.
struct Nested {
  const Inner* inner = nullptr;
  std::string* out = nullptr;
};
template <class Sink>
void AbslStringify(Sink& sink, const Nested& n) {
  if (n.out != nullptr) {
    std::ostringstream os;
    os << *n.inner;
    *n.out = os.str();
  }
  sink.Append("N");
}
struct Outer {
  int one = 0;
  std::string two;
  Inner three;
  Nested four;
  std::vector<std::string> five;
  using MboTypesStringifySupport = void;
  friend constexpr auto MboTypesStringifyFieldNames(const Outer&) { return std::array<std::string_view, 5>{"one", "two", "three", "four", "five"}; }
};
}  // namespace obj

namespace {
using mbo::types::SetStringifyOstreamOptions, mbo::types::SetStringifyOstreamOutputMode, mbo::types::Stringify, mbo::types::StringifyOptions;

// An option set: an output mode or an options object of the application.
constexpr int kModes = 6, kCustom = 5, kSets = kModes + kCustom;
std::deque<StringifyOptions>& Custom() {
  static auto& o = *new std::deque<StringifyOptions>;
  return o;
}
void MakeCustom() {
  static const std::array<std::array<std::string_view, 4>, kCustom> kMark = {{{"<a:", ";a;", "=a=", "[a"}, {"<b:", ";b;", "=b=", "[b"}, {"<c:", ";c;", "=c=", "[c"}, {"<d:", ";d;", "=d=", "[d"}, {"<e:", ";e;", "=e=", "[e"}}};
  for (int i = 0; i < kCustom; ++i) {
    Custom().push_back(Stringify::OptionsAs(static_cast<Stringify::OutputMode>(i)));
    StringifyOptions& o = Custom().back();
    auto f = o.format.get({});
    f.field_separator = kMark[i][1];
    f.key_value_separator = kMark[i][2];
    f.structure_prefix = kMark[i][3];
    o.format.emplace(f);
    auto k = o.key_control.get({});
    k.key_prefix = kMark[i][0];
    o.key_control.emplace(k);
    SIM_CHECK(o.AllDataSet(), "harness", "incomplete options");
  }
}
void Set(int id) {
  if (id < kModes) SetStringifyOstreamOutputMode(static_cast<Stringify::OutputMode>(id));
  else SetStringifyOstreamOptions(Custom()[id - kModes]);
}
template <class T>
std::string Want(int id, const T& v) {
  return id < kModes ? Stringify(static_cast<Stringify::OutputMode>(id)).ToString(v) : Stringify(Custom()[id - kModes]).ToString(v);
}
obj::Outer MakeOuter(obj::Inner* inner, std::string* out) {
  obj::Outer o;
  o.one = static_cast<int>(sim::Choose(100));
  o.two = sim::Choose(2) ? "text \"quoted\"\n" : "";
  o.three.deep = 7;
  for (uint32_t n = sim::Choose(3); n > 0; --n) o.three.list.push_back(static_cast<int>(n));
  if (inner != nullptr) o.four = {inner, out};
  for (uint32_t n = sim::Choose(3); n > 0; --n) o.five.push_back("s");
  return o;
}
// Which option sets produce this text?
template <class T>
uint32_t Matches(const std::string& got, const T& v) {
  uint32_t m = 0;
  for (int i = 0; i < kSets; ++i)
    if (Want(i, v) == got) m |= 1U << i;
  return m;
}

// An operation on the register "current options".
struct Op {
  int thread, set = -1;      // set: the option set written, or -1: a read
  uint32_t matches = 0;      // a read: the option sets it may have seen
  uint64_t from = 0, to = 0; // interval
  std::string text;
};
// Is there an order of the operations, compatible with their intervals, in which each read sees the last write?
bool Linearize(const std::vector<Op>& ops, uint64_t done, int cur, std::vector<std::pair<uint64_t, int>>& dead) {
  if (done == (1ULL << ops.size()) - 1) return true;
  for (auto& d : dead)
    if (d.first == done && d.second == cur) return false;
  uint64_t first_end = ~0ULL;
  for (size_t i = 0; i < ops.size(); ++i)
    if (!(done >> i & 1)) first_end = std::min(first_end, ops[i].to);
  for (size_t i = 0; i < ops.size(); ++i) {
    if (done >> i & 1 || ops[i].from > first_end) continue;
    if (ops[i].set < 0 && !(ops[i].matches >> cur & 1)) continue;
    if (Linearize(ops, done | 1ULL << i, ops[i].set < 0 ? cur : ops[i].set, dead)) return true;
  }
  dead.push_back({done, cur});
  return false;
}

#ifdef THREADS
[[gnu::no_sanitize("thread"), gnu::noinline]] uint64_t Tick() {
  static uint64_t t = 0;
  return ++t;
}
// What a thread does is drawn beforehand; objects are its own.
struct Step {
  int set;  // option set to set; -1: stream outer, -2: stream inner, -3: stream outer with nested streaming
  obj::Inner inner;
  obj::Outer outer;
  std::string text, nested;
  uint64_t from = 0, to = 0;
};
void Run() {
  MakeCustom();
  shim::mutex_op = [](void* m, int op) {
    if (!sched::Active()) return;
    if (op == 0 || op == 2) sched::Lock(m, op == 2);
    else sched::Unlock(m, op == 3);
  };
  int cur = 0;
  bool first_use = true;
  if (sim::Choose(3) == 0) {
    Set(cur = static_cast<int>(sim::Choose(kSets)));
    first_use = false;
  }
  for (uint32_t phase = 1 + sim::Choose(2); phase > 0; --phase) {
    sim::Span span("phase");
    const int threads = 2 + static_cast<int>(sim::Choose(2));
    std::vector<std::deque<Step>> plan(threads);
    for (auto& t : plan)
      for (uint32_t n = 1 + sim::Choose(3); n > 0; --n) {
        t.emplace_back();
        Step& s = t.back();
        const uint32_t what = sim::Choose(5);
        s.set = what < 2 ? static_cast<int>(sim::Choose(kSets)) : -static_cast<int>(what) + 1;
        s.inner.deep = 3;
        s.inner.list = {1};
        s.outer = MakeOuter(s.set == -3 ? &s.inner : nullptr, &s.nested);
      }
    sched::Begin();
    for (auto& t : plan)
      sched::Spawn([&t] {
        for (auto& s : t) {
          s.from = Tick();
          if (s.set >= 0) {
            Set(s.set);
          } else {
            std::ostringstream os;
            if (s.set == -2) os << s.inner;
            else os << s.outer;
            s.text = os.str();
          }
          s.to = Tick();
        }
      });
    sched::RunAll();
    if (sched::Switches() >= 2) sim::NonTrivial();
    std::vector<Op> ops;
    int sets = 0;
    for (int i = 0; i < threads; ++i)
      for (auto& s : plan[i]) {
        Op o;
        o.thread = i;
        o.set = std::max(s.set, -1);
        o.from = s.from, o.to = s.to;
        o.text = s.text;
        if (s.set >= 0) ++sets;
        if (s.set < 0) {
          std::string* out = s.outer.four.out;
          s.outer.four.out = nullptr;  // judge quietly
          o.matches = s.set == -2 ? Matches(s.text, s.inner) : Matches(s.text, s.outer);
          SIM_CHECK(o.matches != 0, "mixed-options", "no single option set renders an object as %s", sim::Quote(s.text, 400).c_str());
          if (out != nullptr) {
            Op n = o;
            n.text = s.nested;
            n.matches = Matches(s.nested, s.inner);
            SIM_CHECK(n.matches != 0, "mixed-options", "no single option set renders a nested object as %s", sim::Quote(n.text, 400).c_str());
            ops.push_back(n);
            sim::Probe("nested streaming");
          }
        }
        ops.push_back(o);
      }
    // Afterwards the last change is in effect.
    obj::Inner last;
    std::ostringstream os;
    os << last;
    Op o;
    o.from = Tick(), o.to = Tick();
    o.thread = -1;
    o.text = os.str();
    o.matches = Matches(o.text, last);
    ops.push_back(o);
    for (auto& x : ops) sim::Ev("t%d %s %d (%x)", x.thread, x.set >= 0 ? "set" : "stream", x.set, x.matches);
    std::vector<std::pair<uint64_t, int>> dead;
    if (!Linearize(ops, 0, cur, dead)) {
      std::string h;
      for (auto& x : ops) h += "\n  t" + std::to_string(x.thread) + " [" + std::to_string(x.from) + "," + std::to_string(x.to) + "] " + (x.set >= 0 ? "set " + std::to_string(x.set) : "stream " + sim::Quote(x.text, 200));
      sim::Fail("not-linearizable", "starting from option set %d no order of these calls explains what was streamed:%s", cur, h.c_str());
    }
    if (sets >= 2) sim::Probe("several changes at once");
    if (first_use) sim::Probe("first use by several threads");
    first_use = false;
    sim::State(sim::Hash64("phase", std::min<uint64_t>(sched::Switches(), 30) * 64 + threads * 16 + std::min(sets, 7)));
    // Continue from a known state.
    Set(cur = static_cast<int>(sim::Choose(kSets)));
  }
}
#else
uint32_t g_countdown;
bool g_failed;
void Run() {
  MakeCustom();
  int cur = 0;
  uint32_t fails = 0;
  shim::mutex_op = [](void*, int op) {
    static int held = 0;
    held += op == 0 || op == 2 ? 1 : -1;
    SIM_CHECK(held == 0 || held == 1, "deadlock", "a lock is taken while it is held by the same thread");
  };
  for (uint32_t n = 2 + sim::Choose(12); n > 0; --n) {
    sim::Span span("op");
    const uint32_t what = sim::Choose(5), arm = sim::Chance(1, 3) ? 1 + sim::Choose(3) : 0;
    const int id = static_cast<int>(sim::Choose(kSets));
    obj::Inner inner{.deep = 3, .list = {1}};
    std::string nested, text;
    obj::Outer outer = MakeOuter(what == 4 ? &inner : nullptr, &nested);
    std::ostringstream os;
    bool threw = false;
    g_failed = false;
    g_countdown = arm;
    try {
      if (what < 2) Set(id);
      else os << outer;
    } catch (const std::bad_alloc&) {
      threw = true;
    }
    g_countdown = 0;
    const bool failed = g_failed;
    g_failed = false;
    if (failed) sim::Fault("allocation fails"), ++fails;
    SIM_CHECK(failed || !threw, "spurious-failure", "a call fails though nothing else did");
    sim::Ev("%s %d: %s", what < 2 ? "set" : "stream", what < 2 ? id : cur, threw ? "threw" : failed ? "coped" : "ok");
    if (what < 2) {
      if (!threw) cur = id;
      else sim::Probe("change of options failed");
    } else if (!failed) {
      outer.four.out = nullptr;
      text = os.str();
      SIM_CHECK(text == Want(cur, outer), "wrong-options", "with option set %d an object is streamed as %s", cur, sim::Quote(text, 400).c_str());
      if (what == 4) SIM_CHECK(nested == Want(cur, inner), "wrong-options", "with option set %d a nested object is streamed as %s", cur, sim::Quote(nested, 400).c_str());
    }
    sim::State(sim::Hash64("seq", static_cast<uint64_t>(cur) * 64 + what * 8 + threw * 2 + failed));
    // In effect: what was set last, successfully.
    std::ostringstream check;
    check << inner;
    SIM_CHECK(check.str() == Want(cur, inner), "wrong-options", "option set %d should be in effect after a %s call, but an object is streamed as %s", cur, threw ? "failed" : "successful", sim::Quote(check.str(), 200).c_str());
  }
  if (fails) sim::NonTrivial();
}
#endif
}  // namespace
#ifndef THREADS
void* operator new(size_t n) {
  if (g_countdown != 0 && --g_countdown == 0) {
    g_failed = true;
    throw std::bad_alloc();
  }
  void* p = malloc(n);
  if (p == nullptr) abort();
  return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
#endif
const SimHarness kSimHarness = {"C26", Run, nullptr};
