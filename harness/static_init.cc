// C25: never-destroyed statics, default options and immutable containers, used for the first and later times by threads
// under a simulated schedule; and what is left of them when a process ends.
#include <sys/wait.h>
#include <unistd.h>

#include <array>
#include <string>
#include <vector>

#include "mbo/container/limited_map.h"
#include "mbo/container/limited_set.h"
#include "mbo/container/limited_vector.h"
#include "mbo/types/no_destruct.h"
#include "sim/sim.h"
#ifdef THREADS
#include "mbo/diff/diff.h"
#include "mbo/file/artefact.h"
#include "mbo/types/stringify.h"
#include "sim/simsched.h"
#else
#include <new>
#endif

namespace {
using mbo::types::NoDestruct;
#define UNSEEN [[gnu::no_sanitize("thread"), gnu::noinline]]
int g_made[16], g_died[16];
UNSEEN void Made(int i) { ++g_made[i]; }
UNSEEN void Died(int i) { ++g_died[i]; }

// A value that takes many steps to construct and knows when it is destroyed.
template <int kId>
struct Rec {
  int a = 0, b = 0;
  std::string text;
  std::vector<int> list;
  Rec() { Fill(1, 2, "default"); }
  Rec(int x, int y, std::string t) { Fill(x, y, std::move(t)); }
  Rec(const std::initializer_list<int>& l) {
    Fill(static_cast<int>(l.size()), 0, "list");
    list.assign(l);
  }
  Rec(const Rec&) = delete;
  Rec(Rec&& o) noexcept : a(o.a), b(o.b), text(std::move(o.text)), list(std::move(o.list)) {
    Made(kId);
    o.a = -2;
  }
  ~Rec() {
    if (a != -2) Died(kId);
    a = b = -1;
  }
  void Fill(int x, int y, std::string t) {
    Made(kId);
    a = x;
    text = std::move(t);
    for (int i = 0; i < 4; ++i) list.push_back(i * x);
    b = y;
  }
  std::string Show() const {
    std::string s = std::to_string(a) + "/" + std::to_string(b) + "/" + text;
    for (int i : list) s += "," + std::to_string(i);
    return s;
  }
};
const Rec<0>& UseDefault() {
  static const NoDestruct<Rec<0>> k;
  return *k;
}
const Rec<1>& UseArgs() {
  static const NoDestruct<Rec<1>> k(7, 9, "some text that needs an allocation");
  return k.Get();
}
const Rec<2>& UseList() {
  static const NoDestruct<Rec<2>> k({5, 6, 7});
  return *k.operator->();
}
Rec<3>& UseMutable() {
  static NoDestruct<Rec<3>> k(3, 4, "mutable");
  return *k;
}
const Rec<4>& UseMoved() {
  static const NoDestruct<Rec<4>> k(Rec<4>(1, 1, "moved"));
  return *k;
}
// Depends on another one.
const NoDestruct<std::string>& UseChain() {
  static const NoDestruct<std::string> k(UseArgs().Show() + "|" + UseDefault().Show());
  return k;
}
const std::string kWant[] = {"1/2/default,0,1,2,3", "7/9/some text that needs an allocation,0,7,14,21", "3/0/list,5,6,7", "3/4/mutable,0,3,6,9", "1/1/moved,0,1,2,3"};
std::string WantChain() { return kWant[1] + "|" + kWant[0]; }
constexpr int kUses = 6;
struct Seen {
  const void* at = nullptr;
  std::string text;
};
Seen Use(int which) {
  switch (which) {
    case 0: return {&UseDefault(), UseDefault().Show()};
    case 1: return {&UseArgs(), UseArgs().Show()};
    case 2: return {&UseList(), UseList().Show()};
    case 3: return {&UseMutable(), UseMutable().Show()};
    case 4: return {&UseMoved(), UseMoved().Show()};
    default: return {&UseChain().Get(), *UseChain()};
  }
}
std::string Want(int which) { return which < 5 ? kWant[which] : WantChain(); }

#ifdef THREADS
using mbo::diff::Diff, mbo::diff::DiffOptions, mbo::file::Artefact;
constexpr mbo::container::LimitedMap<int, int, 5> kMap{{1, 10}, {3, 30}, {5, 50}, {7, 70}, {9, 90}};
std::string GenLines() {
  std::string s;
  for (uint32_t n = sim::Choose(6); n > 0; --n) {
    static const char* const kLines[] = {"a\n", "b\n", "B \n", "x1\n", "x2\n", "\n", " c  c\n", "// note\n"};
    s += kLines[sim::Choose(8)];
  }
  if (!s.empty() && sim::Choose(4) == 0) s.pop_back();
  return s;
}
struct Shared {
  DiffOptions options;
  std::vector<Artefact> files;
  mbo::container::LimitedMap<std::string, int, 8> map;
  mbo::container::LimitedSet<int, 8> set;
  mbo::container::LimitedVector<std::string, 8> vec;
  std::vector<std::string> keys;
};
struct Step {
  uint32_t what = 0, arg = 0, arg2 = 0;
  Seen seen;
  std::string out;
};
void Perform(const Shared& sh, Step& s) {
  switch (s.what) {
    case 0: case 1: case 2: s.seen = Use(static_cast<int>(s.arg)); break;
    case 3: {  // default options
      const DiffOptions& o = DiffOptions::Default();
      s.seen.at = &o;
      s.out = std::to_string(static_cast<int>(o.algorithm)) + "," + std::to_string(o.context_size) + "," + std::to_string(o.side_by_side_width) + ","
              + std::to_string(o.max_diff_chunk_length) + "," + std::to_string(o.show_chunk_headers) + std::to_string(o.ignore_case) + o.time_format;
      break;
    }
    case 4: case 5: {  // differences with shared options and inputs
      const auto& l = sh.files[s.arg % sh.files.size()];
      const auto& r = sh.files[s.arg2 % sh.files.size()];
      const auto d = s.what == 4 ? Diff::FileDiff(l, r) : Diff::FileDiff(l, r, sh.options);
      s.out = d.ok() ? *d : "error";
      break;
    }
    default: {  // look things up
      const std::string& k = sh.keys[s.arg % sh.keys.size()];
      const int n = static_cast<int>(s.arg2 % 12);
      s.out = sh.map.contains(k) ? std::to_string(sh.map.at(k)) : "none";
      const auto f = sh.map.find(k);
      s.out += f == sh.map.end() ? "-" : f->first;
      s.out += sh.set.contains(n) ? "y" : "n";
      s.out += std::to_string(sh.set.lower_bound(n) - sh.set.begin());
      s.out += kMap.contains(n) ? std::to_string(kMap.at(n)) : "-";
      for (const auto& x : sh.vec) s.out += x;
      for (const auto& [a, b] : sh.map) s.out += a + std::to_string(b);
      break;
    }
  }
}
void Run() {
  Shared sh;
  sh.options.algorithm = static_cast<DiffOptions::Algorithm>(sim::Choose(3));
  sh.options.output_format = static_cast<DiffOptions::OutputFormat>(sim::Choose(4));
  sh.options.ignore_case = sim::Choose(2);
  sh.options.ignore_trailing_space = sim::Choose(2);
  sh.options.ignore_blank_lines = sim::Choose(2);
  if (sim::Choose(3) == 0) sh.options.ignore_matching_lines.emplace("x[0-9]");
  if (sim::Choose(3) == 0) sh.options.strip_comments = mbo::strings::StripCommentArgs{.comment_start = "//"};
  for (int i = 0; i < 3; ++i) {
    Artefact a;
    a.data = GenLines();
    a.name = "file" + std::to_string(i);
    sh.files.push_back(std::move(a));
  }
  for (int i = 0; i < 4; ++i) {
    sh.keys.push_back("k" + std::to_string(i));
    if (sim::Choose(2)) sh.map.emplace(sh.keys.back(), i);
    if (sim::Choose(2)) sh.set.emplace(static_cast<int>(sim::Choose(10)));
    if (sim::Choose(2)) sh.vec.push_back("v" + std::to_string(i));
  }
  const Shared& shared = sh;
  const void* at[8] = {};
  for (uint32_t phase = 1 + sim::Choose(2); phase > 0; --phase) {
    sim::Span span("phase");
    const int threads = 2 + static_cast<int>(sim::Choose(2));
    std::vector<std::vector<Step>> plan(threads);
    const uint32_t focus = sim::Choose(8);  // several threads on the same thing
    for (auto& t : plan)
      for (uint32_t n = 1 + sim::Choose(3); n > 0; --n) {
        Step s;
        s.what = sim::Choose(2) ? focus : sim::Choose(7);
        s.arg = s.what <= 2 ? (sim::Choose(2) ? focus % kUses : sim::Choose(kUses)) : sim::Choose(12);
        s.arg2 = sim::Choose(12);
        t.push_back(std::move(s));
      }
    sched::Begin();
    for (auto& t : plan)
      sched::Spawn([&t, &shared] {
        for (auto& s : t) Perform(shared, s);
      });
    sched::RunAll();
    if (sched::Switches() >= 2) sim::NonTrivial();
    // Judged afterwards: nothing here may warm up what the threads use first.
    for (int i = 0; i < threads; ++i)
      for (auto& s : plan[i]) {
        const int slot = s.what <= 2 ? static_cast<int>(s.arg) : s.what == 3 ? 7 : -1;
        if (slot >= 0) {
          if (at[slot] == nullptr) at[slot] = s.seen.at;
          SIM_CHECK(at[slot] == s.seen.at, "different-objects", "two threads use different objects of static %d", slot);
        }
        if (s.what <= 2) {
          SIM_CHECK(s.seen.text == Want(static_cast<int>(s.arg)), "wrong-value", "a thread sees static %u as %s", s.arg, sim::Quote(s.seen.text, 200).c_str());
        } else {
          Step again = s;
          again.out.clear();
          Perform(shared, again);
          SIM_CHECK(again.out == s.out, "wrong-value", "a shared immutable object read by threads (%u) gave %s, read alone it gives %s", s.what, sim::Quote(s.out, 300).c_str(), sim::Quote(again.out, 300).c_str());
          if (s.what == 3) {
            const DiffOptions fresh;
            SIM_CHECK(fresh.context_size == DiffOptions::Default().context_size && fresh.algorithm == DiffOptions::Default().algorithm && fresh.time_format == DiffOptions::Default().time_format, "wrong-value", "the default options are not default");
          }
        }
        sim::Ev("t%d %u %u %u", i, s.what, s.arg, s.arg2);
      }
    for (int i = 0; i < 5; ++i) {
      SIM_CHECK(g_made[i] <= (i == 4 ? 2 : 1), "initialised-twice", "static %d was constructed %d times", i, g_made[i]);
      SIM_CHECK(g_died[i] == 0, "destroyed", "static %d was destroyed", i);
    }
    sim::State(sim::Hash64("phase", std::min<uint64_t>(sched::Switches(), 40) * 64 + threads * 16 + focus));
    sim::Probe(focus == 3 ? "first use of default options" : focus <= 2 ? "first use of a static" : "shared immutable data");
  }
}
#else
uint32_t g_countdown;
bool g_failed;
// Destroyed after the statics it outlives, i.e. it was constructed before them.
struct Late {
  bool armed = false;
  uint32_t used = 0;
  ~Late() {
    if (!armed) return;
    int code = 42;
    for (int i = 0; i < kUses; ++i)
      if (used >> i & 1 && Use(i).text != Want(i)) code = 50 + i;
    for (int i = 0; i < 5; ++i)
      if (g_died[i]) code = 60 + i;
    _exit(code);
  }
};
Late& Last() {
  static Late l;
  return l;
}
template <int kId>
void Scoped(uint32_t& n) {
  {
    const NoDestruct<Rec<kId>> a(8, 9, "automatic");
    SIM_CHECK(a->Show() == "8/9/automatic,0,8,16,24" && &*a == &a.Get() && a.operator->() == &a.Get(), "wrong-value", "an automatic object reads %s", sim::Quote(a->Show()).c_str());
    ++n;
  }
}
void Run() {
  // Leaves its scopes without destroying anything.
  Last();
  uint32_t used = 0, autos = 0;
  for (uint32_t n = 1 + sim::Choose(10); n > 0; --n) {
    sim::Span span("op");
    const int which = static_cast<int>(sim::Choose(kUses + 1));
    if (which == kUses) {
      Scoped<9>(autos);
      SIM_CHECK(g_died[9] == 0, "destroyed", "an object was destroyed with its scope");
      sim::Ev("automatic");
      continue;
    }
    const Seen s = Use(which), t = Use(which);
    sim::Ev("use %d", which);
    SIM_CHECK(s.at == t.at, "different-objects", "static %d is two objects", which);
    SIM_CHECK(s.text == Want(which), "wrong-value", "static %d reads %s", which, sim::Quote(s.text, 200).c_str());
    used |= 1U << which;
    if (which == 5) used |= 3;
    sim::State(sim::Hash64("use", used));
  }
  for (int i = 0; i < 5; ++i)
    SIM_CHECK(g_made[i] == (used >> i & 1 ? (i == 4 ? 2 : 1) : 0), "initialised-twice", "static %d was constructed %d times", i, g_made[i]);
  // End of the process, in a copy of it.
  if (sim::Choose(4) == 0) {
    const bool first_use_at_end = sim::Choose(3) == 0;
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0) {
      Last().armed = true;
      Last().used = first_use_at_end ? (1U << kUses) - 1 : used;
      exit(0);
    }
    int st = 0;
    SIM_CHECK(pid > 0 && waitpid(pid, &st, 0) == pid, "harness", "fork");
    SIM_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 42, "destroyed", "when the process ends, never-destroyed objects are not intact (status %x)", st);
    sim::Probe("process ended");
    sim::Fault("process ends");
    sim::NonTrivial();
  }
}
#endif
}  // namespace
const SimHarness kSimHarness = {"C25", Run, nullptr};
