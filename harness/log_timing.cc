// C09: histories of timing scopes over an arbitrary clock.
#include <deque>
#include <memory>
#include <source_location>
#include <vector>

#include "absl/flags/declare.h"
#include "absl/flags/flag.h"
#include "harness/log_common.h"
#include "mbo/log/log_timing.h"

ABSL_DECLARE_FLAG(absl::Duration, mbo_log_timing_min_duration);
ABSL_DECLARE_FLAG(absl::LogSeverity, mbo_log_timing_min_severity_always);

namespace {
using mbo::log::LogTiming;
using Impl = decltype(LogTiming());
using Loc = std::source_location;
using absl::Duration;

// ---- the clock ----
int64_t g_now = 1700000000LL * 1000000000;
int64_t g_step = 0;               // moves by this much at every reading
std::vector<int64_t> g_reads;     // readings taken since the last reset
int64_t Clock() {
  g_now += g_step;
  g_reads.push_back(g_now);
  return g_now;
}
// ---- the log ----
struct Rec {
  int severity;
  std::string file;
  int line;
  std::string text;
};
std::vector<Rec> g_log;
void Sink(int s, const char* file, int line, std::string_view text) { g_log.push_back({s, file, line, std::string(text)}); }

const absl::LogSeverity kSev[] = {absl::LogSeverity::kInfo, absl::LogSeverity::kWarning, absl::LogSeverity::kError};
Duration g_flag_min = absl::Seconds(2);
int g_flag_sev = 2;

Duration SomeDuration() {
  static const int64_t kD[] = {2000000000, 0, 1, 999999999, 1000000000, 1999999999, 2000000001, -1, -2000000000, 10000000000, 86400000000000, -86400000000000};
  const uint32_t n = sim::Choose(16);
  if (n < 12) return absl::Nanoseconds(kD[n]);
  if (n == 12) return absl::InfiniteDuration();
  if (n == 13) return -absl::InfiniteDuration();
  return absl::Nanoseconds(static_cast<int64_t>(sim::Choose(4000)) * 1000000);
}
int64_t SomeStep() {
  static const int64_t kD[] = {0, 1, 1000, 1000000000, 1999999999, 2000000000, 2000000001, 86400000000000, 31536000000000000};
  const uint32_t n = sim::Choose(12);
  int64_t d = n < 9 ? kD[n] : static_cast<int64_t>(sim::Choose(5000)) * 1000000;
  const uint32_t dir = sim::Choose(5);
  if (dir == 1) { d = -d; sim::Fault("clock steps backward"); }
  else if (dir == 2) { d *= 3; if (d) sim::Fault("clock jumps forward"); }
  else if (d == 0) sim::Fault("clock stalls");
  return d;
}
void MoveClock() {
  const int64_t d = SomeStep();
  sim::Advance(d > 0 ? d : 0);
  g_now += d;
  if (sim::Chance(1, 6)) g_step = g_step ? 0 : static_cast<int64_t>(sim::Choose(3)) * 700000000 - 500000000;
  sim::Ev("clock moves %lld, %lld per reading", static_cast<long long>(d), static_cast<long long>(g_step));
}

struct Timer {
  std::optional<Impl> impl;
  bool active = false;        // will decide whether to log
  absl::Time start;
  int sev = 0;
  std::optional<Duration> min;
  std::string msg, fn, file;
  int line = 0;
};
// The end of `t`'s scope: `end` ends it.
int g_logged = 0, g_quiet = 0;
template <class F>
void End(Timer& t, const char* how, F end) {
  const size_t before = g_log.size();
  g_reads.clear();
  end();
  std::vector<int64_t> reads = g_reads;
  const size_t n = g_log.size() - before;
  if (!t.active) {
    SIM_CHECK(n == 0, "logged-after-move", "%s: a moved-from timer logged", how);
    return;
  }
  t.active = false;
  SIM_CHECK(n <= 1, "logged-twice", "%s: %zu records", how, n);
  if (reads.empty()) reads.push_back(g_now);
  const Duration min = t.min ? *t.min : g_flag_min;
  bool agrees = false, wants = false;
  std::string shown;
  for (int64_t r : reads) {
    const Duration d = absl::FromUnixNanos(r) - t.start;
    const bool want = !(d < min) || t.sev >= g_flag_sev;
    wants = want;
    if (want != (n == 1)) continue;
    const std::string text = "LogTiming(" + absl::FormatDuration(d) + " @ ";
    if (n == 0 || g_log.back().text.compare(0, text.size(), text) == 0) { agrees = true; shown = text; }
  }
  const std::string last = absl::FormatDuration(absl::FromUnixNanos(reads.back()) - t.start);
  sim::Ev("%s: severity %d of %d, %s of %s -> %s", how, t.sev, g_flag_sev, last.c_str(), absl::FormatDuration(min).c_str(), n ? g_log.back().text.c_str() : "quiet");
  sim::State(sim::Hash64(last + absl::FormatDuration(min), t.sev * 16 + g_flag_sev * 4 + n));
  n ? ++g_logged : ++g_quiet;
  if (n == 0) {
    SIM_CHECK(agrees, "not-logged", "%s: nothing is logged after %s with a minimum of %s, severity %d, always from %d", how, last.c_str(), absl::FormatDuration(min).c_str(), t.sev, g_flag_sev);
    return;
  }
  SIM_CHECK(wants, "logged", "%s: logged after %s with a minimum of %s, severity %d, always from %d", how, last.c_str(), absl::FormatDuration(min).c_str(), t.sev, g_flag_sev);
  const Rec& r = g_log.back();
  SIM_CHECK(agrees, "wrong-duration", "%s: after %s the record says %s", how, last.c_str(), sim::Quote(r.text).c_str());
  SIM_CHECK(r.severity == t.sev, "wrong-severity", "%s: severity %d, expected %d", how, r.severity, t.sev);
  SIM_CHECK(r.file == t.file && r.line == t.line, "wrong-location", "%s: location %s:%d, expected %s:%d", how, r.file.c_str(), r.line, t.file.c_str(), t.line);
  const std::string tail = t.msg.empty() ? ")" : "): " + t.msg;
  SIM_CHECK(r.text.size() >= shown.size() + tail.size() && r.text.ends_with(tail), "wrong-message", "%s: record %s, message %s", how, sim::Quote(r.text, 300).c_str(), sim::Quote(t.msg, 300).c_str());
  const std::string fn = r.text.substr(shown.size(), r.text.size() - shown.size() - tail.size());
  SIM_CHECK(fn.find(t.fn) != std::string::npos, "wrong-location", "%s: function %s, expected %s", how, sim::Quote(fn).c_str(), t.fn.c_str());
}

void Where(Timer& t, const Loc& here, const char* fn) {
  t.file = here.file_name();
  t.line = static_cast<int>(here.line());
  t.fn = fn;
}
void Start(Timer& t) {
  t.active = true;
  t.start = absl::FromUnixNanos(g_reads.empty() ? g_now : g_reads.back());
  t.sev = 0;
  t.min.reset();
  t.msg.clear();
}
// Places that open timers.
__attribute__((noinline)) void OpenPlain(Timer& t) {
  g_reads.clear();
  Where(t, Loc::current(), "OpenPlain"); t.impl.emplace(LogTiming());
  Start(t);
}
__attribute__((noinline)) void OpenSeverity(Timer& t, int sev) {
  g_reads.clear();
  Where(t, Loc::current(), "OpenSeverity"); t.impl.emplace(LogTiming({.severity = kSev[sev]}));
  Start(t);
  t.sev = sev;
}
template <class T>
__attribute__((noinline)) void OpenMin(Timer& t, T min) {
  g_reads.clear();
  Where(t, Loc::current(), "OpenMin"); t.impl.emplace(LogTiming({.min_duration = min}));
  Start(t);
  t.min = min;
}
struct Place {
  __attribute__((noinline)) static void OpenAll(Timer& t, int sev, std::optional<Duration> min, absl::Time start) {
    g_reads.clear();
    Where(t, Loc::current(), "OpenAll"); t.impl.emplace(LogTiming({.severity = kSev[sev], .min_duration = min, .start_time = start}));
    Start(t);
    t.start = start;
    t.sev = sev;
    t.min = min;
  }
};
__attribute__((noinline)) void OpenMessage(Timer& t, const std::string& text, int n) {
  g_reads.clear();
  Where(t, Loc::current(), "OpenMessage"); t.impl.emplace(LogTiming() << text << " " << n);
  Start(t);
  t.msg = text + " " + std::to_string(n);
}
std::string Msg() {
  static const std::string kM[] = {"", "work", "a: b", "%s", "LogTiming(", ")\n(", "x\"y", std::string("n\0l", 3), std::string(1, '\0'), std::string(3000, 'm')};
  return kM[sim::Choose(10)];
}

struct Err {};
// Lexical scopes, nested, left normally or by an exception.
void Nest(int depth) {
  Timer outer;  // the model only; the real timer is a local
  const size_t before = g_log.size();
  bool thrown = false;
  size_t after_inner = 0;
  const int sev = sim::Choose(3);
  const bool fail = sim::Chance(1, 3);
  const std::string msg = Msg();
  g_reads.clear();
  End(outer, "declared", [] {});
  auto leave = [&] {
    after_inner = g_log.size();
    g_reads.clear();
    if (fail) { sim::Fault("scope left by an exception"); throw Err(); }
  };
  try {
    g_reads.clear();
    Where(outer, Loc::current(), "Nest"); auto done = LogTiming({.severity = kSev[sev]}) << msg;
    Start(outer);
    outer.sev = sev;
    outer.msg = msg;
    SIM_CHECK(g_log.size() == before, "logged-early", "a timer logged when it was created");
    MoveClock();
    if (depth > 0) Nest(depth - 1);
    MoveClock();
    leave();
  } catch (const Err&) {
    thrown = true;
  }
  SIM_CHECK(thrown == fail, "harness", "harness error");
  // Judge what the end of the scope has logged.
  std::vector<Rec> mine(g_log.begin() + after_inner, g_log.end());
  const auto reads = g_reads;
  g_log.resize(after_inner);
  End(outer, fail ? "exception" : "scope", [&] { g_reads = reads; for (auto& r : mine) g_log.push_back(r); });
}

void Run() {
  shim::now_ns = &Clock;
  shim::log_sink = &Sink;
  std::deque<Timer> pool(4);
  auto expect_quiet = [&](const char* what, auto f) {
    const size_t before = g_log.size();
    f();
    SIM_CHECK(g_log.size() == before, "logged-early", "%s logged", what);
  };
  for (int steps = 6 + sim::Choose(24); steps > 0; --steps) {
    sim::Span span("op");
    Timer& t = pool[sim::Choose(pool.size())];
    Timer& o = pool[sim::Choose(pool.size())];
    switch (sim::Choose(12)) {
      case 0: case 1: case 2:
        if (t.impl) continue;
        expect_quiet("creating a timer", [&] {
          switch (sim::Choose(5)) {
            case 0: OpenPlain(t); break;
            case 1: OpenSeverity(t, sim::Choose(3)); break;
            case 2: OpenMin(t, SomeDuration()); break;
            case 3: {
              std::optional<Duration> min;
              if (sim::Choose(2)) min = SomeDuration();
              const int64_t back = SomeStep();
              Place::OpenAll(t, sim::Choose(3), min, absl::FromUnixNanos(g_now - back));
              break;
            }
            default: OpenMessage(t, Msg(), sim::Choose(100));
          }
        });
        sim::Ev("open %s", t.fn.c_str());
        break;
      case 3: case 4: MoveClock(); break;
      case 5: case 6: case 7:
        if (!t.impl) continue;
        End(t, "close", [&] { t.impl.reset(); });
        break;
      case 8:  // move
        if (!o.impl || t.impl || &t == &o) continue;
        expect_quiet("moving a timer", [&] { t.impl.emplace(std::move(*o.impl)); });
        t.active = o.active; t.start = o.start; t.sev = o.sev; t.min = o.min; t.msg = o.msg; t.fn = o.fn; t.file = o.file; t.line = o.line;
        o.active = false;
        if (t.active) sim::Probe("timer moved");
        sim::Ev("move");
        if (sim::Choose(2)) End(o, "moved-from", [&] { o.impl.reset(); });
        break;
      case 9: {  // append to the message
        if (!t.impl || !t.active) continue;
        const std::string more = Msg();
        expect_quiet("streaming to a timer", [&] { (void)(std::move(*t.impl) << more << 7); });
        t.msg += more + "7";
        sim::Ev("append");
        break;
      }
      case 10:
        if (sim::Choose(2)) {
          g_flag_min = SomeDuration();
          absl::SetFlag(&FLAGS_mbo_log_timing_min_duration, g_flag_min);
        } else {
          g_flag_sev = sim::Choose(4);
          absl::SetFlag(&FLAGS_mbo_log_timing_min_severity_always, static_cast<absl::LogSeverity>(g_flag_sev));
        }
        sim::Ev("flags: %s, %d", absl::FormatDuration(g_flag_min).c_str(), g_flag_sev);
        break;
      default: Nest(sim::Choose(3)); sim::Probe("nested scopes");
    }
  }
  for (Timer& t : pool)
    if (t.impl) End(t, "last close", [&] { t.impl.reset(); });
  if (g_logged && g_quiet) sim::NonTrivial();
}
}  // namespace
const SimHarness kSimHarness = {"C09", Run, nullptr};
