// C08: failed log checks (MBO_LOG_CHECK, ScopedLogCheck, kQuickExit streams) with a faulty stderr and buffered outputs.
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>

#include "harness/log_common.h"

extern "C" {
[[noreturn]] void __real_quick_exit(int);
[[noreturn]] void __real__Exit(int);
[[noreturn]] void __real_exit(int);
}

namespace {
using namespace mbo::log;
using lc::Piece;
using lc::Sink;
using Loc = std::source_location;

bool g_real = false;       // in the grandchild: real process exit
bool g_expect_exit = false;
std::string g_before;      // bytes handed to the sink before the failing check
std::string g_record;
Sink* g_sink = nullptr;    // where the record goes
std::vector<Sink*> g_others;
std::vector<std::string> g_others_before;
const char* g_how = "";

// The process is about to end.
[[noreturn]] void Ending(const char* via, int code, bool runs_destructors) {
  SIM_CHECK(g_expect_exit, "unexpected-exit", "%s(%d) although no check failed", via, code);
  SIM_CHECK(code == 1, "exit-status", "a failed check ends the process through %s(%d)", via, code);
  if (runs_destructors) { std::cerr.flush(); std::cout.flush(); }
  const std::string& got = g_sink->buf.got;
  const std::string want = g_before + g_record;
  const bool healthy = g_sink->buf.room == static_cast<size_t>(-1);
  if (healthy)
    SIM_CHECK(got == want, got.size() < want.size() ? "record-not-handed-over" : "record-mismatch", "%s: at %s(%d) standard error holds %s, expected %s", g_how, via, code,
              sim::Quote(got, 400).c_str(), sim::Quote(want, 400).c_str());
  else {
    SIM_CHECK(want.compare(0, got.size(), got) == 0, "record-mismatch", "%s: on a failing standard error the bytes are no prefix: %s, record %s", g_how,
              sim::Quote(got, 400).c_str(), sim::Quote(want, 400).c_str());
    if (got.size() < want.size()) sim::Probe("standard error failed inside the record");
  }
  for (size_t i = 0; i < g_others.size(); ++i) {
    const std::string now = g_others[i]->buf.got + g_others[i]->buf.pend;
    SIM_CHECK(now == g_others_before[i], "wrong-sink", "%s: another sink received %s", g_how, sim::Quote(now, 300).c_str());
  }
  sim::Ev("%s via exit: %zu of %zu bytes, pending %zu", g_how, got.size(), want.size(), g_sink->buf.pend.size());
  sim::State(sim::Hash64(g_how) ^ g_sink->buf.cap ^ (uint64_t{healthy} << 20) ^ (uint64_t{got.size() == want.size()} << 21) ^ (uint64_t{g_sink->buf.stutter} << 22) ^ (std::min<uint64_t>(g_record.size(), 600) << 24));
  sim::NonTrivial();
  sim::Done();
}
}  // namespace

extern "C" {
[[noreturn]] void __wrap_quick_exit(int c) { if (g_real) __real_quick_exit(c); Ending("quick_exit", c, false); }
[[noreturn]] void __wrap__Exit(int c) { if (g_real) __real__Exit(c); Ending("_Exit", c, false); }
[[noreturn]] void __wrap__exit(int c) { if (g_real) __real__Exit(c); Ending("_exit", c, false); }
[[noreturn]] void __wrap_exit(int c) { if (g_real) __real_exit(c); Ending("exit", c, true); }
}

namespace {
int Count(int* n, bool v) { ++*n; return v; }

std::string PassingOps() {
  int n = 0, m = 0;
  switch (sim::Choose(4)) {
    case 0:
      MBO_LOG_CHECK(Count(&n, true)) << "never" << Count(&m, true);
      SIM_CHECK(n == 1 && m == 0, "check-eval", "passing MBO_LOG_CHECK evaluated its condition %d times, its message %d times", n, m);
      return "MBO_LOG_CHECK pass";
    case 1: {
      const std::string what = lc::Text();
      const Piece p;
      { auto s = ScopedLogCheck(Count(&n, true), what); s << lc::Text(); p.To(s); }
      ScopedLogCheck(true, what) << lc::Text() << 5;
      SIM_CHECK(n == 1, "check-eval", "ScopedLogCheck evaluated its condition %d times", n);
      return "ScopedLogCheck pass";
    }
    case 2:
      if (Count(&n, false)) MBO_LOG_CHECK(false) << "dangling"; else ++m;
      SIM_CHECK(n == 1 && m == 1, "dangling-else", "an else after MBO_LOG_CHECK binds to the wrong if");
      return "dangling else";
    default:
      for (int i = 0; i < 3; ++i) MBO_LOG_CHECK(Count(&n, i < 3)) << i;
      SIM_CHECK(n == 3, "check-eval", "condition in a loop evaluated %d times, expected 3", n);
      return "loop pass";
  }
}

void Snapshot(Sink* to, const std::string& rec, const char* how) {
  g_sink = to;
  g_before = to->buf.got + to->buf.pend;
  if (!to->os->good()) {
    // Already failed: nothing more can arrive.
    g_record.clear();
    g_before = to->buf.got + to->buf.pend;
  } else {
    g_record = rec;
  }
  g_how = how;
  g_expect_exit = true;
}

// Performs the failing statement; returns only if the process did not end.
void Failing(std::vector<Sink*>& sinks, Sink* err) {
  const Piece p1, p2;
  const std::string msg = lc::Text();
  std::ostringstream m;
  auto others = [&](Sink* to) {
    g_others.clear(); g_others_before.clear();
    for (Sink* s : sinks) if (s != to) { g_others.push_back(s); g_others_before.push_back(s->buf.got + s->buf.pend); }
  };
  const uint32_t how = sim::Choose(7);
  Loc l;
  switch (how) {
    case 0: {
      p1.To(m); m << "|" << msg;
      others(err);
      bool ok = false;
      std::ostringstream pre;
      p1.To(pre);
      const std::string text = pre.str();
      // One line: the location reported is that of the macro.
      l = Loc::current(); Snapshot(err, lc::Record(l, "Failed MBO_LOG_CHECK(ok)", m.str()), "MBO_LOG_CHECK"); MBO_LOG_CHECK(ok) << text << "|" << msg;
      break;
    }
    case 1: {
      others(err);
      l = Loc::current(); Snapshot(err, lc::Record(l, "Failed MBO_LOG_CHECK(1 == 2)", ""), "MBO_LOG_CHECK without message"); MBO_LOG_CHECK(1 == 2);
      break;
    }
    case 2: {
      p1.To(m); p2.To(m);
      others(err);
      l = Loc::current();
      Snapshot(err, lc::Record(l, msg, m.str()), "ScopedLogCheck");
      { auto s = ScopedLogCheck(false, msg, l); p1.To(s); p2.To(s); }
      break;
    }
    case 3: {
      p1.To(m);
      others(err);
      l = Loc::current();
      Snapshot(err, lc::Record(l, "", m.str()), "ScopedStreamErr<kQuickExit>");
      { ScopedStream<ScopedStreamMode::kQuickExit, std::stringstream, Voidifier, Voidifier> s(l); p1.To(s); }
      break;
    }
    case 4: {
      Sink* to = sinks[sim::Choose(sinks.size())];
      p1.To(m); p2.To(m);
      others(to);
      l = Loc::current();
      Snapshot(to, lc::Record(l, msg, m.str()), "ScopedStream<kQuickExit> to a chosen sink");
      { ScopedStream<ScopedStreamMode::kQuickExit> s(l, *to->os, std::string_view(msg)); p1.To(s); p2.To(s); }
      break;
    }
    case 5: {  // only the fixed message is kept
      Sink* to = sinks[sim::Choose(sinks.size())];
      others(to);
      l = Loc::current();
      Snapshot(to, lc::Record(l, msg, ""), "ScopedStream<kQuickExit, VoidStream>");
      { ScopedStream<ScopedStreamMode::kQuickExit, VoidStream> s(l, *to->os, std::string_view(msg)); p1.To(s); }
      break;
    }
    default: {  // a check failing while the message of another failing check is being built: the inner one ends the process
      others(err);
      bool ok = false;
      auto inner = [&]() -> std::string {
        l = Loc::current(); Snapshot(err, lc::Record(l, "Failed MBO_LOG_CHECK(ok)", "inner" + msg), "nested MBO_LOG_CHECK"); MBO_LOG_CHECK(ok) << "inner" << msg;
        return "unreachable";
      };
      MBO_LOG_CHECK(ok) << "outer" << inner();
      break;
    }
  }
  sim::Fail("no-exit", "%s: the process continued after a failed check", g_how);
}

// End to end: real quick_exit, real std::cerr, real descriptor (a pipe), in a process of its own.
void RealProcess() {
  int fd[2];
  if (pipe2(fd, O_CLOEXEC) != 0) return;
  const std::string msg = lc::Text();
  const uint32_t how = sim::Choose(3);
  const uint32_t passing = sim::Choose(3);
  const bool buffered_out = sim::Chance(1, 2);
  std::string want;
  const Loc l = Loc::current();
  if (how == 0) want = lc::Record(l, "what", msg + "7");
  if (how == 1) want = lc::Record(l, "", msg + "7");
  if (how == 2) want = "";
  const pid_t pid = fork();
  if (pid == 0) {
    g_real = true;
    dup2(fd[1], 2);
    const int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    if (buffered_out) std::cout << "pending";
    for (uint32_t i = 0; i < passing; ++i) { MBO_LOG_CHECK(i < 3) << "no"; ScopedLogCheck(true, "x") << "no"; }
    if (how == 0) { ScopedLogCheck(false, "what", l) << msg << 7; }
    if (how == 1) { ScopedStreamErr<ScopedStreamMode::kQuickExit>(l) << msg << 7; }
    __real__Exit(77);
  }
  close(fd[1]);
  std::string got;
  char b[4096];
  for (ssize_t n; (n = read(fd[0], b, sizeof b)) > 0;) got.append(b, n);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  const int code = how == 2 ? 77 : 1;
  SIM_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == code, "real-exit-status", "real process: wait status 0x%x, expected exit %d", st, code);
  SIM_CHECK(got == want, "real-record", "real process wrote %s, expected %s", sim::Quote(got, 300).c_str(), sim::Quote(want, 300).c_str());
  sim::Ev("real process how=%u bytes=%zu", how, got.size());
  sim::Probe("real process end");
}

void Run() {
  if (sim::Chance(1, 10)) return RealProcess();
  static Sink err(&std::cerr), out(&std::cout);
  Sink own;
  std::vector<Sink*> sinks{&err, &out, &own};
  for (Sink* s : sinks) {
    if (sim::Chance(1, 2)) s->buf.cap = 1 + sim::Choose(300);
    if (sim::Chance(1, 4)) s->buf.stutter = true;
  }
  if (sim::Chance(1, 2)) std::cerr << std::nounitbuf; else std::cerr << std::unitbuf;
  std::cerr.tie(nullptr);
  // Scopes that are still open when the process ends must not write.
  std::vector<std::unique_ptr<ScopedStream<>>> open;
  for (uint32_t i = 0, n = 1 + sim::Choose(12); i < n; ++i) {
    sim::Span sp("op");
    switch (sim::Choose(5)) {
      case 0: case 1: {
        std::string before[3];
        for (int k = 0; k < 3; ++k) before[k] = sinks[k]->buf.got + sinks[k]->buf.pend;
        sim::Ev("%s", PassingOps().c_str());
        for (int k = 0; k < 3; ++k)
          SIM_CHECK(before[k] == sinks[k]->buf.got + sinks[k]->buf.pend, "pass-wrote", "a passing check wrote %s", sim::Quote(sinks[k]->buf.got + sinks[k]->buf.pend, 200).c_str());
        break;
      }
      case 2: { Sink* s = sinks[sim::Choose(3)]; *s->os << "user output " << i << (sim::Chance(1, 2) ? "\n" : ""); sim::Ev("user output"); break; }
      case 3: {
        if (open.size() < 3) { Sink* s = sinks[sim::Choose(3)]; open.push_back(std::make_unique<ScopedStream<>>(Loc::current(), *s->os)); *open.back() << "still open"; sim::Ev("open scope"); }
        break;
      }
      default:
        if (!open.empty()) { open.pop_back(); sim::Ev("close scope"); }
        break;
    }
  }
  if (sim::Chance(1, 4)) { Sink* s = sinks[sim::Choose(3)]; s->buf.room = sim::Choose(200); sim::Ev("a sink will fail after %zu bytes", s->buf.room); }
  if (sim::Chance(9, 10)) Failing(sinks, &err);
  else open.clear();
}
}  // namespace
const SimHarness kSimHarness = {"C08", Run, nullptr};
