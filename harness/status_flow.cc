// C27: routines built from the status macros and the status builder, with any step failing, against a plain interpreter.
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/cord.h"
#include "mbo/status/status.h"
#include "mbo/status/status_builder.h"
#include "mbo/status/status_macros.h"
#include "sim/sim.h"

namespace {
using mbo::status::StatusBuilder;
uint32_t g_countdown;
bool g_alloc_failed;

// ---- what is observed
std::vector<std::string> g_trace;  // evaluations, in order
int g_live;                        // resources held

struct Res {
  int id;
  explicit Res(int i) : id(i) { ++g_live; }
  Res(Res&& o) noexcept : id(std::exchange(o.id, -1)) { ++g_live; }
  Res& operator=(Res&& o) noexcept {
    id = std::exchange(o.id, -1);
    return *this;
  }
  Res(const Res&) = delete;
  ~Res() { --g_live; }
};

// ---- the model of a status
struct MStatus {
  absl::StatusCode code = absl::StatusCode::kOk;
  std::string message;
  std::map<std::string, std::string> payloads;
  bool ok() const { return code == absl::StatusCode::kOk; }
};
absl::Status Real(const MStatus& m) {
  if (m.ok()) return absl::OkStatus();
  absl::Status s(m.code, m.message);
  for (auto& [k, v] : m.payloads) s.SetPayload(k, absl::Cord(v));
  return s;
}
MStatus Model(const absl::Status& s) {
  MStatus m;
  m.code = s.code();
  m.message = std::string(s.message());
  s.ForEachPayload([&](std::string_view k, const absl::Cord& v) { m.payloads[std::string(k)] = std::string(v); });
  return m;
}
std::string Show(const MStatus& m) {
  std::string s = std::to_string(static_cast<int>(m.code)) + " " + sim::Quote(m.message, 200);
  for (auto& [k, v] : m.payloads) s += " " + k + "=" + sim::Quote(v, 60);
  return s;
}
void Same(const char* what, const MStatus& got, const MStatus& want) {
  SIM_CHECK(got.ok() == want.ok(), want.ok() ? "success-became-failure" : "failure-lost", "%s: status is %s, expected %s", what, Show(got).c_str(), Show(want).c_str());
  SIM_CHECK(got.code == want.code, "wrong-code", "%s: status is %s, expected %s", what, Show(got).c_str(), Show(want).c_str());
  SIM_CHECK(got.message == want.message, "wrong-message", "%s: status is %s, expected %s", what, Show(got).c_str(), Show(want).c_str());
  SIM_CHECK(got.payloads == want.payloads, "wrong-payload", "%s: status is %s, expected %s", what, Show(got).c_str(), Show(want).c_str());
}
std::string Word() {
  static const char* const kWords[] = {"", "file: ", "<a>", "no such thing", "x", "a rather long text that does not fit into a small string", "100%", "\n"};
  const int n = sim::Choose(10);
  if (n == 8) return std::string("nul\0after", 9);
  if (n == 9) return sim::Chance(1, 4) ? std::string(100 + sim::Choose(3000), 'w') : std::string("\xff\xc3");
  return kWords[n];
}
MStatus GenFailure() {
  MStatus m;
  m.code = static_cast<absl::StatusCode>(1 + sim::Choose(16));
  m.message = Word() + Word();
  for (uint32_t n = sim::Choose(3); n > 0; --n) m.payloads["type.url/" + std::to_string(sim::Choose(3))] = Word();
  return m;
}

// ---- decoration of a failure: how a caller extends it
struct Deco {
  uint32_t mode = 0;  // 0 none, 1 stream, 2 append, 3 prepend, 4 prepend then append, 5 payload, 6 stream and payload
  std::string a, b, url;
  int n = 0;
};
Deco GenDeco() {
  Deco d;
  d.mode = sim::Choose(7);
  if (d.mode) d.a = Word(), d.b = Word(), d.url = "type.url/" + std::to_string(sim::Choose(4)), d.n = static_cast<int>(sim::Choose(100));
  return d;
}
MStatus Decorate(MStatus m, const Deco& d) {
  if (m.ok()) return m;
  switch (d.mode) {
    case 1: m.message += d.a + std::to_string(d.n) + d.b; break;
    case 2: m.message += d.a + d.b; break;
    case 3: m.message = d.a + std::to_string(d.n) + m.message; break;
    case 4: m.message = d.a + m.message + d.b; break;
    case 5: m.payloads[d.url] = d.a; break;
    case 6: m.message += d.b; m.payloads[d.url] = d.a; break;
    default: break;
  }
  return m;
}

// ---- routines: a tree of steps
struct Routine;
struct Step {
  uint32_t kind = 0;
  int id = 0;
  MStatus result;  // of a leaf
  Deco deco;
  std::unique_ptr<Routine> sub;
  bool branch = false;
};
struct Routine {
  std::vector<Step> steps;
  bool yields = false;  // returns StatusOr<Res>
};
enum { kStatus, kStatusOr, kAssignDecl, kAssignVar, kMoveTo, kSub, kSubYields, kElse, kLoop, kBuilder, kKinds };

int g_next;
std::unique_ptr<Routine> GenRoutine(int depth, int& budget) {
  auto r = std::make_unique<Routine>();
  for (uint32_t n = 1 + sim::Choose(5); n > 0 && budget > 0; --n, --budget) {
    sim::Span span("step");
    Step s;
    s.kind = sim::Choose(kKinds);
    if (depth >= 3 && (s.kind == kSub || s.kind == kSubYields)) s.kind = kStatus;
    s.id = ++g_next;
    s.branch = sim::Choose(2);
    s.deco = GenDeco();
    if (s.kind == kSub || s.kind == kSubYields) {
      s.sub = GenRoutine(depth + 1, budget);
      s.sub->yields = s.kind == kSubYields;
    } else if (sim::Chance(1, 5)) {
      s.result = GenFailure();
    }
    r->steps.push_back(std::move(s));
  }
  return r;
}
// ---- the real thing
void Tr(const Step& s, const char* what) {
  g_trace.push_back(std::to_string(s.id) + what);
}
absl::Status LeafStatus(const Step& s) {
  Tr(s, "");
  return Real(s.result);
}
absl::StatusOr<Res> LeafRes(const Step& s) {
  Tr(s, "");
  if (!s.result.ok()) return Real(s.result);
  return Res(s.id);
}
absl::StatusOr<std::pair<Res, int>> LeafPair(const Step& s) {
  Tr(s, "");
  if (!s.result.ok()) return Real(s.result);
  return std::pair<Res, int>(Res(s.id), s.id + 1);
}
void Holds(const Res& r, int id) { SIM_CHECK(r.id == id, "wrong-value", "a step's value is %d, expected %d", r.id, id); }

absl::Status RunStatus(const Routine& r);
absl::StatusOr<Res> RunYields(const Routine& r);
// The macro under each decoration; R is the evaluated expression.
#define RETURN_IF_ERROR_DECORATED(R)                                                                       \
  switch (s.deco.mode) {                                                                                   \
    case 1: MBO_RETURN_IF_ERROR(R) << s.deco.a << s.deco.n << s.deco.b; break;                             \
    case 2: MBO_RETURN_IF_ERROR(R).SetAppend() << s.deco.a << s.deco.b; break;                             \
    case 3: MBO_RETURN_IF_ERROR(R).SetPrepend() << s.deco.a << s.deco.n; break;                            \
    case 4: MBO_RETURN_IF_ERROR(R).SetPrepend() << s.deco.a << StatusBuilder::Append << s.deco.b; break;   \
    case 5: MBO_RETURN_IF_ERROR(R).SetPayload(s.deco.url, s.deco.a); break;                                \
    case 6: MBO_RETURN_IF_ERROR(R).SetPayload(s.deco.url, s.deco.a) << s.deco.b; break;                    \
    default: MBO_RETURN_IF_ERROR(R); break;                                                                \
  }
template <class Ret>
Ret RunSteps(const Routine& r) {
  Res held(1000);
  std::vector<Res> kept;
  for (const Step& s : r.steps) {
    switch (s.kind) {
      case kStatus: RETURN_IF_ERROR_DECORATED(LeafStatus(s)) break;
      case kStatusOr: RETURN_IF_ERROR_DECORATED(LeafRes(s)) break;
      case kAssignDecl: {
        MBO_ASSIGN_OR_RETURN(Res v, LeafRes(s));
        Holds(v, s.id);
        kept.push_back(std::move(v));
        break;
      }
      case kAssignVar: {
        MBO_ASSIGN_OR_RETURN(held, LeafRes(s));
        Holds(held, s.id);
        break;
      }
      case kMoveTo: {
        MBO_MOVE_TO_OR_RETURN(LeafPair(s), auto [first, second]);
        Holds(first, s.id);
        SIM_CHECK(second == s.id + 1, "wrong-value", "the second value is %d", second);
        kept.push_back(std::move(first));
        break;
      }
      case kSub: RETURN_IF_ERROR_DECORATED(RunStatus(*s.sub)) break;
      case kSubYields: {
        if (s.branch) {
          MBO_ASSIGN_OR_RETURN(held, RunYields(*s.sub));
        } else {
          RETURN_IF_ERROR_DECORATED(RunYields(*s.sub))
        }
        break;
      }
      case kElse:
        // An unbraced use keeps its place between if and else.
        if (s.branch)
          MBO_RETURN_IF_ERROR(LeafStatus(s)) << s.deco.a;
        else
          Tr(s, "else");
        break;
      case kLoop:
        for (int i = 0; i < 2; ++i) MBO_RETURN_IF_ERROR(i == 1 ? LeafStatus(s) : (Tr(s, "first"), absl::OkStatus())) << i << s.deco.b;
        break;
      default: {  // a builder as the expression's source
        absl::Status st = LeafStatus(s);
        StatusBuilder b(st);
        SIM_CHECK(b.ok() == s.result.ok(), "failure-lost", "a builder's ok() is %d", b.ok());
        b << s.deco.a;
        MBO_RETURN_IF_ERROR(mbo::status::GetStatus(std::move(b)));
        break;
      }
    }
  }
  Tr(r.steps.back(), "end");
  if constexpr (std::is_same_v<Ret, absl::Status>) return absl::OkStatus();
  else return Res(r.steps.back().id);
}
absl::Status RunStatus(const Routine& r) { return RunSteps<absl::Status>(r); }
absl::StatusOr<Res> RunYields(const Routine& r) { return RunSteps<absl::StatusOr<Res>>(r); }

// ---- the model
MStatus Interpret(const Routine& r, std::vector<std::string>& trace) {
  for (const Step& s : r.steps) {
    MStatus m;
    auto leaf = [&] {
      trace.push_back(std::to_string(s.id));
      return s.result;
    };
    switch (s.kind) {
      case kStatus: case kStatusOr: m = Decorate(leaf(), s.deco); break;
      case kAssignDecl: case kAssignVar: case kMoveTo: m = leaf(); break;
      case kSub: m = Decorate(Interpret(*s.sub, trace), s.deco); break;
      case kSubYields:
        m = Interpret(*s.sub, trace);
        if (!s.branch) m = Decorate(m, s.deco);
        break;
      case kElse:
        if (s.branch) {
          m = leaf();
          if (!m.ok()) m.message += s.deco.a;
        } else {
          trace.push_back(std::to_string(s.id) + "else");
        }
        break;
      case kLoop:
        trace.push_back(std::to_string(s.id) + "first");
        m = leaf();
        if (!m.ok()) m.message += "1" + s.deco.b;
        break;
      default:
        m = leaf();
        if (!m.ok()) m.message += s.deco.a;
        break;
    }
    if (!m.ok()) return m;
  }
  trace.push_back(std::to_string(r.steps.back().id) + "end");
  return {};
}
std::string Join(const std::vector<std::string>& v) {
  std::string s;
  for (auto& x : v) s += (s.empty() ? "" : " ") + x;
  return s;
}
void RunRoutine() {
  int budget = 24;
  const auto r = GenRoutine(0, budget);
  r->yields = sim::Choose(2);
  std::vector<std::string> want_trace;
  const MStatus want = Interpret(*r, want_trace);
  MStatus got;
  const uint32_t arm = sim::Chance(1, 4) ? 1 + sim::Choose(20) : 0;
  g_trace.reserve(200);
  g_live = 0;
  g_alloc_failed = false;
  bool threw = false;
  {
    std::optional<absl::Status> st;
    std::optional<absl::StatusOr<Res>> res;
    g_countdown = arm;
    try {
      if (r->yields) res.emplace(RunYields(*r));
      else st.emplace(RunStatus(*r));
    } catch (const std::bad_alloc&) {
      threw = true;
    }
    g_countdown = 0;
    if (res && res->ok()) {
      SIM_CHECK((*res)->id == r->steps.back().id, "wrong-value", "the routine's value is %d", (*res)->id);
      SIM_CHECK(g_live == 1, "resource-leaked", "%d resources are held after a routine, expected 1", g_live);
    } else {
      SIM_CHECK(g_live == 0, "resource-leaked", "%d resources are still held after a routine %s", g_live, threw ? "was interrupted" : "returned");
    }
    if (!threw) got = Model(st ? *st : res->status());
  }
  SIM_CHECK(g_live == 0, "resource-leaked", "%d resources are still held", g_live);
  sim::Ev("routine of %zu: %s, %s", r->steps.size(), Join(g_trace).c_str(), threw ? "threw" : Show(got).c_str());
  if (g_alloc_failed) {
    sim::Fault("allocation fails");
    SIM_CHECK(g_trace.size() <= want_trace.size() && std::equal(g_trace.begin(), g_trace.end(), want_trace.begin()), "wrong-step", "steps run: %s, expected a prefix of %s", Join(g_trace).c_str(), Join(want_trace).c_str());
    if (!threw) SIM_CHECK(got.code == want.code, want.ok() ? "success-became-failure" : "failure-lost", "with a failing allocation: status is %s, expected %s", Show(got).c_str(), Show(want).c_str());
    sim::Probe("routine under allocation failure");
  } else {
    SIM_CHECK(!threw, "spurious-failure", "a routine is left by an exception");
    SIM_CHECK(g_trace == want_trace, "wrong-step", "steps run: %s, expected %s", Join(g_trace).c_str(), Join(want_trace).c_str());
    Same("routine", got, want);
  }
  if (!want.ok()) sim::NonTrivial();
  sim::State(sim::Hash64("routine", want_trace.size() * 64 + static_cast<uint64_t>(want.code)));
  sim::Probe(want.ok() ? "routine ran to its end" : "a step failed");
}

// ---- builder histories
struct MBuilder {
  std::optional<MStatus> status;  // none: fine
  std::string stream;
  bool prepend = false, appended = false, streamed = false;
  MStatus Get() const {
    if (!status) return {};
    MStatus m = *status;
    if (appended) m.message = stream;
    else if (prepend) m.message = stream + m.message;
    else m.message += stream;
    return m;
  }
};
void RunBuilders() {
  constexpr int kN = 3;
  std::optional<StatusBuilder> b[kN];
  MBuilder m[kN];
  for (uint32_t n = 3 + sim::Choose(14); n > 0; --n) {
    sim::Span span("op");
    const int i = static_cast<int>(sim::Choose(kN)), j = static_cast<int>(sim::Choose(kN));
    const uint32_t op = sim::Choose(12);
    if (!b[i] || op == 0) {
      MStatus s = sim::Choose(4) ? GenFailure() : MStatus{};
      const uint32_t how = sim::Choose(5);
      sim::Ev("builder %d from %u: %s", i, how, Show(s).c_str());
      b[i].reset();
      m[i] = {};
      if (how == 4) s = {};
      if (!s.ok()) m[i].status = s;
      switch (how) {
        case 0: b[i].emplace(Real(s)); break;
        case 1: {
          const absl::Status st = Real(s);
          b[i].emplace(st);
          Same("source of a builder", Model(st), s);
          break;
        }
        case 2: {
          const absl::StatusOr<int> so = s.ok() ? absl::StatusOr<int>(1) : absl::StatusOr<int>(Real(s));
          b[i].emplace(so);
          Same("source of a builder", Model(so.status()), s);
          break;
        }
        case 3: {
          absl::StatusOr<std::string> so = s.ok() ? absl::StatusOr<std::string>("v") : absl::StatusOr<std::string>(Real(s));
          const absl::StatusOr<std::string> other = so;
          Same("GetStatus", Model(mbo::status::GetStatus(other)), s);
          Same("GetStatus", Model(mbo::status::GetStatus(so)), s);
          Same("source of GetStatus", Model(so.status()), s);
          Same("GetStatus", Model(mbo::status::GetStatus(std::move(so))), s);
          b[i].emplace(s.ok() ? absl::StatusOr<int>(1) : absl::StatusOr<int>(Real(s)));
          break;
        }
        default: b[i].emplace(); break;
      }
    } else {
      MBuilder& x = m[i];
      const bool live = x.status.has_value();
      switch (op) {
        case 1: case 2: case 3: {
          const std::string t = Word();
          sim::Ev("builder %d << %s", i, sim::Quote(t).c_str());
          if (op == 1) *b[i] << t;
          else if (op == 2) *b[i] << t.c_str() << 12;
          else b[i] = std::move(*b[i]) << std::string_view(t);
          if (live) x.stream += op == 2 ? t.c_str() + std::string("12") : t, x.streamed = true;
          break;
        }
        case 4: case 5:
          // Streaming first and switching later has no documented meaning without SetPrepend.
          if (x.streamed && !x.prepend && !x.appended) continue;
          sim::Ev("builder %d append", i);
          if (sim::Choose(2)) b[i]->SetAppend();
          else *b[i] << StatusBuilder::Append;
          if (live && !x.appended) {
            x.stream += x.status->message;
            x.appended = true;
          }
          break;
        case 6:
          if (x.streamed && !x.prepend && !x.appended) continue;
          sim::Ev("builder %d prepend", i);
          b[i]->SetPrepend();
          if (live && !x.appended) x.prepend = true;
          break;
        case 7: {
          const std::string url = "type.url/" + std::to_string(sim::Choose(3)), v = Word();
          sim::Ev("builder %d payload %s", i, url.c_str());
          if (sim::Choose(2)) b[i]->SetPayload(url, v);
          else b[i]->SetPayload(url, absl::Cord(v));
          if (live) x.status->payloads[url] = v;
          break;
        }
        case 8:
          if (i == j) continue;
          sim::Ev("builder %d moved to %d", i, j);
          if (b[j] && sim::Choose(2)) *b[j] = std::move(*b[i]);
          else b[j].reset(), b[j].emplace(std::move(*b[i]));
          m[j] = m[i];
          m[i] = {};
          // A moved-from builder carries the status no more.
          SIM_CHECK(b[i]->ok(), "status-carried-twice", "a moved-from builder still has a failure");
          sim::Probe("builder moved");
          break;
        case 9: {
          sim::Ev("builder %d converted and gone", i);
          const MStatus want = m[i].Get();
          absl::Status st = std::move(*b[i]);
          Same("converted builder", Model(st), want);
          b[i].reset();
          m[i] = {};
          continue;
        }
        case 10: {
          const auto so = [&]() -> absl::StatusOr<int> {
            if (b[i]->ok()) return 5;
            return absl::Status(*b[i]);
          }();
          Same("StatusOr of a builder", Model(so.status()), m[i].Get());
          break;
        }
        default: break;
      }
    }
    for (int k = 0; k < kN; ++k)
      if (b[k]) {
        SIM_CHECK(b[k]->ok() == !m[k].status.has_value(), m[k].status ? "failure-lost" : "success-became-failure", "builder %d: ok() is %d", k, b[k]->ok());
        Same("builder", Model(absl::Status(*b[k])), m[k].Get());
        Same("GetStatus", Model(mbo::status::GetStatus(absl::Status(*b[k]))), m[k].Get());
      }
    sim::State(sim::Hash64("builder", op * 16 + (m[i].status ? 8 : 0) + m[i].prepend * 2 + m[i].appended));
  }
  sim::NonTrivial();
}
void Run() {
  if (sim::ChooseIndexed(3) == 0) return RunBuilders();
  RunRoutine();
}
}  // namespace
void* operator new(size_t n) {
  if (g_countdown != 0 && --g_countdown == 0) {
    g_alloc_failed = true;
    throw std::bad_alloc();
  }
  void* p = malloc(n);
  if (p == nullptr) abort();
  return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
const SimHarness kSimHarness = {"C27", Run, nullptr};
