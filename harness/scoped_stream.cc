// C07: histories of scoped streams over healthy and failing sinks.
#include "harness/log_common.h"
#ifdef SCHED
#include "sim/simsched.h"
#endif

namespace {
using namespace mbo::log;
using lc::Piece;
using lc::Sink;
using Loc = std::source_location;
constexpr auto kCont = ScopedStreamMode::kContinue;

std::string Hex(const std::string& s) { return sim::Quote(s, 400); }

struct World {
  std::vector<std::unique_ptr<Sink>> sinks;
  int cerr_i = -1, cout_i = -1;

  // The record has just been emitted to sink i: what may have arrived?
  void Emitted(int i, const std::string& rec, bool was_good, size_t room_before) {
    Sink& s = *sinks[i];
    if (!was_good) return;  // the stream was already failed: nothing may arrive (model unchanged)
    if (s.os->good() && s.buf.faults == 0) {
      s.model += rec;
      return;
    }
    if (s.os->good()) {
      s.model += rec;
      s.buf.faults = 0;
      return;
    }
    // Failed while writing this record: any proper prefix, no more.
    const std::string& got = s.buf.got;
    SIM_CHECK(got.size() >= s.model.size() && got.compare(0, s.model.size(), s.model) == 0 && got.size() - s.model.size() <= rec.size() &&
                  rec.compare(0, got.size() - s.model.size(), got, s.model.size(), std::string::npos) == 0,
              "torn-record", "sink %d failed while taking a record; the bytes that arrived are not a prefix of it: got tail %s, record %s", i,
              Hex(got.substr(std::min(got.size(), s.model.size()))).c_str(), Hex(rec).c_str());
    if (room_before != static_cast<size_t>(-1) && s.buf.room == 0 && room_before <= rec.size())
      SIM_CHECK(got.size() - s.model.size() == room_before, "lost-bytes", "sink %d took %zu bytes of a record before failing, could take %zu", i,
                got.size() - s.model.size(), room_before);
    s.model = got;
    sim::Probe("sink failed in the middle of a record");
  }
  void CheckAll(const char* where) {
    for (size_t i = 0; i < sinks.size(); ++i) {
      Sink& s = *sinks[i];
      SIM_CHECK(s.buf.got == s.model, s.buf.got.size() > s.model.size() ? "extra-bytes" : "missing-bytes",
                "after %s sink %zu holds %s, expected %s", where, i, Hex(s.buf.got.substr(s.buf.got.size() > 300 ? s.buf.got.size() - 300 : 0)).c_str(),
                Hex(s.model.substr(s.model.size() > 300 ? s.model.size() - 300 : 0)).c_str());
    }
  }
};

struct Open {
  virtual ~Open() = default;
  virtual void Stream(const Piece& p) = 0;
  virtual std::string Seen() const = 0;
  int sink = -1;            // -1: nothing may be written
  bool has_text = true;
  Loc loc = Loc::current();
  std::shared_ptr<std::string> msg;  // must outlive
  std::string_view shown_msg;
  std::ostringstream mirror;
};
template <class SS>
struct OpenT : Open {
  SS s;
  template <class... A> explicit OpenT(A&&... a) : s(std::forward<A>(a)...) {}
  void Stream(const Piece& p) override { p.To(s); }
  std::string Seen() const override { return std::string(s.Stream().str()); }
};

Loc L1(const Loc l = Loc::current()) { return l; }
template <class T> Loc L2(T, const Loc l = Loc::current()) { return l; }

std::unique_ptr<Open> OpenOne(World& w, uint32_t kind, int sink) {
  const Loc loc = sim::Chance(1, 2) ? L1() : L2(std::vector<int>{});
  auto msg = std::make_shared<std::string>(lc::Text());
  std::ostream& os = *w.sinks[sink]->os;
  std::unique_ptr<Open> o;
  static const VoidStream kVoid;
  bool shown = true;
  switch (kind) {
    case 0: o = std::make_unique<OpenT<ScopedStream<kCont>>>(loc, os, std::string_view(*msg)); break;
    case 1: o = std::make_unique<OpenT<ScopedStream<kCont, VoidStream>>>(loc, os, std::string_view(*msg)); o->has_text = false; break;
    case 2: o = std::make_unique<OpenT<ScopedStream<kCont, std::stringstream, std::ostream, Voidifier>>>(loc, os); shown = false; break;
    case 3: o = std::make_unique<OpenT<ScopedStream<kCont, VoidStream, std::ostream, Voidifier>>>(loc, os); shown = false; o->has_text = false; break;
    case 4: o = std::make_unique<OpenT<ScopedStream<kCont, std::stringstream, VoidStream>>>(loc, kVoid, std::string_view(*msg)); sink = -1; break;
    case 5: o = std::make_unique<OpenT<ScopedStream<kCont, VoidStream, VoidStream>>>(loc, kVoid, std::string_view(*msg)); sink = -1; o->has_text = false; break;
    case 6:  // always to std::cerr, no message
      o = std::make_unique<OpenT<ScopedStream<kCont, std::stringstream, Voidifier, Voidifier>>>(loc);
      sink = w.cerr_i; shown = false; break;
    default: o = std::make_unique<OpenT<ScopedStream<kCont, VoidStream, Voidifier, Voidifier>>>(loc); sink = w.cerr_i; shown = false; o->has_text = false; break;
  }
  o->sink = sink;
  o->loc = loc;
  o->msg = msg;
  o->shown_msg = shown ? std::string_view(*msg) : std::string_view();
  return o;
}

int g_evals = 0;
std::string SideText(World& w, int sink);
// A temporary scoped stream in one full expression, its arguments possibly emitting records themselves.
void Temporary(World& w, int sink) {
  Sink& s = *w.sinks[sink];
  const Piece p;
  const std::string msg = lc::Text();
  std::ostringstream mirror;
  const Loc loc = Loc::current();
  std::string inner;
  const bool nested = sim::Chance(1, 3);
  const bool good0 = s.os->good();
  (void)good0;
  struct AtEnd { bool* good; size_t* room; Sink* s; ~AtEnd() { } };
  if (nested) inner = "<" + lc::Text(10) + ">";
  auto arg = [&]() -> std::string {
    if (nested) {
      const Loc l2 = Loc::current();
      const bool g = s.os->good();
      const size_t r = s.buf.room;
      { ScopedStream<kCont>(l2, *s.os, std::string_view("in")) << inner; }
      w.Emitted(sink, lc::Record(l2, "in", inner), g, r);
      w.CheckAll("a record emitted while another one is being streamed");
    }
    return inner;
  };
  const std::string a_text = inner;
  bool good = true;
  size_t room = 0;
  struct Str {  // evaluated when streamed, last: notes the sink state right before the record goes out
    Sink* s; bool* good; size_t* room;
  };
  p.To(mirror);
  mirror << a_text;
  {
    ScopedStream<kCont> t(loc, *s.os, std::string_view(msg));
    auto& str = t << "";
    p.To(str);
    str << arg();
    good = s.os->good();
    room = s.buf.room;
  }
  w.Emitted(sink, lc::Record(loc, msg, mirror.str()), good, room);
  sim::Ev("temporary -> #%d nested=%d good=%d", sink, nested, good);
}

void Helpers(World& w) {
  const std::string text = lc::Text();
  const uint32_t k = sim::Choose(3);
  if (k == 0) {
    ScopedStreamVoid() << text << 42;
    sim::Ev("void helper");
    return;
  }
  const int i = k == 1 ? w.cerr_i : w.cout_i;
  if (i < 0) return;
  const bool good = w.sinks[i]->os->good();
  const size_t room = w.sinks[i]->buf.room;
  Loc l;
  if (k == 1) { l = Loc::current(); ScopedStreamErr() << text << 7; } else { l = Loc::current(); ScopedStreamOut() << text << 7; }
  w.Emitted(i, lc::Record(l, "", text + "7"), good, room);
  sim::Ev("helper %u good=%d", k, good);
}

int Evals(int* n, bool v) { ++*n; return v; }
void Passing(World& w) {
  int n = 0, m = 0;
  MBO_LOG_CHECK(Evals(&n, true)) << "never " << Evals(&m, true);
  SIM_CHECK(n == 1 && m == 0, "check-eval", "passing check evaluated its condition %d times and its message %d times", n, m);
  ScopedLogCheck(true, "what") << lc::Text() << 3;
  sim::Ev("passing checks");
}

void Program(World& w, int ops) {
  std::vector<std::unique_ptr<Open>> open;
  int closed = 0;
  for (int op = 0; op < ops; ++op) {
    sim::Span span("op");
    const uint32_t what = sim::Choose(12);
    const int sink = sim::Choose(w.sinks.size());
    if (what <= 1 || open.empty()) {
      if (open.size() >= 6) continue;
      uint32_t kind = sim::Choose(w.cerr_i >= 0 ? 8 : 6);
      open.push_back(OpenOne(w, kind, sink));
      sim::Ev("open kind %u sink %d msg %s", kind, open.back()->sink, sim::Quote(open.back()->shown_msg, 30).c_str());
    } else if (what <= 5) {
      Open& o = *open[sim::Choose(open.size())];
      const Piece p;
      o.Stream(p);
      if (o.has_text) p.To(o.mirror);
      SIM_CHECK(o.Seen() == o.mirror.str(), "stream-view", "Stream() shows %s, streamed %s", Hex(o.Seen()).c_str(), Hex(o.mirror.str()).c_str());
      sim::Ev("piece %u", p.kind);
    } else if (what <= 7) {
      const uint32_t i = sim::Choose(open.size());
      Open& o = *open[i];
      const int s = o.sink;
      const std::string rec = lc::Record(o.loc, o.shown_msg, o.mirror.str());
      const bool good = s < 0 || w.sinks[s]->os->good();
      const size_t room = s < 0 ? 0 : w.sinks[s]->buf.room;
      auto keep = o.msg;
      open.erase(open.begin() + i);
      if (s >= 0) w.Emitted(s, rec, good, room);
      ++closed;
      sim::Ev("close #%u sink %d", i, s);
      sim::State(sim::Hash64(rec.substr(rec.size() > 40 ? rec.size() - 40 : 0)) ^ s ^ (uint64_t{good} << 8));
    } else if (what == 8) {
      Temporary(w, sink);
    } else if (what == 9) {
      sim::Chance(1, 2) ? Helpers(w) : Passing(w);
    } else if (what == 10) {
      Sink& s = *w.sinks[sink];
      switch (sim::Choose(3)) {
        case 0: s.buf.room = sim::Choose(120); sim::Ev("sink %d will fail after %zu", sink, s.buf.room); break;
        case 1: s.buf.sync_fail_in = 1 + sim::Choose(6); sim::Ev("sink %d: sync will fail", sink); break;
        default: s.buf.stutter = true; sim::Ev("sink %d stutters", sink); break;
      }
    } else {
      Sink& s = *w.sinks[sink];
      s.buf.room = static_cast<size_t>(-1);
      s.buf.sync_fail_in = 0;
      s.buf.faults = 0;
      if (!s.os->good()) sim::Probe("failed sink recovered");
      s.os->clear();
      sim::Ev("sink %d recovers", sink);
    }
    w.CheckAll("an operation");
  }
  while (!open.empty()) {
    Open& o = *open.back();
    const int s = o.sink;
    const std::string rec = lc::Record(o.loc, o.shown_msg, o.mirror.str());
    const bool good = s < 0 || w.sinks[s]->os->good();
    const size_t room = s < 0 ? 0 : w.sinks[s]->buf.room;
    auto keep = o.msg;
    open.pop_back();
    if (s >= 0) w.Emitted(s, rec, good, room);
    w.CheckAll("closing the remaining scopes");
    ++closed;
  }
  if (closed >= 2) sim::NonTrivial();
}

void Run() {
#ifdef SCHED
  const int nt = 2 + sim::Choose(2);
  std::vector<World> ws(nt);
  sched::Begin();
  for (int t = 0; t < nt; ++t) {
    for (uint32_t i = 0, n = 1 + sim::Choose(2); i < n; ++i) ws[t].sinks.push_back(std::make_unique<Sink>());
    sched::Spawn([&ws, t] { Program(ws[t], 2 + sim::Choose(12)); });
  }
  sched::RunAll();
  for (auto& w : ws) w.CheckAll("joining");
  if (sched::Switches() >= 2) sim::Probe("threads interleaved");
#else
  World w;
  for (uint32_t i = 0, n = 1 + sim::Choose(3); i < n; ++i) w.sinks.push_back(std::make_unique<Sink>());
  std::streambuf* e = std::cerr.rdbuf();
  std::streambuf* c = std::cout.rdbuf();
  w.cerr_i = w.sinks.size();
  w.sinks.push_back(std::make_unique<Sink>(&std::cerr));
  w.cout_i = w.sinks.size();
  w.sinks.push_back(std::make_unique<Sink>(&std::cout));
  Program(w, 4 + sim::Choose(40));
  std::cerr.rdbuf(e);
  std::cout.rdbuf(c);
#endif
}
}  // namespace
const SimHarness kSimHarness = {"C07", Run, nullptr};
