// C10/C11/C12/C13: histories of file reads and writes over a simulated, failing file system.
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "harness/file_common.h"
#include "mbo/file/artefact.h"
#include "mbo/file/file.h"

namespace {
using namespace mbo::file;

struct Entry {
  std::string path;      // as given to the functions
  std::string master;    // longest content; the file holds a prefix of it
  vfs::P node;
  size_t lo = 0, hi = 0;  // lengths held since the current call began
};
std::vector<Entry> files;
Entry* watched = nullptr;
int mutations = 0;

void Mutate(vfs::Op, const std::string&) {
  if (!watched || !watched->node || mutations <= 0) return;
  if (!sim::Chance(1, 4)) return;
  --mutations;
  Entry& e = *watched;
  const size_t n = sim::Chance(1, 2) ? sim::Range(0, e.node->data.size()) : sim::Range(0, e.master.size());
  const bool grew = n > e.node->data.size();
  e.node->data = e.master.substr(0, n);
  ++e.node->version;
  e.lo = std::min(e.lo, n);
  e.hi = std::max(e.hi, n);
  sim::Fault(grew ? "file grows while read" : "file shrinks while read");
  sim::Ev("file now %zu bytes", n);
}

int64_t DrawTime() {
  switch (sim::Choose(5)) {
    case 0: return 1700000000000000000 + static_cast<int64_t>(sim::Range(0, 1000000000000));
    case 1: return static_cast<int64_t>(sim::Range(0, 5000000000));
    case 2: return -static_cast<int64_t>(sim::Range(1, 4000000000000000000));
    case 3: return static_cast<int64_t>(sim::Range(0, 4000000000)) * 1000000000 + 999999999;
    default: return static_cast<int64_t>(sim::Range(0, 2)) * 1000000000 - 1;
  }
}

void MakeTree() {
#if defined(PROP_C10) || defined(PROP_C13)
  const bool huge = sim::Chance(1, 200);
#else
  const bool huge = false;
#endif
  const int n = huge ? 1 : static_cast<int>(sim::Range(1, 4));
  for (int i = 0; i < n; ++i) {
    Entry e;
    std::string dir = "/sim";
    for (uint32_t k = sim::Choose(3); k > 0; --k) dir += "/d" + std::to_string(sim::Choose(2));
    e.path = dir + "/f" + std::to_string(i);
        e.master = fc::AnyContent(huge);
    e.node = vfs::Add(e.path, vfs::kFile, e.master, 0644);
    e.node->mtime_ns = DrawTime();
    if (sim::Chance(1, 4)) {
      const std::string l = "/sim/l" + std::to_string(i);
      vfs::Add(l, vfs::kLink, e.path);
      e.path = l;
    }
    files.push_back(e);
  }
  vfs::Add("/sim/dir", vfs::kDir, "", 0755);
  vfs::Add("/sim/dir/x", vfs::kFile, "x");
  vfs::Add("/sim/loop1", vfs::kLink, "/sim/loop2");
  vfs::Add("/sim/loop2", vfs::kLink, "loop1");
  vfs::Add("/sim/dangling", vfs::kLink, "nowhere");
  vfs::Add("/sim/secret", vfs::kFile, "secret", 0);
  vfs::Add("/sim/locked", vfs::kDir, "", 0)->mode = 0;
  vfs::Add("/sim/locked", vfs::kDir, "", 0)->mode = 0;
  vfs::Find("/sim/locked")->kids["f"] = vfs::Find("/sim/dir/x");
  vfs::Add("/sim/fifo", vfs::kFifo);
}
const char* const kOdd[] = {"/sim/dir", "/sim/missing", "/sim/dir/x/y", "/sim/loop1", "/sim/dangling", "/sim/secret", "/sim/locked/f", "/sim/fifo", "/sim/nodir/f", "/sim/dir/"};

void Judge(const char* fn, const Entry& e, const absl::StatusOr<std::string>& r, size_t max_lines, bool healthy) {
  if (!r.ok()) {
    SIM_CHECK(!healthy, "spurious-error", "%s fails on a healthy file of %zu bytes: %s", fn, e.node->data.size(), std::string(r.status().message()).c_str());
    sim::Probe("read refused under fault");
    return;
  }
  const bool changed = e.lo != e.hi;
  if (!changed) {
    const std::string want = max_lines == static_cast<size_t>(-1) ? e.node->data : fc::FirstLines(e.node->data, max_lines);
    SIM_CHECK(*r == want, fc::Hard() ? "wrong-content-under-fault" : "wrong-content",
              "%s returns OK with %zu bytes, the file (first lines) has %zu; first difference at %zu; faults: %s", fn, r->size(), want.size(),
              static_cast<size_t>(std::mismatch(r->begin(), r->begin() + std::min(r->size(), want.size()), want.begin()).first - r->begin()), fc::FaultText().c_str());
    if (fc::Hard()) sim::Probe("read complete despite faults");
    return;
  }
  SIM_CHECK(e.master.compare(0, r->size(), *r) == 0, "garbage", "%s returns OK with %zu bytes that the file never held (file changing between %zu and %zu bytes)", fn, r->size(),
            e.lo, e.hi);
  const size_t nl = static_cast<size_t>(std::count(r->begin(), r->end(), '\n'));
  if (max_lines != static_cast<size_t>(-1) && nl == max_lines && (r->empty() || r->back() == '\n')) return;
  SIM_CHECK(nl <= max_lines && r->size() >= e.lo && r->size() <= e.hi, "wrong-content", "%s returns %zu bytes, the file had between %zu and %zu", fn, r->size(), e.lo, e.hi);
  sim::Probe("read of a changing file");
}

void ReadOp(int which) {
  sim::Span span("read");
  Entry& e = files[sim::Choose(static_cast<uint32_t>(files.size()))];
  const size_t bufs = e.node->data.size() / 1000 + 12;
  const bool whole = which != 1;
  vfs::SetPlan(fc::Draw(fc::kReadOps, static_cast<int>(std::min<size_t>(bufs, 24))));
  vfs::ClearFaults();
  e.node->eio_at = sim::Chance(1, 12) ? static_cast<int64_t>(sim::Range(0, e.node->data.size())) : -1;
  e.node->mtime_ns = sim::Chance(1, 3) ? DrawTime() : e.node->mtime_ns;
  const int64_t t0 = e.node->mtime_ns;
  e.lo = e.hi = e.node->data.size();
  watched = &e;
  mutations = sim::Chance(1, 6) ? static_cast<int>(sim::Range(1, 3)) : 0;
  const size_t lines = sim::Chance(1, 8) ? static_cast<size_t>(sim::Choose(2) ? SIZE_MAX : 0) : sim::Range(0, 60);
  const uint64_t ops0 = vfs::Ops();
  auto healthy = [&] { return !fc::Hard() && e.lo == e.hi; };
  switch (which) {
    case 0: {
      const auto r = GetContents(e.path);
      sim::Ev("GetContents %zu -> %d", e.hi, r.ok());
      Judge("GetContents", e, r, static_cast<size_t>(-1), healthy());
      break;
    }
    case 1: {
      const auto r = GetMaxLines(e.path, lines);
      sim::Ev("GetMaxLines %zu %zu -> %d", e.hi, lines, r.ok());
      Judge("GetMaxLines", e, r, lines, healthy());
      break;
    }
    case 2: {
      const auto r = Readable(e.path);
      sim::Ev("Readable -> %d", r.ok());
      SIM_CHECK(r.ok() || fc::Hard(), "spurious-error", "Readable refuses a healthy file: %s", std::string(r.message()).c_str());
      break;
    }
    case 3: {
      const auto r = GetMTime(e.path);
      sim::Ev("GetMTime -> %d", r.ok());
      if (r.ok()) SIM_CHECK(absl::ToUnixNanos(*r) == t0, "wrong-time", "GetMTime gives %lld ns, the file has %lld (faults %s)", static_cast<long long>(absl::ToUnixNanos(*r)),
                            static_cast<long long>(t0), fc::FaultText().c_str());
      else SIM_CHECK(fc::Hard(), "spurious-error", "GetMTime fails on a healthy file: %s", std::string(r.status().message()).c_str());
      break;
    }
    default: {
      const bool skip = sim::Chance(1, 3);
      const bool use_lines = sim::Chance(1, 2);
      Artefact::Options opt;
      opt.skip_time = skip;
      const auto r = use_lines ? Artefact::ReadMaxLines(e.path, lines, opt) : Artefact::Read(e.path, opt);
      sim::Ev("Artefact %d %zu -> %d", use_lines, lines, r.ok());
      absl::StatusOr<std::string> data = r.ok() ? absl::StatusOr<std::string>(r->data) : absl::StatusOr<std::string>(r.status());
      Judge("Artefact::Read", e, data, use_lines ? lines : static_cast<size_t>(-1), healthy());
      if (r.ok()) {
        SIM_CHECK(r->name == e.path, "wrong-name", "artefact of %s is called %s", e.path.c_str(), r->name.c_str());
        const int64_t want = skip ? 0 : t0;
        SIM_CHECK(absl::ToUnixNanos(r->time) == want, "wrong-time", "artefact time %lld, file time %lld, skip %d, faults %s", static_cast<long long>(absl::ToUnixNanos(r->time)),
                  static_cast<long long>(want), skip, fc::FaultText().c_str());
      }
      break;
    }
  }
  (void)whole;
  watched = nullptr;
  e.node->eio_at = -1;
  if (fc::Hard() || e.lo != e.hi) sim::NonTrivial();
  sim::State(sim::Hash64(std::to_string(which) + fc::FaultText().substr(0, 30), (vfs::Ops() - ops0) * 8 + std::min<size_t>(e.hi / 4096, 7)));
  fc::NoLeak("a read");
}

void OddOp(int which) {
  sim::Span span("odd");
  const char* p = kOdd[sim::Choose(sizeof(kOdd) / sizeof(kOdd[0]))];
  vfs::SetPlan(fc::Draw(fc::kReadOps, 6));
  vfs::ClearFaults();
  const std::string ps = p;
  const bool dir = ps == "/sim/dir" || ps == "/sim/dir/";
  bool ok;
  absl::StatusCode code = absl::StatusCode::kOk;
  switch (which) {
    case 0: { const auto r = GetContents(p); ok = r.ok(); code = r.status().code(); break; }
    case 1: { const size_t n = sim::Range(1, 4); const auto r = GetMaxLines(p, n); ok = r.ok(); code = r.status().code(); break; }
    case 2: { const auto r = Readable(p); ok = r.ok(); code = r.code(); if (ps == "/sim/fifo") ok = false; break; }
    case 3: { const auto r = GetMTime(p); ok = r.ok(); code = r.status().code(); if (dir || ps == "/sim/fifo" || ps == "/sim/secret") ok = false; break; }
    default: { const auto r = Artefact::Read(p); ok = r.ok(); code = r.status().code(); break; }
  }
  sim::Ev("odd %d %s -> %d", which, p, ok);
  if (ps == "/sim/fifo" && which == 1) ok = false;  // an empty pipe has no lines
  // An empty answer for something that is not a readable file is a false success as well.
  SIM_CHECK(!ok, "false-success", "operation %d on %s succeeds (faults %s)", which, p, fc::FaultText().c_str());
  if (which == 2 && ps == "/sim/missing" && !fc::Hard()) SIM_CHECK(code == absl::StatusCode::kNotFound, "wrong-code", "Readable on a missing file gives code %d", static_cast<int>(code));
  sim::NonTrivial();
  sim::Probe("not a readable file");
  fc::NoLeak("an operation on something unreadable");
}

#if defined(PROP_C11)
void WriteOp() {
  sim::Span span("write");
  const bool fresh = sim::Chance(1, 3);
  Entry* e = nullptr;
  std::string path;
  if (fresh) {
    path = "/sim/new" + std::to_string(files.size());
  } else if (sim::Chance(1, 8)) {
    const char* odd[] = {"/sim/dir", "/sim/nodir/f", "/sim/loop1", "/sim/secret", "/sim/locked/f", "/sim/dir/x/y"};
    path = odd[sim::Choose(6)];
    vfs::SetPlan(fc::Draw(fc::kWriteOps, 6));
    vfs::ClearFaults();
    const auto s = SetContents(path, "some");
    sim::Ev("odd write %s %d", path.c_str(), s.ok());
    SIM_CHECK(!s.ok(), "false-success", "SetContents(%s) reports success", path.c_str());
    fc::NoLeak("a refused write");
    return;
  } else {
    e = &files[sim::Choose(static_cast<uint32_t>(files.size()))];
    path = e->path;
  }
  const std::string content = fc::AnyContent(sim::Chance(1, 400));
  vfs::Plan plan = fc::Draw(fc::kWriteOps, 8);
  if (sim::Chance(1, 5)) plan.disk_room = static_cast<int64_t>(sim::Range(0, content.size() + 10));
  vfs::SetPlan(plan);
  vfs::ClearFaults();
  std::vector<std::pair<vfs::P, std::string>> before;
  for (auto& f : files)
    if (!e || f.node != e->node) before.push_back({f.node, f.node->data});
  const auto s = SetContents(path, content);
  sim::Ev("SetContents %zu -> %d", content.size(), s.ok());
  for (auto& [n, d] : before) SIM_CHECK(n->data == d, "other-file", "writing %s changed another file", path.c_str());
  vfs::P node = vfs::Find(path);
  if (s.ok()) {
    SIM_CHECK(node && node->data == content, fc::Hard() ? "false-success" : "wrong-content",
              "SetContents(%zu bytes) reports success, the disk holds %zu bytes%s; faults: %s", content.size(), node ? node->data.size() : 0,
              node && node->data.size() == content.size() ? " (different)" : "", fc::FaultText().c_str());
    bool at_end = false;
    for (auto& f : vfs::HardFaults()) at_end |= f.op == vfs::kClose || f.op == vfs::kWrite || f.op == vfs::kOpen;
    for (auto& f : vfs::HardFaults())
      SIM_CHECK(f.op != vfs::kClose || f.err == EINTR, "ignored-error", "SetContents reports success although the close failed: %s", fc::FaultText().c_str());
    (void)at_end;
  } else {
    SIM_CHECK(fc::Hard(), "spurious-error", "SetContents fails on a healthy disk: %s", std::string(s.message()).c_str());
    sim::Probe("write refused");
  }
  if (fresh && node) {
    Entry n;
    n.path = path;
    n.node = node;
    n.master = node->data;
    files.push_back(n);
  } else if (e && node) {
    e->node = node;
    e->master = node->data;
  }
  for (auto& f : files)  // several names may lead to the same file
    if (node && f.node == node) f.master = node->data;
  if (fc::Hard()) sim::NonTrivial();
  fc::NoLeak("a write");
  // What has been acknowledged can be read back.
  if (s.ok() && sim::Chance(1, 2)) {
    vfs::SetPlan({});
    vfs::ClearFaults();
    const auto r = GetContents(path);
    SIM_CHECK(r.ok() && *r == content, "read-back", "acknowledged content cannot be read back");
  }
  sim::State(sim::Hash64(fc::FaultText().substr(0, 40), std::min<size_t>(content.size() / 4096, 7)));
}
#endif

void Run() {
  sim::SetNowNs(1700000000000000000);
  vfs::Start();
  MakeTree();
  vfs::on_op = Mutate;
  const int steps = static_cast<int>(sim::Range(1, 8));
  for (int i = 0; i < steps; ++i) {
#if defined(PROP_C10)
    static const int kinds[] = {0, 0, 0, 2, 3};
    const int k = kinds[sim::Choose(5)];
#elif defined(PROP_C12)
    const int k = 1;
#elif defined(PROP_C13)
    const int k = 4;
#else
    const int k = 0;
#endif
#if defined(PROP_C11)
    if (sim::Chance(3, 4)) { WriteOp(); continue; }
    (void)&OddOp;
#else
    if (sim::Chance(1, 4)) { OddOp(k); continue; }
#endif
    ReadOp(k);
  }
}
}  // namespace
#if defined(PROP_C10)
#define NAME "C10"
#elif defined(PROP_C11)
#define NAME "C11"
#elif defined(PROP_C12)
#define NAME "C12"
#else
#define NAME "C13"
#endif
const SimHarness kSimHarness = {NAME, Run, nullptr};
