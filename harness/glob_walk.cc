// C14: globbing over a simulated tree that fails and changes while it is walked.
#include "harness/glob_model.h"
#include "mbo/file/glob.h"

namespace {
using namespace mbo::file;
using namespace gm;

void Walk() {
  GlobOptions opt;
  opt.use_rel_path = sim::Chance(1, 2);
  opt.recursive = !sim::Chance(1, 4);
  opt.use_current_dir = !sim::Chance(1, 4);
  const bool skip_denied = !sim::Chance(1, 3);
  opt.dir_options = skip_denied ? std::filesystem::directory_options::skip_permission_denied : std::filesystem::directory_options::none;
  if (follow) opt.dir_options |= std::filesystem::directory_options::follow_directory_symlink;
  // How the root is named.
  std::string root_arg = root;
  std::string prefix = root;  // expected prefix of entry paths
  const uint32_t how = sim::Choose(5);
  if (how == 1) { vfs::SetCwd(root); root_arg = sim::Chance(1, 2) ? "." : ""; }
  if (how == 2) { vfs::SetCwd("/sim"); root_arg = sim::Chance(1, 3) ? "./r" : sim::Chance(1, 3) ? "out/../r" : "r"; if (!opt.use_current_dir) prefix = "r"; }
  if (how == 3) root_arg = sim::Chance(1, 2) ? "/sim/out/../r" : "/sim/./r//";
  const int denied = sim::Chance(1, 5) ? 1 : 0;
  std::set<std::string> unreadable;
  if (denied)
    for (auto& [p, it] : tree)
      if (it.kind == vfs::kDir && !it.behind_link && sim::Chance(1, 3)) {
        const auto node = vfs::Find(root + "/" + p);
        if (!node) continue;  // below another forbidden directory
        node->mode = 0;
        unreadable.insert(p);
      }
  std::string pattern;
  const bool all = sim::Chance(1, 3);
  if (!all) pattern = DrawPattern();
  const bool use_re = all && sim::Chance(1, 2);
  const auto parts = Split(pattern);
  auto matches = [&](const std::string& rel) { return all || MatchPath(parts, 0, Split(rel), 0); };

  sim::Note("pattern %s root \"%s\" how %u rec %d rel %d cur %d", pattern.c_str(), root_arg.c_str(), how, opt.recursive, opt.use_rel_path, opt.use_current_dir);
  const unsigned mask = 1u << vfs::kOpenDir | 1u << vfs::kReadDir | 1u << vfs::kStat | 1u << vfs::kMeta | 1u << vfs::kCloseDir;
  vfs::Plan plan = fc::Draw(mask, static_cast<int>(3 + tree.size() * 2));
  vfs::SetPlan(plan);
  vfs::ClearFaults();
  mutations = sim::Chance(1, 4) ? static_cast<int>(sim::Range(1, 3)) : 0;
  vfs::on_op = Mutate;

  // The visitor.
  const int stop_at = sim::Chance(1, 5) ? static_cast<int>(sim::Range(1, 6)) : 0;
  const int fail_at = sim::Chance(1, 5) ? static_cast<int>(sim::Range(1, 6)) : 0;
  const bool prune = sim::Chance(1, 3);
  std::set<std::string> seen, pruned;
  int calls = 0;
  bool ended = false;
  const auto func = [&](const GlobEntry& e) -> absl::StatusOr<GlobEntryAction> {
    ++calls;
    SIM_CHECK(!ended, "called-after-end", "the visitor is called again after it ended the walk");
    const std::string path = e.entry.path().native();
    std::string rel;
    if (opt.use_rel_path) {
      SIM_CHECK(e.rel_path.has_value(), "rel-path", "use_rel_path, but no relative path");
      rel = e.rel_path->native();
      SIM_CHECK(e.MaybeRelativePath().native() == rel, "rel-path", "MaybeRelativePath is %s, not %s", e.MaybeRelativePath().c_str(), rel.c_str());
    } else {
      SIM_CHECK(!e.rel_path.has_value() && e.MaybeRelativePath().native() == path, "rel-path", "relative path although not asked for");
    }
    const bool abs = path.compare(0, root.size() + 1, root + "/") == 0;
    const bool pre = path.compare(0, prefix.size() + 1, prefix + "/") == 0;
    SIM_CHECK(abs || pre, "wrong-path", "entry %s is not below %s", path.c_str(), prefix.c_str());
    const std::string r2 = abs ? path.substr(root.size() + 1) : path.substr(prefix.size() + 1);
    if (opt.use_rel_path) SIM_CHECK(rel == r2, "rel-path", "relative path %s of %s", rel.c_str(), path.c_str());
    SIM_CHECK(tree.count(r2) || added.count(r2), "phantom", "entry %s does not exist", r2.c_str());
    SIM_CHECK(matches(r2), "no-match", "entry '%s' does not match '%s'", r2.c_str(), pattern.c_str());
    SIM_CHECK(seen.insert(r2).second, "twice", "entry %s is visited twice", r2.c_str());
    for (auto& p : pruned) SIM_CHECK(!Below(r2, p), "not-pruned", "entry %s is visited although recursion into %s was declined", r2.c_str(), p.c_str());
    const int depth = static_cast<int>(std::count(r2.begin(), r2.end(), '/'));
    SIM_CHECK(e.depth == depth, "wrong-depth", "entry %s has depth %d", r2.c_str(), e.depth);
    if (sim::Chance(1, 2)) {
      const size_t faults0 = vfs::HardFaults().size();
      const size_t size = e.FileSize();
      auto it = tree.find(r2);
      if (it != tree.end() && !removed.count(r2)) {
        const size_t want = it->second.size;
        SIM_CHECK(size == want || (size == 0 && (vfs::HardFaults().size() > faults0 || removed.count(r2) || !unreadable.empty())), "wrong-size", "FileSize of %s is %zu, not %zu",
                  r2.c_str(), size, want);
      }
    }
    if (calls == fail_at) { ended = true; return absl::InvalidArgumentError("visitor says no"); }
    if (calls == stop_at) { ended = true; return GlobEntryAction::kStop; }
    if (prune && sim::Chance(1, 3)) {
      pruned.insert(r2);
      return GlobEntryAction::kDoNotRecurse;
    }
    return GlobEntryAction::kContinue;
  };
  absl::Status st;
  if (use_re) {
    const RE2 re(sim::Chance(1, 2) ? "" : ".*");
    st = GlobRe2(root_arg, re, opt, func);
  } else if (all) {
    st = Glob(root_arg, "**", {}, opt, func);
  } else {
    st = Glob(root_arg, pattern, {}, opt, func);
  }
  vfs::on_op = nullptr;
  const auto faults = vfs::HardFaults();
  sim::Ev("walk '%s' how %u rec %d rel %d -> %d after %d calls", pattern.c_str(), how, opt.recursive, opt.use_rel_path, static_cast<int>(st.code()), calls);
  fc::NoLeak("a walk");
  if (fail_at && calls >= fail_at) {
    SIM_CHECK(st == absl::InvalidArgumentError("visitor says no"), "visitor-error-lost", "the visitor's error came back as: %s", std::string(st.message()).c_str());
    sim::Probe("visitor ended the walk with an error");
    return;
  }
  if (stop_at && calls >= stop_at) {
    SIM_CHECK(st.ok(), "stop-is-error", "stopped walk returns: %s", std::string(st.message()).c_str());
    return;
  }
  if (!faults.empty() || mutations > 0) sim::NonTrivial();
  if (!st.ok()) {
    bool allowed = !faults.empty() || !removed.empty();
    if (!skip_denied && !unreadable.empty()) allowed = true;
    SIM_CHECK(allowed, "spurious-error", "healthy walk returns: %s", std::string(st.message()).c_str());
    sim::Probe("walk ended with a status");
    return;
  }
  // OK: complete, apart from what was configured to be skipped.
  std::set<std::string> skipped = unreadable, unsure;
  bool behind_unsure = false;
  for (auto& f : faults) {
    std::string rel = f.path.compare(0, root.size(), root) == 0 ? f.path.substr(std::min(f.path.size(), root.size() + 1)) : f.path;
    const bool outside = f.path.compare(0, 8, "/sim/out") == 0;  // reached through a link
    behind_unsure |= outside && (f.op == vfs::kStat || f.op == vfs::kMeta || (f.op == vfs::kOpenDir && f.err == 13 && skip_denied));
    if (f.op == vfs::kOpenDir && f.err == 13 && skip_denied) { skipped.insert(rel); continue; }
    if (f.op == vfs::kStat) { unsure.insert(rel); continue; }  // the type is not known then: libstdc++ does not descend
    if (f.op == vfs::kReadDir || f.op == vfs::kOpenDir)
      sim::Fail("false-success", "the walk reports success although %s(%s) failed with errno %d", vfs::OpName(f.op), f.path.c_str(), f.err);
  }
  if (!skip_denied && opt.recursive) {
    for (auto& p : unreadable) {
      bool reachable = true;
      for (auto& q : pruned) reachable &= !(q == p || Below(p, q));
      for (auto& q : unreadable) reachable &= !Below(p, q);
      SIM_CHECK(!reachable || !removed.empty() || !faults.empty(), "false-success", "success although directory %s may not be read", p.c_str());
    }
  }
  for (auto& [p, it] : tree) {
    if (removed.count(p) || seen.count(p) || !matches(p)) continue;
    if (!opt.recursive && p.find('/') != std::string::npos) continue;
    bool excused = behind_unsure && (it.behind_link || it.kind == vfs::kLink);
    for (auto& q : skipped) excused |= Below(p, q) || q == root;
    for (auto& q : unsure) excused |= q == p || Below(p, q) || q.empty();
    for (auto& q : pruned) excused |= Below(p, q);
    for (auto& q : removed) excused |= Below(p, q);
    SIM_CHECK(excused, "missing-entry", "'%s' matches '%s' and was not visited; the walk reports success (faults %s)", p.c_str(), pattern.c_str(), fc::FaultText().c_str());
  }
  sim::Probe("complete walk");
  sim::State(sim::Hash64(pattern, static_cast<uint64_t>(opt.recursive * 2 + opt.use_rel_path) + std::min<size_t>(seen.size(), 9) * 4 + std::min<size_t>(faults.size(), 3) * 64));
}

void Run() {
  sim::SetNowNs(1700000000000000000);
  vfs::Start();
  root = "/sim/r";
  vfs::Add(root, vfs::kDir, "", 0755);
  vfs::Add("/sim/out/file", vfs::kFile, "12345");
  vfs::Add("/sim/out/sub", vfs::kDir, "", 0755);
  vfs::Add("/sim/out/sub/a.cc", vfs::kFile, "abc");
  follow = sim::Chance(1, 3);
  Grow("", 0);
  if (sim::Chance(1, 20)) {  // not a directory at all
    vfs::SetPlan({});
    GlobOptions opt;
    const char* p[] = {"/sim/nowhere", "/sim/out/file"};
    const auto st = Glob(p[sim::Choose(2)], "**", {}, opt, [](const GlobEntry&) { return GlobEntryAction::kContinue; });
    SIM_CHECK(!st.ok(), "false-success", "walking something that is not a directory succeeds");
    return;
  }
  Walk();
}
}  // namespace
const SimHarness kSimHarness = {"C14", Run, nullptr};
