// C30: the glob tool's real main() over a simulated tree that fails and changes while it is walked.
#include <cstring>
#include <filesystem>
#include <functional>

#include "harness/cli_common.h"
#include "harness/glob_model.h"

int glob_main_entry(int argc, char* argv[]);

namespace {
using namespace gm;

std::string Grouped(uint64_t v) {
  std::string s = std::to_string(v), r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (i && (s.size() - i) % 3 == 0) r += '\'';
    r += s[i];
  }
  return r;
}
std::string Pad(const std::string& s, size_t w) { return s.size() >= w ? s : std::string(w - s.size(), ' ') + s; }
std::string NameOf(const std::string& p) { return p.substr(p.rfind('/') + 1); }  // npos + 1 == 0
bool IsDir(const Item& i) { return i.kind == vfs::kDir || (i.kind == vfs::kLink && i.target == 'd'); }
bool IsFile(const Item& i) { return i.kind == vfs::kFile || (i.kind == vfs::kLink && i.target == 'f'); }
char TypeOf(const Item& i) { return IsDir(i) ? 'd' : i.kind == vfs::kLink ? 'l' : i.kind == vfs::kFile ? 'f' : 'p'; }
std::string ExtOf(const std::string& name) {
  const size_t q = name.rfind('.');
  if (q == std::string::npos) return "";
  return q == 0 ? name : name.substr(q);  // dot files count under their name
}
struct Line {
  std::string name, size, depth;
  char type = 0;
};
bool ParseSummary(const std::string& l, std::string& name, uint64_t& value) {
  static const char* keys[] = {"Dirs:", "FileSize:", "Files:", "Links:", "MaxDepth:", "Other:", "Total:"};
  size_t q = std::string::npos;
  for (auto* k : keys)
    if (l.compare(0, strlen(k), k) == 0) q = strlen(k) - 1;
  if (q == std::string::npos && (l.compare(0, 8, "FileExt(") == 0 || l.compare(0, 9, "FileSize(") == 0)) q = l.rfind("):") == std::string::npos ? q : l.rfind("):") + 1;
  if (q == std::string::npos) return false;
  name = l.substr(0, q);
  value = 0;
  bool digit = false;
  for (size_t i = q + 1; i < l.size(); ++i) {
    if (isdigit(static_cast<unsigned char>(l[i]))) value = value * 10 + static_cast<uint64_t>(l[i] - '0'), digit = true;
    else if (l[i] != ' ' && l[i] != '\'') return false;
  }
  return digit;
}
void Run() {
  sim::SetNowNs(1700000000000000000);
  vfs::Start();
  root = "/sim/r";
  vfs::Add(root, vfs::kDir, "", 0755);
  vfs::Add("/sim/out/file", vfs::kFile, "12345");
  follow = false;
  Grow("", 0);
  const bool dotdir = !sim::Chance(1, 3), dotfile = !sim::Chance(1, 3), entries = !sim::Chance(1, 5), fast = sim::Chance(1, 3), recurse = !sim::Chance(1, 4);
  const bool size = sim::Chance(1, 2), type = sim::Chance(1, 2), depth = sim::Chance(1, 2), exts = sim::Chance(1, 3);
  const size_t every = sim::Chance(1, 5) ? sim::Range(1, 9) : 0;
  const bool sum = sim::Chance(1, 2), sums = sum || every || exts;
  std::vector<std::string> args = {"glob"};
  if (!dotdir) args.push_back("--nodotdir");
  if (!dotfile) args.push_back("--nodotfile");
  if (!entries) args.push_back("--noentries");
  if (fast) args.push_back("--fast");
  if (!recurse) args.push_back("--norecurse_match");
  if (size) args.push_back("--size");
  if (type) args.push_back("--type");
  if (depth) args.push_back("--depth");
  if (exts) args.push_back("--sum_extensions");
  if (every) args.push_back("--sum_every=" + std::to_string(every));
  if (sum) args.push_back("--sum");
  // Root and pattern.
  bool odd = false;
  std::string pattern;
  const uint32_t re = sim::Chance(1, 5) ? 1 + sim::Choose(3) : 0;
  std::function<bool(const std::string&)> matches;
  std::string root_arg = root;
  const uint32_t how = sim::Choose(4);
  if (how == 1) { vfs::SetCwd(root); root_arg = "."; }
  if (how == 2) { vfs::SetCwd("/sim"); root_arg = sim::Chance(1, 3) ? "./r" : sim::Chance(1, 3) ? "out/../r" : "r"; }
  if (how == 3) root_arg = sim::Chance(1, 2) ? "/sim/out/../r" : "/sim/./r//";
  if (re) {
    static const char* res[] = {"", ".*", "[ab].*", ".*[.]cc"};
    pattern = res[re];
    args.push_back("--re2");
    matches = [re](const std::string& p) { return re == 1 ? true : re == 2 ? p[0] == 'a' || p[0] == 'b' : p.size() >= 3 && p.compare(p.size() - 3, 3, ".cc") == 0; };
  } else {
    pattern = sim::Chance(1, 3) ? "**" : DrawPattern();
    const auto parts = Split(pattern);
    matches = [parts](const std::string& p) { return MatchPath(parts, 0, Split(p), 0); };
  }
  const bool wild_first = pattern.substr(0, pattern.find('/')).find_first_of("*?[") != std::string::npos;
  if (sim::Chance(1, 25)) {
    odd = true;
    const char* o[] = {"/sim/nowhere", "/sim/out/file"};
    root_arg = o[sim::Choose(2)];
  }
  if (!re && !odd && wild_first && sim::Chance(1, 3)) args.push_back(root_arg == "." && sim::Choose(2) ? pattern : root_arg + "/" + pattern);
  else args.push_back(root_arg), args.push_back(pattern);
  std::set<std::string> unreadable;
  if (sim::Chance(1, 5))
    for (auto& [p, it] : tree)
      if (it.kind == vfs::kDir && sim::Chance(1, 3)) {
        const auto node = vfs::Find(root + "/" + p);
        if (!node) continue;
        node->mode = 0;
        unreadable.insert(p);
      }
  // What the walk meets.
  auto pruned = [&](const std::string& p, const Item& it) { return matches(p) && ((IsDir(it) && !dotdir && NameOf(p)[0] == '.') || (!recurse && !(IsFile(it) && !dotfile && NameOf(p)[0] == '.'))); };
  auto listed = [&](const std::string& p, const Item& it) {
    if (!matches(p)) return false;
    if (NameOf(p)[0] == '.' && ((IsDir(it) && !dotdir) || (!IsDir(it) && IsFile(it) && !dotfile))) return false;
    for (size_t q = p.find('/'); q != std::string::npos; q = p.find('/', q + 1)) {
      const std::string up = p.substr(0, q);
      if (unreadable.count(up) || pruned(up, tree.at(up))) return false;
    }
    return true;
  };
  vfs::InstallStd("");
  const bool bad_out = sim::Chance(1, 4);
  vfs::Plan plan = fc::Draw(1u << vfs::kOpenDir | 1u << vfs::kReadDir | 1u << vfs::kStat | 1u << vfs::kMeta | 1u << vfs::kCloseDir | 1u << vfs::kWrite, static_cast<int>(6 + tree.size() * 2));
  plan.only = [bad_out](const std::string& path) { return path != "<stderr>" && path != "<stdin>" && (bad_out || path != "<stdout>"); };
  vfs::SetPlan(plan);
  vfs::ClearFaults();
  mutations = sim::Chance(1, 5) ? static_cast<int>(sim::Range(1, 3)) : 0;
  vfs::on_op = Mutate;
  std::string cmd;
  for (auto& a : args) cmd += a + " ";
  sim::Note("%s", cmd.c_str());
  const cli::Result r = cli::Run(glob_main_entry, args);
  vfs::on_op = nullptr;
  sim::Ev("glob %s-> %d, %zu bytes", cmd.c_str(), r.status, r.out.size());
  fc::NoLeak("the tool");
  const auto faults = vfs::HardFaults();
  if (!faults.empty() || odd || !removed.empty() || !added.empty()) sim::NonTrivial();
  const auto on = [&] { return cmd + ", faults " + fc::FaultText(); };
  SIM_CHECK(r.status == 0 || r.status == 1, "bad-status", "exit status %d (%s)", r.status, on().c_str());
  sim::State(sim::Hash64(cmd, static_cast<uint64_t>(r.status) + std::min<size_t>(faults.size(), 3) * 2));
  if (r.status == 1) {
    SIM_CHECK(!r.err.empty(), "no-diagnostic", "exit status 1 and nothing on standard error (%s)", on().c_str());
    SIM_CHECK(odd || !faults.empty() || !removed.empty(), "spurious-failure", "exit status 1 on a healthy system: %s (%s)", sim::Quote(r.err, 300).c_str(), on().c_str());
    sim::Probe("trouble reported");
    return;
  }
  bool denied = false;
  for (auto& f : faults) denied |= f.op == vfs::kOpenDir && f.err == 13;  // skipped by default
  SIM_CHECK(!odd || denied, "false-success", "exit status 0 though there is no such directory (%s)", on().c_str());
  if (odd) return;
  SIM_CHECK(!r.out_fault, "lost-output", "exit status 0 though standard output failed (%s)", on().c_str());
  // Faults after which the walk may go on.
  std::set<std::string> skipped = unreadable, unsure;
  bool root_skipped = false, stat_fault = false;
  for (auto& f : faults) {
    const std::string rel = f.path.compare(0, root.size(), root) == 0 ? f.path.substr(std::min(f.path.size(), root.size() + 1)) : f.path;
    if (f.op == vfs::kOpenDir && f.err == 13) { (rel.empty() ? root_skipped = true : skipped.insert(rel).second); continue; }
    if (f.op == vfs::kStat || f.op == vfs::kMeta) { unsure.insert(rel); stat_fault = true; continue; }
    if (f.op == vfs::kReadDir || f.op == vfs::kOpenDir) sim::Fail("false-success", "exit status 0 although %s(%s) failed with errno %d (%s)", vfs::OpName(f.op), f.path.c_str(), f.err, on().c_str());
  }
  const bool exact = faults.empty() && removed.empty() && added.empty();
  // Read the output back.
  std::vector<Line> out;
  std::vector<std::map<std::string, uint64_t>> blocks;
  bool terminated = true, in_block = false;
  const auto lines = cli::Lines(r.out, &terminated);
  SIM_CHECK(terminated, "cut-line", "the last line is cut: %s (%s)", sim::Quote(r.out, 300).c_str(), on().c_str());
  for (auto& l : lines) {
    if (l.empty()) {
      blocks.emplace_back();
      in_block = true;
      continue;
    }
    std::string name;
    uint64_t value;
    if (in_block && ParseSummary(l, name, value)) {
      SIM_CHECK(blocks.back().emplace(name, value).second, "twice", "two summary lines %s (%s)", name.c_str(), on().c_str());
      continue;
    }
    in_block = false;
    Line x;
    size_t i = 0;
    auto word = [&] {
      while (i < l.size() && l[i] == ' ') ++i;
      const size_t b = i;
      while (i < l.size() && l[i] != ' ') ++i;
      const std::string w = l.substr(b, i - b);
      if (i < l.size()) ++i;
      return w;
    };
    if (size) x.size = word();
    if (type) {
      const std::string w = word();
      SIM_CHECK(w.size() == 1, "bad-line", "bad type in line %s (%s)", sim::Quote(l).c_str(), on().c_str());
      x.type = w[0];
    }
    if (depth) x.depth = word();
    x.name = l.substr(i);
    out.push_back(x);
  }
  SIM_CHECK(entries || fast || out.empty(), "extra-entries", "entries although none are asked for (%s)", on().c_str());
  const bool shows = fast || entries;  // --fast prints while walking
  std::set<std::string> seen;
  for (auto& x : out) {
    SIM_CHECK(tree.count(x.name) || added.count(x.name), "phantom", "entry %s does not exist (%s)", sim::Quote(x.name).c_str(), on().c_str());
    SIM_CHECK(seen.insert(x.name).second, "twice", "entry %s is listed twice (%s)", x.name.c_str(), on().c_str());
    SIM_CHECK(matches(x.name), "no-match", "entry %s does not match (%s)", x.name.c_str(), on().c_str());
    const uint64_t d = static_cast<uint64_t>(std::count(x.name.begin(), x.name.end(), '/'));
    if (depth) SIM_CHECK(x.depth == Grouped(d), "wrong-depth", "entry %s has depth %s (%s)", x.name.c_str(), x.depth.c_str(), on().c_str());
    auto it = tree.find(x.name);
    if (it == tree.end() || removed.count(x.name)) continue;
    if (!stat_fault) SIM_CHECK(listed(x.name, it->second), "filtered", "entry %s is listed, and must not be (%s)", x.name.c_str(), on().c_str());
    if (type) SIM_CHECK(x.type == TypeOf(it->second) || (stat_fault && (x.type == '?' || it->second.kind == vfs::kLink)) || (!unreadable.empty() && x.type == '?'), "wrong-type", "entry %s has type %c, not %c (%s)", x.name.c_str(), x.type, TypeOf(it->second), on().c_str());
    if (size) SIM_CHECK(x.size == Grouped(it->second.size) || (x.size == "0" && stat_fault), "wrong-size", "entry %s has size %s, not %s (%s)", x.name.c_str(), x.size.c_str(), Grouped(it->second.size).c_str(), on().c_str());
  }
  std::map<std::string, uint64_t> want = {{"Dirs", 0}, {"FileSize", 0}, {"Files", 0}, {"Links", 0}, {"MaxDepth", 0}, {"Other", 0}, {"Total", 0}};
  uint64_t biggest = 0;
  std::vector<std::string> order;
  for (auto& [p, it] : tree) {
    if (!listed(p, it)) continue;
    order.push_back(p);
    const char t = TypeOf(it);
    ++want[t == 'd' ? "Dirs" : t == 'l' ? "Links" : t == 'f' ? "Files" : "Other"];
    ++want["Total"];
    want["MaxDepth"] = std::max(want["MaxDepth"], static_cast<uint64_t>(std::count(p.begin(), p.end(), '/')));
    if (t == 'f') {
      want["FileSize"] += it.size;
      biggest = std::max<uint64_t>(biggest, it.size);
      if (exts) {
        ++want["FileExt(" + ExtOf(NameOf(p)) + ")"];
        want["FileSize(" + ExtOf(NameOf(p)) + ")"] += it.size;
      }
    }
    if (!shows || removed.count(p) || seen.count(p)) continue;
    bool excused = root_skipped;
    for (auto& q : skipped) excused |= Below(p, q);
    for (auto& q : unsure) excused |= q == p || Below(p, q) || q.empty();
    for (auto& q : removed) excused |= Below(p, q);
    SIM_CHECK(excused, "missing-entry", "entry %s is not listed and the exit status is 0 (%s)", p.c_str(), on().c_str());
  }
  // Summaries.
  SIM_CHECK(!sums || !blocks.empty(), "no-summary", "there is no summary (%s)", on().c_str());
  SIM_CHECK(sums || blocks.empty(), "extra-summary", "there is a summary (%s)", on().c_str());
  if (sums) {
    auto& last = blocks.back();
    for (auto* k : {"Dirs", "FileSize", "Files", "Links", "MaxDepth", "Other", "Total"}) SIM_CHECK(last.count(k), "no-summary", "no summary line %s (%s)", k, on().c_str());
    SIM_CHECK(last["Total"] == last["Dirs"] + last["Files"] + last["Links"] + last["Other"], "wrong-summary", "the total is not the sum of its parts (%s)", on().c_str());
    if (shows) SIM_CHECK(last["Total"] == out.size(), "wrong-summary", "total %lu, %zu entries listed (%s)", static_cast<unsigned long>(last["Total"]), out.size(), on().c_str());
    if (added.empty() && removed.empty())  // what cannot be examined is not counted as something else
      for (auto* k : {"Dirs", "Files", "Other"})
        SIM_CHECK(last[k] <= want[k] + want["Links"], "wrong-summary", "%s %lu, there are only %lu (%s)", k, static_cast<unsigned long>(last[k]), static_cast<unsigned long>(want[k]), on().c_str());
    if (exact) {
      SIM_CHECK(last == want, "wrong-summary", "the summary is not what the tree holds: %s (%s)", sim::Quote(r.out, 600).c_str(), on().c_str());
      const size_t n = every ? want["Total"] / every + 1 : 1;
      SIM_CHECK(blocks.size() == n, "wrong-summary", "%zu summaries, expected %zu (%s)", blocks.size(), n, on().c_str());
      for (size_t i = 0; i + 1 < blocks.size(); ++i) SIM_CHECK(blocks[i]["Total"] == every * (i + 1), "wrong-summary", "summary %zu counts %lu (%s)", i, static_cast<unsigned long>(blocks[i]["Total"]), on().c_str());
    }
  }
  if (exact && entries && !fast) {  // sorted and aligned
    std::sort(order.begin(), order.end(), [](const std::string& a, const std::string& b) { return std::filesystem::path(a) < std::filesystem::path(b); });
    std::string text;
    for (auto& p : order) {
      auto& it = tree[p];
      if (size) text += Pad(Grouped(it.size), Grouped(biggest).size()) + " ";
      if (type) text += std::string(1, TypeOf(it)) + " ";
      if (depth) text += Pad(Grouped(static_cast<uint64_t>(std::count(p.begin(), p.end(), '/'))), Grouped(want["MaxDepth"]).size()) + " ";
      text += p + "\n";
    }
    size_t at = r.out.find(text);
    SIM_CHECK(at != std::string::npos && (every || at == 0), "wrong-listing", "the listing is %s, expected %s (%s)", sim::Quote(r.out, 500).c_str(), sim::Quote(text, 500).c_str(), on().c_str());
  }
  sim::Probe("complete listing");
}
}  // namespace
const SimHarness kSimHarness = {"C30", Run, nullptr};
