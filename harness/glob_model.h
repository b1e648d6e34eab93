// Shared by the glob harnesses: a random simulated tree, changes to it during the walk, and an independent matcher.
#pragma once
#include <map>
#include <optional>
#include <set>

#include "harness/file_common.h"

namespace gm {
struct Item {
  vfs::Kind kind;
  size_t size = 0;
  bool broken_link = false;
  bool behind_link = false;
  char target = 0;  // of a link: f, d or nothing
};
inline std::map<std::string, Item> tree;  // relative path -> item; what lies behind links only if they are followed
inline bool follow = false;
inline std::set<std::string> removed, added;
inline std::string root;  // absolute
inline int mutations = 0;

inline const char* const kNames[] = {"a", "b", "ab", "a.cc", "b.h", "x y", ".hid", "c++", "a-b", "B", "z{1}", "\xc3\xa9", "a.", ".a.cc", "..b"};

inline void Grow(const std::string& rel, int depth) {
  const int n = static_cast<int>(sim::Range(0, depth == 0 ? 6 : 4));
  for (int i = 0; i < n; ++i) {
    sim::Span span("entry");
    const std::string name = kNames[sim::Choose(std::size(kNames))];
    const std::string p = rel.empty() ? name : rel + "/" + name;
    if (tree.count(p)) continue;
    switch (sim::Choose(9)) {
      case 0: case 1: case 2: case 3: {
        const size_t size = sim::Chance(1, 60) ? sim::Range(0, 1500000) : sim::Range(0, 300);
        vfs::Add(root + "/" + p, vfs::kFile, std::string(size, 'x'));
        tree[p] = {vfs::kFile, size};
        break;
      }
      case 4: case 5: case 6:
        vfs::Add(root + "/" + p, vfs::kDir, "", 0755);
        tree[p] = {vfs::kDir};
        if (depth < 4) Grow(p, depth + 1);
        break;
      case 7: {
        static const char* targets[] = {"/sim/out/file", "/sim/out", "nowhere", "."};
        uint32_t k = sim::Choose(5);
        if (follow && (k == 3 || k == 4)) k = 1;  // no loops
        vfs::Add(root + "/" + p, vfs::kLink, k == 4 ? name : targets[k]);
        tree[p] = {vfs::kLink, k == 0 ? 5u : 0u, k == 2 || k == 4, false, k == 0 ? 'f' : k == 1 || k == 3 ? 'd' : '-'};
        if (follow && k == 1) {
          tree[p + "/file"] = {vfs::kFile, 5, false, true};
          tree[p + "/sub"] = {vfs::kDir, 0, false, true};
          tree[p + "/sub/a.cc"] = {vfs::kFile, 3, false, true};
          sim::Probe("link to a directory is followed");
        }
        break;
      }
      default:
        vfs::Add(root + "/" + p, vfs::kFifo);
        tree[p] = {vfs::kFifo};
    }
  }
}

// Independent matcher: components with * ? [set] and the component **.
inline bool MatchComp(const std::string& p, size_t i, const std::string& s, size_t j) {
  if (i == p.size()) return j == s.size();
  if (p[i] == '*') {
    for (size_t k = j; k <= s.size(); ++k)
      if (MatchComp(p, i + 1, s, k)) return true;
    return false;
  }
  if (j == s.size()) return false;
  if (p[i] == '[') {
    const size_t e = p.find(']', i + 1);
    const bool neg = p[i + 1] == '!';
    bool in = false;
    for (size_t k = i + 1 + neg; k < e; ++k) in |= p[k] == s[j];
    return in != neg && MatchComp(p, e + 1, s, j + 1);
  }
  if (p[i] == '?') {
    // One character, i.e. one code point.
    size_t n = 1;
    if (static_cast<unsigned char>(s[j]) >= 0xc0) n = 2;
    return MatchComp(p, i + 1, s, j + n);
  }
  return p[i] == s[j] && MatchComp(p, i + 1, s, j + 1);
}
inline std::vector<std::string> Split(const std::string& s) {
  std::vector<std::string> v;
  size_t i = 0;
  while (true) {
    const size_t j = s.find('/', i);
    v.push_back(s.substr(i, j == std::string::npos ? j : j - i));
    if (j == std::string::npos) return v;
    i = j + 1;
  }
}
inline bool MatchPath(const std::vector<std::string>& p, size_t i, const std::vector<std::string>& s, size_t j) {
  if (i == p.size()) return j == s.size();
  if (p[i] == "**") {
    for (size_t k = j; k <= s.size(); ++k)
      if (MatchPath(p, i + 1, s, k)) return true;
    return false;
  }
  return j < s.size() && MatchComp(p[i], 0, s[j], 0) && MatchPath(p, i + 1, s, j + 1);
}
inline std::string DrawPattern() {
  static const char* comps[] = {"*", "a*", "*.cc", "?", "[ab]", "*b*", "a.cc", "[!a]*", "x y", "a", "b", "??", "c++"};
  const int n = static_cast<int>(sim::Range(1, 3));
  std::string p;
  bool star = false;
  for (int i = 0; i < n; ++i) {
    if (i) p += '/';
    if (!star && sim::Chance(1, 3)) { p += "**"; star = true; }
    else p += comps[sim::Choose(13)];
  }
  return p;
}

inline std::string UnderOf(const std::string& p) {
  const size_t q = p.rfind('/');
  return q == std::string::npos ? "" : p.substr(0, q);
}
inline bool Below(const std::string& p, const std::string& dir) { return dir.empty() || (p.size() > dir.size() && p.compare(0, dir.size(), dir) == 0 && p[dir.size()] == '/'); }

inline void Mutate(vfs::Op op, const std::string&) {
  if (mutations <= 0 || (op != vfs::kOpenDir && op != vfs::kReadDir && op != vfs::kStat) || !sim::Chance(1, 5)) return;
  --mutations;
  if (sim::Chance(1, 2) && !tree.empty()) {
    auto it = tree.begin();
    std::advance(it, sim::Choose(static_cast<uint32_t>(tree.size())));
    if (!it->second.behind_link && vfs::Remove(root + "/" + it->first)) {
      for (auto& [p, k] : tree)
        if (p == it->first || Below(p, it->first)) removed.insert(p);
      sim::Fault("entry vanishes during the walk");
      sim::Ev("removed %s", it->first.c_str());
    }
    return;
  }
  std::string dir;
  for (auto& [p, k] : tree)
    if (k.kind == vfs::kDir && !k.behind_link && !removed.count(p) && sim::Chance(1, 3)) dir = p;
  const std::string p = (dir.empty() ? "" : dir + "/") + "new" + std::to_string(added.size());
  vfs::Add(root + "/" + p, vfs::kFile, "n");
  added.insert(p);
  sim::Fault("entry appears during the walk");
  sim::Ev("added %s", p.c_str());
}
}  // namespace gm
