// C15: INI files: operation histories, round trips and faults.
#include <map>

#include "harness/file_common.h"
#include "mbo/file/ini/ini_file.h"

namespace {
using mbo::file::IniFile;
using Model = std::map<std::string, std::map<std::string, std::string>>;

std::string Strip(std::string s) {
  const char* ws = " \t\r\n\v\f";
  const size_t a = s.find_first_not_of(ws);
  if (a == std::string::npos) return "";
  return s.substr(a, s.find_last_not_of(ws) - a + 1);
}
std::string Word(bool pad) {
  static const char* w[] = {"a", "b", "key", "k e y", "x.y", "x.y:1", "\xc3\xbc", "a]b", "1", "[q", "a;b", "a#b", "-", "\"", "a\tb", "a\rb", "'", "\\n", "z:z"};
  std::string s = w[sim::Choose(19)];
  if (sim::Chance(1, 4)) s += std::to_string(sim::Choose(40));
  if (sim::Chance(1, 40)) s += std::string(sim::SizeNear(8191, 9000), 'w');
  if (pad && sim::Chance(1, 4)) s = " " + s + "\t ";
  return s;
}
std::string Value() {
  static const char* w[] = {"", "v", "=", "a=b", "[x]", "; no comment", "# no", "a  b", "\xff\xfe", "]", "1,2", "x=[", "q;"};
  std::string s = w[sim::Choose(13)];
  if (sim::Chance(1, 4)) s += std::to_string(sim::Choose(1000));
  if (sim::Chance(1, 30)) s += std::string(sim::SizeNear(4096, 20000), 'v');
  return Strip(s);
}
// What the format can hold: see ini_file.h.
bool Representable(const std::string& group, const std::string& key, const std::string& val) {
  if (key.empty()) return false;
  if (key.find('=') != std::string::npos || key.find('\n') != std::string::npos || group.find('\n') != std::string::npos || val.find('\n') != std::string::npos) return false;
  if (key[0] == ';' || key[0] == '#') return false;
  const std::string line = key + "=" + val;
  if (line.front() == '[' && line.back() == ']') return false;
  return Strip(val) == val;
}
void Same(const IniFile& ini, const Model& m, const char* what) {
  size_t n = 0;
  for (auto& [g, kv] : m) n += kv.size();
  SIM_CHECK(ini.size() == n, "wrong-size", "%s: %zu values, expected %zu", what, ini.size(), n);
  SIM_CHECK(ini.empty() == m.empty(), "wrong-empty", "%s: empty() is %d", what, ini.empty());
  const auto groups = ini.GetGroups();
  SIM_CHECK(groups.size() == m.size(), "wrong-groups", "%s: %zu groups, expected %zu", what, groups.size(), m.size());
  for (auto& [g, kv] : m) {
    SIM_CHECK(groups.contains(g), "lost-group", "%s: group '%s' is missing", what, sim::Quote(g).c_str());
    const auto data = ini.GetGroupData(g);
    SIM_CHECK(data.size() == kv.size(), "wrong-keys", "%s: group '%s' has %zu keys, expected %zu", what, sim::Quote(g).c_str(), data.size(), kv.size());
    for (auto& [k, v] : kv) {
      const auto it = data.find(k);
      SIM_CHECK(it != data.end(), "lost-key", "%s: [%s] '%s' is missing", what, sim::Quote(g).c_str(), sim::Quote(k).c_str());
      SIM_CHECK(it->second == v, "wrong-value", "%s: [%s] '%s' is '%s', expected '%s'", what, sim::Quote(g).c_str(), sim::Quote(k).c_str(), sim::Quote(it->second).c_str(), sim::Quote(v).c_str());
      SIM_CHECK(ini.HasKey({g, k}), "no-key", "%s: HasKey denies '%s'", what, sim::Quote(k).c_str());
      const auto r = ini.GetKeyOrStatus({g, k});
      SIM_CHECK(r.ok() && *r == v, "wrong-value", "%s: GetKeyOrStatus differs for '%s'", what, sim::Quote(k).c_str());
      SIM_CHECK(ini.GetKeyOrDefault({" " + g, k + "\t"}, "?") == v, "wrong-value", "%s: GetKeyOrDefault differs for '%s'", what, sim::Quote(k).c_str());
    }
  }
  SIM_CHECK(!ini.HasKey({"nogroup!", "x"}) && !ini.GetKeyOrStatus({"nogroup!", "x"}).ok() && ini.GetKeyOrDefault({"nogroup!", "x"}, "dflt") == "dflt", "phantom", "%s: missing group is there", what);
}
// An independent rendering with the liberties the format allows.
std::string Render(const Model& m) {
  std::string s;
  std::vector<std::string> groups;
  for (auto& [g, kv] : m) groups.push_back(g);
  for (auto& g : groups) {
    if (!g.empty()) s += (sim::Chance(1, 4) ? "  [" : "[") + std::string(sim::Chance(1, 4) ? " " : "") + g + (sim::Chance(1, 5) ? " ] \n" : "]\n");
    for (auto& [k, v] : m.at(g)) {
      if (sim::Chance(1, 6)) s += sim::Chance(1, 2) ? "; comment = x\n" : "   # [comment]\n";
      if (sim::Chance(1, 6)) s += std::vector<std::string>{"\n", " \n", "\r\n", "\t \n"}[sim::Choose(4)];
      if (sim::Chance(1, 6) && k != "dup") s += k + "=old\n";  // later lines win
      s += (sim::Chance(1, 5) ? "\t" : "") + k + (sim::Chance(1, 4) ? " = " : "=") + v + (sim::Chance(1, 6) ? " \n" : "\n");
    }
  }
  if (!s.empty() && sim::Chance(1, 4)) s.pop_back();
  return s;
}
constexpr unsigned kAll = fc::kReadOps | fc::kWriteOps;

struct Slot {
  IniFile ini = IniFile::NewEmpty();
  Model m;
};

void Run() {
  sim::SetNowNs(1700000000000000000);
  vfs::Start();
  std::vector<Slot> slots(2);
  std::map<std::string, Model> disk;  // acknowledged (or prepared) content
  const int steps = static_cast<int>(sim::Range(1, 14));
  for (int i = 0; i < steps; ++i) {
    sim::Span span("step");
    Slot& s = slots[sim::Choose(2)];
    switch (sim::Choose(6)) {
      case 0:
      case 1: {
        for (uint32_t n = 1 + sim::Choose(5); n > 0; --n) {
          const std::string g = sim::Chance(1, 4) ? "" : Word(true), k = Word(true), v = Value();
          if (!Representable(Strip(g), Strip(k), v)) continue;
          if (sim::Chance(1, 2)) s.ini.SetKey({g, k}, std::string(v));
          else s.ini.SetKey({g, k}, std::string_view(v));
          s.m[Strip(g)][Strip(k)] = v;
        }
        Same(s.ini, s.m, "after SetKey");
        break;
      }
      case 2: {  // write
        const std::string p = "/sim/f" + std::to_string(sim::Choose(2));
        vfs::Plan plan = fc::Draw(fc::kWriteOps, 8);
        if (sim::Chance(1, 6)) plan.disk_room = static_cast<int64_t>(sim::Range(0, 200));
        vfs::SetPlan(plan);
        vfs::ClearFaults();
        const auto st = s.ini.Write(p);
        sim::Ev("write %s -> %d", p.c_str(), st.ok());
        fc::NoLeak("a write");
        if (!st.ok()) {
          SIM_CHECK(fc::Hard(), "spurious-error", "Write fails on a healthy disk");
          disk.erase(p);
          sim::Probe("write refused");
          sim::NonTrivial();
        } else {
          disk[p] = s.m;
          if (fc::Hard()) sim::NonTrivial();
          // Whatever happened: what has been acknowledged must be on the disk.
          vfs::SetPlan({});
          const auto r = IniFile::Read(p);
          SIM_CHECK(r.ok(), "unreadable", "an acknowledged file cannot be read");
          Same(*r, s.m, "read back after Write");
        }
        break;
      }
      case 3: {  // read
        const std::string p = "/sim/f" + std::to_string(sim::Choose(2));
        auto it = disk.find(p);
        vfs::SetPlan(fc::Draw(fc::kReadOps, 8));
        vfs::ClearFaults();
        vfs::P node = vfs::Find(p);
        if (node && sim::Chance(1, 8)) node->eio_at = static_cast<int64_t>(sim::Range(0, node->data.size()));
        const auto r = IniFile::Read(p);
        sim::Ev("read %s -> %d", p.c_str(), r.ok());
        fc::NoLeak("a read");
        if (fc::Hard()) sim::NonTrivial();
        if (node) node->eio_at = -1;
        if (r.ok()) {
          SIM_CHECK(node != nullptr, "false-success", "a missing file was read");
          if (it != disk.end()) {
            Same(*r, it->second, fc::Hard() ? "read under faults" : "read");
            s.ini = *r;
            s.m = it->second;
          }
        } else {
          SIM_CHECK(fc::Hard() || !node, "spurious-error", "Read fails on a healthy file");
          sim::Probe("read refused");
        }
        break;
      }
      case 4: {  // somebody else writes a file in the free form of the format
        const std::string p = "/sim/f" + std::to_string(sim::Choose(2));
        const std::string text = Render(s.m);
        vfs::Add(p, vfs::kFile, text);
        Model m;
        for (auto& [g, kv] : s.m)
          if (!kv.empty()) m[g] = kv;
        disk[p] = m;
        Same(IniFile::Parse(text), m, "Parse");
        sim::Probe("free form file");
        break;
      }
      default: {  // copies are independent
        Slot c = s;
        c.ini.SetKey({"copy", "only"}, std::string("1"));
        SIM_CHECK(!s.ini.HasKey({"copy", "only"}), "shared-copy", "changing a copy changed the original");
        Same(s.ini, s.m, "after copy");
        break;
      }
    }
    sim::State(sim::Hash64(std::to_string(s.m.size()), static_cast<uint64_t>(s.ini.size() * 8 + vfs::HardFaults().size())));
  }
}
}  // namespace
const SimHarness kSimHarness = {"C15", Run, nullptr};
