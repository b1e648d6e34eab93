// C19: the template tool's real main() over simulated, failing files and streams.
#include "harness/cli_common.h"
#include "harness/mope_model.h"

int mope_main_entry(int argc, char* argv[]);

namespace {
std::string IniValue() {
  static const char* w[] = {"v", "3", "-2", "a b", "=", "{{a}}", "", "7", ";x"};
  return w[sim::Choose(9)];
}
void Run() {
  sim::SetNowNs(1700000000000000000);
  vfs::Start();
  mm::Tpl root;
  mm::Ctx ctx;
  bool data_ok = true;
  std::vector<std::string> args = {"mope"};
  // --set
  std::string sets;
  for (uint32_t n = sim::Choose(5); n > 0; --n) {
    std::vector<std::string> path;
    for (uint32_t d = sim::Chance(1, 2) ? 0 : 1 + sim::Choose(2); d > 0; --d) path.push_back(sim::Chance(1, 40) ? "bad name" : mm::Name());
    const std::string key = sim::Chance(1, 40) ? "9" : mm::Name();
    const std::string val = std::vector<std::string>{"1", "text", "5", "{{b}}", "", "x y"}[sim::Choose(6)];
    const bool global = path.empty() && sim::Chance(1, 3);
    sets += sets.empty() ? "" : ",";
    for (auto& s : path) sets += s + ":";
    if (global) sets += ":";
    sets += key + "=" + val;
    if (!data_ok) continue;
    if (global) {
      ctx[key].value = val;
      continue;
    }
    mm::Tpl* t = &root;
    for (auto& s : path)
      if (t) t = t->Add(s);
    if (!t || !t->Set(key, val)) data_ok = false;
  }
  for (auto& [k, v] : ctx) data_ok &= mm::Tpl::Valid(k);
  if (!sets.empty()) args.push_back("--set=" + sets);
  // --ini
  bool odd = false;
  if (sim::Choose(2)) {
    std::map<std::string, std::map<std::string, std::string>> ini;
    const bool few = sim::Choose(2) != 0;  // few names: many entries of the same section
    const std::string two[] = {mm::Name(), mm::Name()};
    for (uint32_t n = sim::Choose(few ? 12 : 7); n > 0; --n) {
      std::string g;
      for (uint32_t d = sim::Choose(3); d > 0; --d) {
        g += (g.empty() ? "" : ".") + (few ? two[sim::Choose(2)] : mm::Name());
        if (sim::Chance(1, 3)) g += ":" + std::vector<std::string>{"0", "1", "2", "1-a", "1 b", ""}[sim::Choose(6)];
      }
      for (uint32_t k = 1 + sim::Choose(2); k > 0; --k) ini[g][sim::Chance(1, 60) ? "not a name" : mm::Name()] = IniValue();
    }
    std::string s;
    for (auto& [g, kv] : ini) {
      if (!g.empty()) s += "[" + g + "]\n";
      for (auto& [k, v] : kv) s += k + "=" + v + (sim::Chance(1, 6) ? "\r\n \n" : "\n");
      if (sim::Chance(1, 4)) s += "; note\n\n";
      if (sim::Chance(1, 40)) s += "# " + std::string(sim::SizeNear(8191, 9000), 'c') + "\n";
    }
    vfs::Add("/sim/values.ini", vfs::kFile, s);
    std::map<std::vector<std::pair<std::string, std::string>>, mm::Tpl*> at;
    // Sections are kept in vectors: build with stable paths instead of pointers.
    struct Step { std::string name; size_t idx; };
    std::map<std::string, std::vector<Step>> known;
    auto resolve = [&](const std::vector<Step>& p) {
      mm::Tpl* t = &root;
      for (auto& st : p) t = &t->m[st.name].subs[st.idx];
      return t;
    };
    for (auto& [g, kv] : ini) {
      if (!data_ok) break;
      std::vector<Step> p;
      std::string prefix;
      size_t i = 0;
      while (!g.empty() && i <= g.size() && data_ok) {
        size_t j = g.find('.', i);
        if (j == std::string::npos) j = g.size();
        const std::string level = g.substr(i, j - i), name = level.substr(0, level.find(':'));
        prefix += level + (level.find(':') == std::string::npos ? ":" : "") + "\n";
        auto it = known.find(prefix);
        if (it == known.end()) {
          mm::Tpl* t = resolve(p);
          if (!t->Add(name)) data_ok = false;
          else {
            p.push_back({name, t->m[name].subs.size() - 1});
            known[prefix] = p;
          }
        } else {
          p = it->second;
        }
        i = j + 1;
      }
      if (!data_ok) break;
      for (auto& [k, v] : kv) data_ok = data_ok && resolve(p)->Set(k, v);
    }
    std::string name = "/sim/values.ini";
    if (sim::Chance(1, 12)) {
      odd = true;
      vfs::Add("/sim/dir", vfs::kDir);
      name = sim::Choose(2) ? "/sim/dir" : "/sim/none.ini";
    }
    args.push_back("--ini=" + name);
  } else {
    args.push_back("--ini=");
  }
  const auto nodes = mm::GenText(data_ok ? &root : nullptr);
  const std::string text = mm::Render(nodes);
  // --template, --generate
  auto tnode = vfs::Add("/sim/in/t.mope", vfs::kFile, text);
  std::string tname = "/sim/in/t.mope";
  if (sim::Chance(1, 10)) {
    odd = true;
    vfs::Add("/sim/secret", vfs::kFile, text, 0);
    vfs::Add("/sim/dir", vfs::kDir);
    tname = std::vector<std::string>{"/sim/none", "/sim/dir", "/sim/secret"}[sim::Choose(3)];
  }
  if (sim::Chance(1, 12)) tnode->eio_at = static_cast<int64_t>(sim::Range(0, text.size()));
  args.push_back("--template=" + tname);
  const bool to_file = sim::Chance(1, 2);
  std::string out_name = "/sim/out/gen.txt";
  const bool out_exists = sim::Chance(1, 2);
  bool bad_out = false;
  if (to_file) {
    vfs::Add("/sim/out", vfs::kDir);
    if (out_exists) vfs::Add(out_name, vfs::kFile, "previous content that is longer than most expansions, to show through");
    if (sim::Chance(1, 12)) {
      bad_out = true;
      out_name = sim::Choose(2) ? "/sim/missing/gen.txt" : "/sim/out";
    }
    args.push_back("--generate=" + out_name);
  } else if (sim::Choose(2)) {
    args.push_back("--generate=-");
  }
  vfs::InstallStd("");
  std::optional<std::string> expected;
  if (data_ok) expected = mm::Expansion(ctx).Run(root, nodes);
  const bool bad_std = sim::Chance(1, 3);
  vfs::Plan p = fc::Draw(fc::kReadOps | fc::kWriteOps, 22);
  p.only = [bad_std](const std::string& path) { return path != "<stderr>" && path != "<stdin>" && (bad_std || path != "<stdout>"); };
  vfs::SetPlan(p);
  vfs::ClearFaults();
  const cli::Result r = cli::Run(mope_main_entry, args);
  sim::Ev("mope %zu text, data %d, expect %d odd %d bad %d file %d -> %d, out %zu", text.size(), data_ok, expected.has_value(), odd, bad_out, to_file, r.status, r.out.size());
  fc::NoLeak("the tool");
  const bool hard = fc::Hard();
  if (hard || odd || bad_out) sim::NonTrivial();
  const auto on = [&] { return "text " + sim::Quote(text, 300) + ", faults " + fc::FaultText(); };
  if (r.status != 0) {
    SIM_CHECK(!r.err.empty() || r.out_fault, "no-diagnostic", "exit status %d and nothing on standard error (%s)", r.status, on().c_str());
    SIM_CHECK(hard || odd || bad_out || !expected, "spurious-failure", "exit status %d on a healthy system: %s (%s)", r.status, sim::Quote(r.err, 300).c_str(), on().c_str());
    if (hard || odd) sim::Probe("trouble reported");
    return;
  }
  SIM_CHECK(!odd, "false-success", "exit status 0 though an input cannot be read (%s)", on().c_str());
  SIM_CHECK(!bad_out, "false-success", "exit status 0 though the output cannot be created (%s)", on().c_str());
  SIM_CHECK(expected.has_value(), "false-success", "exit status 0 for a template that has no expansion (%s)", on().c_str());
  if (to_file) {
    const auto n = vfs::Find(out_name);
    SIM_CHECK(n != nullptr, "no-output", "exit status 0 without an output file (%s)", on().c_str());
    SIM_CHECK(n->data == *expected, n->data.size() < expected->size() && expected->compare(0, n->data.size(), n->data) == 0 ? "partial-output" : "wrong-output", "exit status 0, output %s, expected %s (%s)",
              sim::Quote(n->data, 300).c_str(), sim::Quote(*expected, 300).c_str(), on().c_str());
    SIM_CHECK(r.out.empty(), "extra-output", "standard output %s", sim::Quote(r.out, 100).c_str());
    if (!expected->empty()) sim::Probe("expansion in a file");
  } else {
    SIM_CHECK(!r.out_fault, "lost-output", "exit status 0 though standard output failed (%s)", on().c_str());
    SIM_CHECK(r.out == *expected, "wrong-output", "exit status 0, output %s, expected %s (%s)", sim::Quote(r.out, 300).c_str(), sim::Quote(*expected, 300).c_str(), on().c_str());
  }
  sim::State(sim::Hash64(fc::FaultText().substr(0, 40), static_cast<uint64_t>(to_file) + (expected->empty() ? 2 : 0) + std::min<size_t>(nodes.size(), 8) * 4));
}
}  // namespace
const SimHarness kSimHarness = {"C19", Run, nullptr};
