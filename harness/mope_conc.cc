// C20: a const Template expanded again and again, from several simulated threads.
#include "absl/status/status.h"
#include "harness/mope_model.h"
#include "mbo/container/any_scan.h"
#include "mbo/mope/mope.h"
#include "sim/simsched.h"

namespace {
bool Load(mbo::mope::Template& t, const mm::Tpl& m) {
  for (auto& [name, e] : m.m) {
    if (!e.section) {
      if (!t.SetValue(name, e.value).ok()) return false;
      continue;
    }
    for (auto& sub : e.subs) {
      auto s = t.AddSection(name);
      if (!s.ok() || !Load(**s, sub)) return false;
    }
  }
  return true;
}
struct Job {
  std::string text, out;
  std::optional<std::string> expected;
  std::vector<std::pair<std::string, std::string>> ctx;
  bool use_ctx = false, ok = false;
};
Job MakeJob(const mm::Tpl& m, const std::vector<mm::Node>* base) {
  Job j;
  const auto nodes = base && sim::Choose(2) ? *base : mm::GenText(&m);
  j.text = mm::Render(nodes);
  mm::Ctx ctx;
  j.use_ctx = sim::Chance(1, 3);
  if (j.use_ctx)
    for (uint32_t n = sim::Choose(4); n > 0; --n) {
      const std::string k = mm::Name();
      if (ctx.count(k)) continue;
      ctx[k].value = mm::ValueText();
      j.ctx.push_back({k, ctx[k].value});
    }
  j.expected = mm::Expansion(ctx).Run(m, nodes);
  if (sim::Chance(1, 20)) {  // no end tag
    j.text += "{{#a}}";
    j.expected.reset();
  }
  return j;
}
void Expand(const mbo::mope::Template& t, Job& j) {
  j.out = j.text;
  if (j.use_ctx) j.ok = t.Expand(j.out, mbo::container::MakeConvertingScan(j.ctx)).ok();
  else j.ok = t.Expand(j.out).ok();
}
void Judge(const Job& j, const char* when) {
  SIM_CHECK(j.ok == j.expected.has_value(), "wrong-status", "%s: Expand is %s, expected %s, for %s", when, j.ok ? "OK" : "an error", j.expected ? "OK" : "an error", sim::Quote(j.text, 300).c_str());
  if (j.ok)
    SIM_CHECK(j.out == *j.expected, "wrong-expansion", "%s: %s expands to %s, expected %s", when, sim::Quote(j.text, 300).c_str(), sim::Quote(j.out, 300).c_str(), sim::Quote(*j.expected, 300).c_str());
}
void Run() {
  mm::Tpl m;
  mm::Fill(m, 0);
  mbo::mope::Template t;
  SIM_CHECK(Load(t, m), "load", "the template data was refused");
  const mbo::mope::Template& shared = t;
  const int rounds = 1 + static_cast<int>(sim::Choose(3));
  for (int r = 0; r < rounds; ++r) {
    sim::Span span("round");
    // one after the other, failing ones in between
    for (uint32_t n = sim::Choose(4); n > 0; --n) {
      Job j = MakeJob(m, nullptr);
      Expand(shared, j);
      sim::Ev("expand %zu bytes -> %d %zu", j.text.size(), j.ok, j.out.size());
      Judge(j, "in a sequence");
      if (!j.expected) sim::Probe("failing expansion in the history");
      sim::State(sim::Hash64("seq", static_cast<uint64_t>(std::min<size_t>(j.text.size(), 300)) * 2 + j.ok));
    }
    if (sim::Choose(4) == 0) continue;
    const auto base = mm::GenText(&m);
    std::vector<Job> jobs;
    for (uint32_t n = 2 + sim::Choose(2); n > 0; --n) jobs.push_back(MakeJob(m, &base));
    sched::Begin();
    for (auto& j : jobs) sched::Spawn([&shared, &j] { Expand(shared, j); });
    sched::RunAll();
    if (sched::Switches() >= 2) sim::NonTrivial();
    for (auto& j : jobs) {
      sim::Ev("threads: %zu bytes -> %d %zu", j.text.size(), j.ok, j.out.size());
      Judge(j, "in parallel");
    }
    sim::Probe("parallel expansions");
    sim::State(sim::Hash64("par", std::min<uint64_t>(sched::Switches(), 20) * 8 + jobs.size()));
  }
}
}  // namespace
const SimHarness kSimHarness = {"C20", Run, nullptr};
