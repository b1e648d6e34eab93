// C31: the hash tool's real main() over failing standard input and output.
#include "harness/cli_common.h"
#include "mbo/hash/hash.h"

int hash_main_entry(int argc, char* argv[]);

namespace {
std::string Hex(uint64_t v) {
  char b[20];
  snprintf(b, sizeof(b), "%016lX\n", static_cast<unsigned long>(v));
  return b;
}
uint64_t Hash(int algo, const std::string& s) {
  namespace h = mbo::hash;
  switch (algo) {
    case 0: return h::dumbo::Algorithm::GetHash64(s);
    case 1: return h::fambo::Algorithm::GetHash64(s);
    case 2: return h::fnv1a::Algorithm::GetHash64(s);
    case 3: return h::mumbo::Algorithm::GetHash64(s);
    case 4: return h::murmur3::Algorithm::GetHash64(s);
    default: return h::siphash::Algorithm::GetHash64(s);
  }
}
void Run() {
  sim::SetNowNs(1700000000000000000);
  vfs::Start();
  static const char* names[] = {"dumbo", "fambo", "fnv1a", "mumbo", "murmur3", "siphash", "sha", ""};
  const int algo = static_cast<int>(sim::Chance(1, 25) ? 6 + sim::Choose(2) : sim::Choose(6));
  const bool arg = sim::Chance(1, 4), usage = sim::Chance(1, 40);
  std::vector<std::string> args = {"hash_tool"};
  std::string text, expected;
  if (!usage) args.push_back(names[algo]);
  if (arg) {
    text = fc::Content(true, 3000);
    args.push_back(text);
    if (algo < 6) expected = Hex(Hash(algo, text));
    if (usage) args.insert(args.begin() + 1, names[algo]), args.push_back("y");
  } else {
    text = sim::Chance(1, 3) ? fc::AnyContent() : fc::Content(true, sim::Chance(1, 2) ? 200 : 70000);
    bool end = true;
    if (algo < 6)
      for (auto& l : cli::Lines(text, &end)) expected += Hex(Hash(algo, l));
  }
  const bool dir = !arg && sim::Chance(1, 20);
  vfs::InstallStd(arg ? "" : text, dir);
  const bool bad_out = sim::Chance(1, 3);
  vfs::Plan p = fc::Draw(1u << vfs::kRead | 1u << vfs::kWrite, 12);
  p.only = [bad_out](const std::string& path) { return path != "<stderr>" && (bad_out || path != "<stdout>"); };
  vfs::SetPlan(p);
  vfs::ClearFaults();
  const cli::Result r = cli::Run(hash_main_entry, args);
  sim::Ev("hash %s arg %d %zu bytes -> %d, %zu bytes", names[algo], arg, text.size(), r.status, r.out.size());
  fc::NoLeak("the tool");
  const bool hard = fc::Hard();
  if (hard || dir) sim::NonTrivial();
  sim::State(sim::Hash64(fc::FaultText().substr(0, 40), static_cast<uint64_t>(algo * 16 + r.status * 2) + arg));
  if (usage || algo >= 6) {
    SIM_CHECK(r.status == 2 && !r.err.empty() && r.out.empty(), "bad-usage-accepted", "exit status %d, output %s for a wrong command line", r.status, sim::Quote(r.out, 100).c_str());
    return;
  }
  if (r.status == 0) {
    SIM_CHECK(!dir, "false-success", "exit status 0 though standard input is a directory");
    SIM_CHECK(!r.out_fault, "lost-output", "exit status 0 though standard output failed (faults %s)", fc::FaultText().c_str());
    SIM_CHECK(r.out == expected, r.out.size() < expected.size() && expected.compare(0, r.out.size(), r.out) == 0 ? "partial-output" : "wrong-output", "exit status 0, output %s, expected %s (faults %s)",
              sim::Quote(r.out, 200).c_str(), sim::Quote(expected, 200).c_str(), fc::FaultText().c_str());
    sim::Probe("complete");
    return;
  }
  SIM_CHECK(!r.err.empty(), "no-diagnostic", "exit status %d and nothing on standard error (faults %s)", r.status, fc::FaultText().c_str());
  SIM_CHECK(hard || dir, "spurious-failure", "exit status %d on a healthy system: %s", r.status, sim::Quote(r.err, 200).c_str());
  sim::Probe("trouble reported");
}
}  // namespace
const SimHarness kSimHarness = {"C31", Run, nullptr};
