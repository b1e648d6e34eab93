// C16/C17: the digest tool's real main() over simulated, failing files and standard streams.
#include <map>
#include <optional>

#include "harness/cli_common.h"
#include "ref/ref_digest.h"

int digest_main_entry(int argc, char* argv[]);

namespace {
struct Algo { const char* name; std::string (*f)(const std::string&); };
const Algo kAlgos[] = {
    {"md5", ref::md5}, {"sha1", ref::sha1}, {"sha224", ref::sha224}, {"sha256", ref::sha256}, {"sha384", ref::sha384}, {"sha512", ref::sha512},
    {"sha512-224", [](const std::string& m) { return ref::sha512_t(m, 224); }}, {"sha512-256", [](const std::string& m) { return ref::sha512_t(m, 256); }},
    {"sha3-224", [](const std::string& m) { return ref::sha3(m, 224); }}, {"sha3-256", [](const std::string& m) { return ref::sha3(m, 256); }},
    {"sha3-384", [](const std::string& m) { return ref::sha3(m, 384); }}, {"sha3-512", [](const std::string& m) { return ref::sha3(m, 512); }},
    {"shake128", [](const std::string& m) { return ref::shake(m, 128, 32); }}, {"shake256", [](const std::string& m) { return ref::shake(m, 256, 32); }},
    {"blake2b", [](const std::string& m) { return ref::blake2b(m, 64); }}, {"blake2b-256", [](const std::string& m) { return ref::blake2b(m, 32); }},
    {"blake3", [](const std::string& m) { return ref::blake3(m, 32); }},
};
std::string HexOf(const std::string& raw) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : raw) { r += d[c >> 4]; r += d[c & 15]; }
  return r;
}
enum Kind { kRegular, kDirectory, kMissing, kUnreadable, kStdin, kLoop };
struct In {
  Kind kind;
  std::string name, leaf, target_leaf, content, hex;
  bool listed = false;
};
std::vector<In> ins;
const Algo* algo;

void MakeInputs() {
#if defined(PROP_C17)
  const int n = static_cast<int>(sim::Range(1, 8));
#else
  const int n = static_cast<int>(sim::Range(1, 5));
#endif
  bool have_stdin = false;
  for (int i = 0; i < n; ++i) {
    sim::Span span("input");
    In in;
    const std::string dir = sim::Chance(1, 3) ? "/sim/sub dir" : "/sim";
    in.leaf = in.target_leaf = "f" + std::to_string(i) + (sim::Chance(1, 6) ? " x" : "") + (sim::Chance(1, 8) ? "*" : "");
    in.name = dir + "/" + in.leaf;
    const uint32_t k = sim::Choose(14);
    in.kind = k < 8 ? kRegular : k == 8 ? kDirectory : k == 9 ? kMissing : k == 10 ? kUnreadable : k == 11 ? kLoop : have_stdin ? kRegular : kStdin;
    switch (in.kind) {
      case kRegular: {
        in.content = fc::Content(false, sim::Chance(1, 6) ? 140000 : 70000);
        auto node = vfs::Add(in.name, vfs::kFile, in.content);
        if (sim::Chance(1, 10)) {
          in.name = "/sim/link" + std::to_string(i);
          vfs::Add(in.name, vfs::kLink, dir + "/" + in.leaf);
          in.leaf = cli::Leaf(in.name);
        }
        if (sim::Chance(1, 12)) node->eio_at = static_cast<int64_t>(sim::Range(0, in.content.size()));
        break;
      }
      case kDirectory: vfs::Add(in.name, vfs::kDir, "", 0755); break;
      case kMissing: break;
      case kUnreadable: vfs::Add(in.name, vfs::kFile, "secret", 0); break;
      case kLoop: vfs::Add(in.name, vfs::kLink, in.leaf); break;
      case kStdin:
        in.name = "-";
        in.leaf = in.target_leaf = "<stdin>";
        in.content = fc::Content(false);
        have_stdin = true;
        break;
    }
    if (in.kind == kRegular || in.kind == kStdin) in.hex = HexOf(algo->f(in.content));
    ins.push_back(in);
  }
}
bool Faulty(const In& in) { return cli::HardOn(in.leaf) || cli::HardOn(in.target_leaf); }
constexpr unsigned kOps = fc::kReadOps | 1u << vfs::kWrite;

void Compute() {
  std::string in_text;
  bool in_dir = false;
  for (auto& in : ins)
    if (in.kind == kStdin) in_text = in.content;
  vfs::InstallStd(in_text, in_dir);
  const bool rev = sim::Chance(1, 4), skip_dirs = sim::Chance(1, 3);
  std::vector<std::string> args = {"digest"};
  if (std::string(algo->name) != "sha256" || sim::Chance(1, 2)) args.push_back(std::string(sim::Chance(1, 2) ? "-a=" : "--algorithm=") + algo->name);
  if (rev) args.push_back("--reverse");
  if (skip_dirs) args.push_back(sim::Chance(1, 2) ? "-d" : "--ignore_directories");
  const bool cwd = sim::Chance(1, 6);
  if (cwd) args.push_back("--cwd=/sim");
  for (auto& in : ins) {
    if (cwd && in.name.compare(0, 5, "/sim/") == 0) in.name = in.name.substr(5);
    args.push_back(in.name);
  }
  const bool bad_out = sim::Chance(1, 6);
  vfs::Plan p = fc::Draw(kOps | (cwd ? 1u << vfs::kMeta : 0), 20);
  p.only = [bad_out](const std::string& path) { return path != "<stderr>" && (bad_out || path != "<stdout>"); };
  vfs::SetPlan(p);
  vfs::ClearFaults();
  const cli::Result r = cli::Run(digest_main_entry, args);
  sim::Ev("%s %zu inputs -> %d, %zu bytes out", algo->name, ins.size(), r.status, r.out.size());
  fc::NoLeak("the tool");
  const auto errs = cli::Lines(r.err);
  bool cwd_failed = false;
  for (auto& f : vfs::HardFaults()) cwd_failed |= f.op == vfs::kMeta;
  if (cwd_failed) {
    SIM_CHECK(r.status != 0 && r.out.empty(), "wrong-directory", "--cwd could not be followed; exit status %d, output %s", r.status, sim::Quote(r.out, 100).c_str());
    return;
  }
  // Output lost: then the status must say so; what arrived must be a prefix of correct output, which the line check covers.
  bool terminated = true;
  auto lines = cli::Lines(r.out, &terminated);
  if (r.out_fault) {
    SIM_CHECK(r.status != 0, "lost-output", "standard output lost bytes and the tool exits 0 (faults %s)", fc::FaultText().c_str());
    sim::Probe("output lost");
    sim::NonTrivial();
    return;
  }
  SIM_CHECK(terminated, "torn-line", "the last output line is not terminated");
  bool must_fail = false, may_fail = false;
  size_t at = 0;
  for (auto& in : ins) {
    const std::string want = rev ? in.name + "  " + in.hex : in.hex + "  " + in.name;
    const bool printed = at < lines.size() && (rev ? lines[at].compare(0, in.name.size() + 2, in.name + "  ") == 0
                                                   : lines[at].size() > in.name.size() + 2 &&
                                                         lines[at].compare(lines[at].size() - in.name.size() - 2, std::string::npos, "  " + in.name) == 0);
    if (printed) {
      SIM_CHECK(in.kind == kRegular || in.kind == kStdin, "digest-of-nothing", "a digest is printed for %s, which cannot be read: %s", in.name.c_str(), lines[at].c_str());
      SIM_CHECK(lines[at] == want, Faulty(in) ? "wrong-digest-under-fault" : "wrong-digest", "printed '%s', the file's digest line is '%s' (faults %s)", lines[at].c_str(),
                want.c_str(), fc::FaultText().c_str());
      ++at;
      if (Faulty(in)) sim::Probe("digest complete despite faults");
      continue;
    }
    if (in.kind == kDirectory && skip_dirs && !Faulty(in)) continue;
    const bool broken = in.kind != kRegular && in.kind != kStdin;
    SIM_CHECK(broken || Faulty(in), "not-printed", "healthy input %s was not digested; stderr: %s", in.name.c_str(), sim::Quote(r.err, 200).c_str());
    if (in.kind == kDirectory && skip_dirs) { may_fail = true; continue; }
    must_fail = true;
    bool said = false;
    for (auto& e : errs) said |= e.find(in.name) != std::string::npos || (in.kind == kStdin && !e.empty());
    SIM_CHECK(said, "silent-failure", "nothing on standard error about %s (stderr: %s)", in.name.c_str(), sim::Quote(r.err, 200).c_str());
    sim::Probe("input reported unreadable");
  }
  SIM_CHECK(at == lines.size(), "extra-output", "unexpected output line '%s'", at < lines.size() ? lines[at].c_str() : "");
  if (must_fail) SIM_CHECK(r.status != 0, "false-success", "exit status 0 although an input could not be digested (faults %s)", fc::FaultText().c_str());
  else if (!may_fail) SIM_CHECK(r.status == 0, "spurious-failure", "exit status %d although every input was digested; stderr %s", r.status, sim::Quote(r.err, 200).c_str());
  if (fc::Hard() || must_fail) sim::NonTrivial();
  sim::State(sim::Hash64(std::string(algo->name) + fc::FaultText().substr(0, 40), static_cast<uint64_t>(r.status * 8) + lines.size()));
}

struct Entry {
  const In* in;
  bool wrong, malformed;
  std::string text;
};
void Check() {
  // Lists: real lines, wrong digests, malformed lines, blanks.
  std::vector<Entry> entries;
  std::vector<std::pair<std::string, std::string>> lists;  // name, text
  const int nl = static_cast<int>(sim::Range(1, 2));
  std::string stdin_text;
  bool list_dir = false;
  for (int l = 0; l < nl; ++l) {
    std::string text;
    const int n = static_cast<int>(sim::Range(0, 6));
    for (int i = 0; i < n; ++i) {
      sim::Span span("line");
      if (sim::Chance(1, 10)) { text += "\n"; continue; }
      if (sim::Chance(1, 6)) {
        static const char* bad[] = {"garbage", "# comment", "deadbeef  f", "                        ", "zz"};
        Entry e{nullptr, false, true, bad[sim::Choose(5)]};
        const auto k = sim::Choose(3);
        std::string hex = HexOf(algo->f("x"));
        if (k == 1) { hex[sim::Choose(static_cast<uint32_t>(hex.size()))] = 'g'; e.text = hex + "  f0"; }
        if (k == 2) e.text = hex + (sim::Chance(1, 2) ? "  " : " f0");
        text += e.text + "\n";
        entries.push_back(e);
        continue;
      }
      const In& in = ins[sim::Choose(static_cast<uint32_t>(ins.size()))];
      if (in.kind == kStdin || in.listed) continue;
      const_cast<In&>(in).listed = true;  // once: a line of the report then belongs to one entry
      Entry e{&in, false, false, ""};
      std::string hex = in.hex.empty() ? HexOf(algo->f(sim::Chance(1, 2) ? "" : "secret")) : in.hex;
      if (sim::Chance(1, 4)) {
        char& c = hex[sim::Choose(2) ? hex.size() - 1 : sim::Choose(static_cast<uint32_t>(hex.size()))];
        c = c == '0' ? '1' : '0';
        e.wrong = true;
      }
      if (!in.hex.empty() && hex != in.hex) e.wrong = true;
      if (sim::Chance(1, 4))
        for (char& c : hex) c = static_cast<char>(toupper(c));
      e.text = hex + (sim::Chance(1, 3) ? " *" : "  ") + in.name;
      text += e.text + "\n";
      entries.push_back(e);
    }
    if (!text.empty() && sim::Chance(1, 5)) text.pop_back();
    std::string name = "/sim/list" + std::to_string(l);
    if (l == 0 && sim::Chance(1, 4)) {
      name = "-";
      stdin_text = text;
    } else if (sim::Chance(1, 14)) {
      vfs::Add(name, vfs::kDir);  // the list is a directory
      for (auto it = entries.begin(); it != entries.end();) it = true ? entries.erase(it) : it;
      list_dir = true;
      lists.push_back({name, ""});
      break;
    } else {
      auto node = vfs::Add(name, vfs::kFile, text);
      if (sim::Chance(1, 10)) node->eio_at = static_cast<int64_t>(sim::Range(0, text.size()));
    }
    lists.push_back({name, text});
  }
  vfs::InstallStd(stdin_text);
  const bool quiet = sim::Chance(1, 4), status = sim::Chance(1, 5), ign = sim::Chance(1, 4), strict = sim::Chance(1, 3);
  std::vector<std::string> args = {"digest", sim::Chance(1, 2) ? "-c" : "--check"};
  args.push_back(std::string("--algorithm=") + algo->name);
  if (quiet) args.push_back("--quiet");
  if (status) args.push_back("--status");
  if (ign) args.push_back("--ignore_missing");
  if (strict) args.push_back("--strict");
  for (auto& l : lists) args.push_back(l.first);
  vfs::Plan p = fc::Draw(kOps, 30);
  const bool bad_out = sim::Chance(1, 8);
  p.only = [bad_out](const std::string& path) { return path != "<stderr>" && (bad_out || path != "<stdout>"); };
  vfs::SetPlan(p);
  vfs::ClearFaults();
  const cli::Result r = cli::Run(digest_main_entry, args);
  sim::Ev("check %s %zu entries q%d s%d i%d st%d -> %d, %zu bytes out", algo->name, entries.size(), quiet, status, ign, strict, r.status, r.out.size());
  fc::NoLeak("the tool");
  bool list_fault = list_dir;
  for (auto& l : lists) list_fault |= cli::HardOn(l.first == "-" ? "<stdin>" : cli::Leaf(l.first));
  if (r.out_fault) {
    SIM_CHECK(r.status != 0, "lost-output", "standard output lost bytes and the tool exits 0 (faults %s)", fc::FaultText().c_str());
    sim::NonTrivial();
    return;
  }
  for (auto& l : lists) sim::Note("list %s: %s", l.first.c_str(), sim::Quote(l.second, 600).c_str());
  sim::Note("out %s err %s", sim::Quote(r.out, 400).c_str(), sim::Quote(r.err, 300).c_str());
  // Every reported line must be justified, in order.
  auto lines = cli::Lines(r.out);
  SIM_CHECK(!status || lines.empty(), "not-quiet", "--status printed '%s'", lines.empty() ? "" : lines[0].c_str());
  size_t at = 0;
  bool failed = false, all_fine = true, malformed = false;
  size_t verified_possible = 0, verified_sure = 0;
  for (auto& e : entries) {
    if (e.malformed) { malformed = true; continue; }
    const bool good = e.in->kind == kRegular && !e.wrong;
    const bool faulty = Faulty(*e.in);
    const std::string n = e.in->name;
    std::string got;
    if (at < lines.size()) {
      if (lines[at] == n + ": OK") got = "OK";
      if (lines[at] == n + ": FAILED") got = "FAILED";
      if (lines[at] == n + ": FAILED open or read") got = "UNREADABLE";
    }
    if (status) {
      verified_possible += good;
      verified_sure += good && !faulty;
      if (!good && !(ign && e.in->kind != kRegular)) all_fine = false;
      continue;
    }
    if (got == "OK") {
      // A later identical entry may own the line: only possible when this one may be silent.
      SIM_CHECK(good || quiet, "false-ok", "%s is reported OK; it is %s (faults %s)", n.c_str(), e.in->kind == kRegular ? "a file with another digest" : "not a readable file",
                fc::FaultText().c_str());
      if (good) { ++at; ++verified_possible; ++verified_sure; continue; }
    }
    if (got == "FAILED") {
      SIM_CHECK(!good || faulty, "false-failed", "%s is reported FAILED although its digest is the listed one (no fault on it)", n.c_str());
      if (!good) { ++at; failed = true; continue; }
      ++at;
      failed = true;
      continue;
    }
    if (got == "UNREADABLE") {
      SIM_CHECK(faulty || e.in->kind != kRegular, "false-unreadable", "%s is reported unreadable, it is a healthy file", n.c_str());
      ++at;
      failed = true;
      sim::Probe("listed file reported unreadable");
      continue;
    }
    // Silent.
    if (quiet && good) { ++verified_possible; verified_sure += !faulty; continue; }
    if (ign && (e.in->kind != kRegular || faulty)) continue;
    if (list_fault) { break; }
    sim::Fail("missing-report", "nothing is reported for %s (%s)", n.c_str(), sim::Quote(r.out, 200).c_str());
  }
  if (!list_fault) SIM_CHECK(at == lines.size(), "extra-output", "unexpected line '%s'", at < lines.size() ? lines[at].c_str() : "");
  const bool any_fault = fc::Hard();
  if (list_fault && !list_dir && !any_fault) sim::Fail("harness", "inconsistent");
  // Exit status.
  if (failed) SIM_CHECK(r.status != 0, "false-success", "exit status 0 although a file failed");
  if (list_dir) SIM_CHECK(r.status != 0, "list-unread", "exit status 0 although the checksum list is a directory");
  if (strict && malformed && !list_fault) SIM_CHECK(r.status != 0, "strict-ignored", "--strict: malformed line, exit status 0");
  if (r.status == 0) {
    for (auto& l : lists) {
      const std::string leaf = l.first == "-" ? "<stdin>" : cli::Leaf(l.first);
      for (auto& f : vfs::HardFaults())
        if (cli::Touches(f.path, leaf) && f.op == vfs::kRead && f.err != EINTR)
          sim::Fail("list-unread", "exit status 0 although reading the checksum list %s failed (faults %s)", l.first.c_str(), fc::FaultText().c_str());
    }
    for (auto& e : entries)
      if (!e.malformed && !(e.in->kind == kRegular && !e.wrong) && !(ign && (e.in->kind != kRegular || Faulty(*e.in))))
        sim::Fail("false-success", "exit status 0 although %s does not verify (faults %s)", e.in->name.c_str(), fc::FaultText().c_str());
    if (ign) SIM_CHECK(verified_possible > 0, "nothing-verified", "--ignore_missing: exit status 0 with nothing verified");
    sim::Probe("verified");
  } else if (!any_fault && !list_dir) {
    bool expect_fail = failed || (strict && malformed) || (status && !all_fine);
    if (ign && verified_sure == 0) expect_fail = true;
    SIM_CHECK(expect_fail, "spurious-failure", "exit status %d although everything verifies: %s", r.status, sim::Quote(r.err, 200).c_str());
  }
  if (any_fault || failed) sim::NonTrivial();
  sim::State(sim::Hash64(fc::FaultText().substr(0, 40), static_cast<uint64_t>(r.status * 64 + quiet * 32 + status * 16 + ign * 8 + strict * 4) + std::min<size_t>(lines.size(), 3)));
}

void Run() {
  sim::SetNowNs(1700000000000000000);
  vfs::Start();
  algo = &kAlgos[sim::Choose(sizeof(kAlgos) / sizeof(kAlgos[0]))];
  MakeInputs();
#if defined(PROP_C16)
  Compute();
#else
  Check();
#endif
}
}  // namespace
#if defined(PROP_C16)
const SimHarness kSimHarness = {"C16", Run, nullptr};
#else
const SimHarness kSimHarness = {"C17", Run, nullptr};
#endif
