// C18: the diff tool's real main() over simulated, failing inputs and standard output.
#include "absl/time/time.h"
#include "harness/cli_common.h"
#include "mbo/diff/diff.h"
#include "mbo/file/artefact.h"

int diff_main_entry(int argc, char* argv[]);

namespace {
struct Opts {
  std::string algo = "myers", format = "unified";
  int context = -1;
  size_t max_lines = 0;
  bool skip_time = false, icase = false, ispace = false, itrail = false, inl = false, minimal = false;
  // Options whose notion of equality is taken from the library.
  bool blank = false, cspace = false, no_headers = false, skip_left = false, plain_comments = false;
  std::string header_use, ignore_re, strip_prefix, comments, lhs_re, rhs_re;
  size_t width = 0;
  bool Exotic() const { return blank || cspace || skip_left || !ignore_re.empty() || !comments.empty() || !lhs_re.empty() || !rhs_re.empty(); }
};
std::vector<std::string> LinesOf(const std::string& s, bool* final_nl) {
  std::vector<std::string> v;
  size_t i = 0;
  *final_nl = true;
  while (i < s.size()) {
    const size_t j = s.find('\n', i);
    if (j == std::string::npos) { v.push_back(s.substr(i)); *final_nl = false; break; }
    v.push_back(s.substr(i, j - i));
    i = j + 1;
  }
  return v;
}
std::string Norm(const std::string& l, const Opts& o) {
  std::string r = l;
  if (o.itrail)
    while (!r.empty() && isspace(static_cast<unsigned char>(r.back()))) r.pop_back();
  if (o.ispace) {
    std::string t;
    for (char c : r)
      if (!isspace(static_cast<unsigned char>(c))) t += c;
    r = t;
  }
  if (o.icase)
    for (char& c : r) c = static_cast<char>(tolower(c));
  return r;
}
bool Equal(const std::string& a, const std::string& b, const Opts& o) {
  bool fa, fb;
  auto la = LinesOf(a, &fa), lb = LinesOf(b, &fb);
  if (la.size() != lb.size()) return false;
  for (size_t i = 0; i < la.size(); ++i)
    if (Norm(la[i], o) != Norm(lb[i], o)) return false;
  return o.inl || fa == fb;
}
// Applies a unified diff with exact positions; returns an error text or empty.
std::string Apply(const std::string& lhs, const std::string& diff, const std::string& rhs) {
  bool fl;
  const auto src = LinesOf(lhs, &fl);
  bool fd;
  const auto d = LinesOf(diff, &fd);
  std::string out;
  size_t pos = 0, i = 0;
  bool out_nl = true;
  auto emit = [&](const std::string& l, bool nl) { out += l; if (nl) out += '\n'; out_nl = nl; };
  if (d.size() < 2 || d[0].compare(0, 4, "--- ") || d[1].compare(0, 4, "+++ ")) return "no file header";
  i = 2;
  while (i < d.size()) {
    unsigned long a = 0, an = 1, b = 0, bn = 1;
    const std::string& h = d[i];
    if (h.compare(0, 4, "@@ -")) return "no chunk header at line " + std::to_string(i) + ": " + h;
    const char* p = h.c_str() + 4;
    char* e;
    a = strtoul(p, &e, 10);
    if (*e == ',') an = strtoul(e + 1, &e, 10);
    if (strncmp(e, " +", 2)) return "bad chunk header " + h;
    b = strtoul(e + 2, &e, 10);
    if (*e == ',') bn = strtoul(e + 1, &e, 10);
    const size_t start = an == 0 ? a : a - 1;
    if (start < pos || start > src.size()) return "chunk out of order: " + h;
    while (pos < start) { emit(src[pos], pos + 1 < src.size() || fl); ++pos; }
    (void)b;
    ++i;
    size_t na = 0, nb = 0;
    while (i < d.size() && (na < an || nb < bn)) {
      const char k = d[i].empty() ? ' ' : d[i][0];
      const std::string t = d[i].empty() ? "" : d[i].substr(1);
      const bool nonl = i + 1 < d.size() && d[i + 1].compare(0, 2, "\\ ") == 0;
      if (k == ' ' || k == '-') {
        if (pos >= src.size() || src[pos] != t) return "line " + std::to_string(pos + 1) + " of the left file is not '" + t + "'";
        if (nonl != (pos + 1 == src.size() && !fl)) return "wrong newline marker at left line " + std::to_string(pos + 1);
        ++pos;
        ++na;
      }
      if (k == ' ' || k == '+') { emit(t, !nonl); ++nb; }
      if (k != ' ' && k != '+' && k != '-') return "bad line " + d[i];
      ++i;
      if (nonl) ++i;
    }
    if (na != an || nb != bn) return "chunk is cut: " + h;
  }
  while (pos < src.size()) { emit(src[pos], pos + 1 < src.size() || fl); ++pos; }
  if (out != rhs) return "the patched left file is not the right file";
  return "";
}

std::string Text() {
  const size_t n = sim::Choose(6) == 0 ? sim::Range(0, 400) : sim::Range(0, 14);
  static const char* l[] = {"", "a", "b", "A", "a ", " a", "int x = 1;", "}", "-- sql", "++x", "@@ -1 +1 @@", "\\ x", "\xff", "line\r", "a b", "--- f", "+++ f"};
  std::string s;
  for (size_t i = 0; i < n; ++i) {
    s += l[sim::Choose(17)];
    if (sim::Chance(1, 60)) s += std::string(sim::SizeNear(4096, 9000), 'l');
    s += '\n';
  }
  if (!s.empty() && sim::Chance(1, 5)) s.pop_back();
  return s;
}
std::string Edit(const std::string& a) {
  bool f;
  auto l = LinesOf(a, &f);
  for (uint32_t n = 1 + sim::Choose(4); n > 0; --n) {
    const size_t at = sim::Range(0, l.size());
    switch (sim::Choose(4)) {
      case 0: l.insert(l.begin() + static_cast<long>(at), "new " + std::to_string(sim::Choose(5))); break;
      case 1: if (at < l.size()) l.erase(l.begin() + static_cast<long>(at)); break;
      case 2: if (at < l.size()) l[at] += " "; break;
      default: if (at < l.size()) for (char& c : l[at]) c = static_cast<char>(toupper(c)); break;
    }
  }
  std::string s;
  for (auto& x : l) s += x + "\n";
  if (!s.empty() && (sim::Chance(1, 6) || !f)) s.pop_back();
  return s;
}
std::string FirstN(const std::string& s, size_t n) { return n ? fc::FirstLines(s, n) : s; }

void Run() {
  sim::SetNowNs(1700000000000000000);
  vfs::Start();
  const std::string a = Text();
  const std::string b = sim::Chance(1, 4) ? a : sim::Chance(1, 3) ? Text() : Edit(a);
  auto na = vfs::Add("/sim/left", vfs::kFile, a);
  auto nb = vfs::Add("/sim/right", vfs::kFile, b);
  na->mtime_ns = 1600000000000000000 + static_cast<int64_t>(sim::Range(0, 1000000000000));
  nb->mtime_ns = -static_cast<int64_t>(sim::Range(0, 5000000000000));
  std::string ln = "/sim/left", rn = "/sim/right";
  const bool odd = sim::Chance(1, 10);
  if (odd) {
    vfs::Add("/sim/dir", vfs::kDir);
    vfs::Add("/sim/secret", vfs::kFile, a, 0);
    const char* o[] = {"/sim/dir", "/sim/secret", "/sim/none"};
    (sim::Chance(1, 2) ? ln : rn) = o[sim::Choose(3)];
  }
  if (sim::Chance(1, 10)) (sim::Chance(1, 2) ? na : nb)->eio_at = static_cast<int64_t>(sim::Range(0, a.size()));
  vfs::InstallStd("");
  Opts o;
  static const char* algos[] = {"myers", "naive", "direct"};
  static const char* formats[] = {"unified", "context", "normal", "side-by-side"};
  o.algo = algos[sim::Choose(3)];
  o.format = sim::Chance(1, 2) ? "unified" : formats[sim::Choose(4)];
  if (sim::Chance(1, 2)) o.context = static_cast<int>(sim::Choose(5));
  if (sim::Chance(1, 4)) o.max_lines = sim::Chance(1, 2) ? sim::Range(1, 12) : sim::Range(1, 450);
  o.skip_time = sim::Chance(1, 4);
  o.icase = sim::Chance(1, 8);
  o.ispace = sim::Chance(1, 8);
  o.itrail = sim::Chance(1, 8);
  o.inl = sim::Chance(1, 10);
  o.minimal = sim::Chance(1, 8);
  if (sim::Chance(1, 3)) {
    o.blank = sim::Chance(1, 4);
    o.cspace = sim::Chance(1, 4);
    o.no_headers = sim::Chance(1, 6);
    o.skip_left = sim::Chance(1, 6);
    static const char* uses[] = {"both", "left", "none", "right"};
    if (sim::Chance(1, 3)) o.header_use = uses[sim::Choose(4)];
    static const char* res[] = {"a", "^new", "[0-9]$", "^$"};
    if (sim::Chance(1, 4)) o.ignore_re = res[sim::Choose(4)];
    if (sim::Chance(1, 4)) o.strip_prefix = "/sim/";
    if (sim::Chance(1, 5)) o.comments = sim::Chance(1, 2) ? "--" : "++";
    o.plain_comments = sim::Chance(1, 2);
    if (sim::Chance(1, 6)) o.lhs_re = "/a/new/";
    if (sim::Chance(1, 6)) o.rhs_re = "|b|a|";
    if (o.format == "side-by-side" && sim::Chance(1, 2)) o.width = sim::Range(20, 200);
  }
  std::vector<std::string> args = {"diff"};
  if (o.algo != "myers" || sim::Chance(1, 2)) args.push_back("--algorithm=" + o.algo);
  if (o.format != "unified" || sim::Chance(1, 2)) args.push_back("--format=" + o.format);
  if (o.context >= 0) args.push_back("--context=" + std::to_string(o.context));
  if (o.max_lines) args.push_back("--max_lines=" + std::to_string(o.max_lines));
  if (o.skip_time) args.push_back("--skip_time");
  if (o.icase) args.push_back("--ignore_case");
  if (o.ispace) args.push_back("--ignore_all_space");
  if (o.itrail) args.push_back("--ignore_trailing_space");
  if (o.inl) args.push_back("--ignore_missing_final_newline");
  if (o.minimal) args.push_back("--minimal");
  if (o.blank) args.push_back("--ignore_blank_lines");
  if (o.cspace) args.push_back("--ignore_consecutive_space");
  if (o.no_headers) args.push_back("--show_chunk_headers=false");
  if (o.skip_left) args.push_back("--skip_left_deletions");
  if (!o.header_use.empty()) args.push_back("--file_header_use=" + o.header_use);
  if (!o.ignore_re.empty()) args.push_back("--ignore_matching_lines=" + o.ignore_re);
  if (!o.strip_prefix.empty()) args.push_back("--strip_file_header_prefix=" + o.strip_prefix);
  if (!o.comments.empty()) args.push_back("--strip_comments=" + o.comments);
  if (!o.comments.empty() && o.plain_comments) args.push_back("--strip_parsed_comments=false");
  if (!o.lhs_re.empty()) args.push_back("--regex_replace_lhs=" + o.lhs_re);
  if (!o.rhs_re.empty()) args.push_back("--regex_replace_rhs=" + o.rhs_re);
  if (o.width) args.push_back("--width=" + std::to_string(o.width));
  args.push_back(ln);
  args.push_back(rn);
  // The text that has to arrive, from content held in memory.
  const std::string la = FirstN(a, o.max_lines), lb = FirstN(b, o.max_lines);
  bool equal = Equal(la, lb, o);
  std::string expected;
  if (!odd) {
    mbo::diff::DiffOptions d;
    d.algorithm = o.algo == "naive" ? mbo::diff::DiffOptions::Algorithm::kNaive : o.algo == "direct" ? mbo::diff::DiffOptions::Algorithm::kDirect : mbo::diff::DiffOptions::Algorithm::kMyers;
    d.output_format = *mbo::diff::DiffOptions::ParseOutputFormatFlag(o.format);
    const bool dir = o.algo == "direct";
    d.context_size = o.context >= 0 ? static_cast<size_t>(o.context) : o.format == "side-by-side" ? SIZE_MAX / 2 : dir || o.format == "normal" ? 0 : 3;
    d.show_chunk_headers = !dir && !o.no_headers;
    d.ignore_blank_lines = o.blank;
    d.ignore_consecutive_space = o.cspace;
    d.skip_left_deletions = o.skip_left;
    if (!o.header_use.empty()) d.file_header_use = *mbo::diff::DiffOptions::ParseFileHeaderUse(o.header_use);
    if (!o.ignore_re.empty()) d.ignore_matching_lines.emplace(o.ignore_re);
    d.strip_file_header_prefix = o.strip_prefix;
    if (!o.comments.empty()) d.strip_comments = mbo::strings::StripParsedCommentArgs{.parse = {.stop_at_str = o.comments, .remove_quotes = false}};
    if (!o.comments.empty() && o.plain_comments) d.strip_comments = mbo::strings::StripCommentArgs{.comment_start = o.comments};
    d.regex_replace_lhs = mbo::diff::DiffOptions::ParseRegexReplaceFlag(o.lhs_re);
    d.regex_replace_rhs = mbo::diff::DiffOptions::ParseRegexReplaceFlag(o.rhs_re);
    if (o.width) d.side_by_side_width = o.width;
    d.ignore_case = o.icase;
    d.ignore_all_space = o.ispace;
    d.ignore_trailing_space = o.itrail;
    d.ignore_missing_final_newline = o.inl;
    d.minimal = o.minimal;
    mbo::file::Artefact fa{.data = la, .name = ln, .time = o.skip_time ? absl::UnixEpoch() : absl::FromUnixNanos(na->mtime_ns)};
    mbo::file::Artefact fb{.data = lb, .name = rn, .time = o.skip_time ? absl::UnixEpoch() : absl::FromUnixNanos(nb->mtime_ns)};
    const auto r = mbo::diff::Diff::FileDiff(fa, fb, d);
    SIM_CHECK(r.ok(), "diff-error", "FileDiff: %s", std::string(r.status().message()).c_str());
    expected = *r;
    if (o.Exotic()) {
      SIM_CHECK(!equal || expected.empty() || !o.lhs_re.empty() || !o.rhs_re.empty(), "differs-though-equal", "FileDiff gives differences for equal texts: %s", sim::Quote(expected, 300).c_str());
      equal = expected.empty();
      sim::Probe("option with the library's own notion of equality");
    }
    SIM_CHECK(expected.empty() == equal, equal ? "differs-though-equal" : "equal-though-different", "FileDiff gives %zu bytes of differences, the texts are %s under the options; diff: %s",
              expected.size(), equal ? "equal" : "different", sim::Quote(expected, 300).c_str());
    const bool raw = !o.Exotic() && !o.no_headers && (o.header_use.empty() || o.header_use == "both") && !o.icase && !o.ispace && !o.itrail && !o.inl;
    if (raw && !equal && o.format == "unified" && !dir) {
      const std::string err = Apply(la, expected, lb);
      SIM_CHECK(err.empty(), "bad-patch", "%s; diff: %s", err.c_str(), sim::Quote(expected, 600).c_str());
      sim::Probe("difference applied as a patch");
    }
  }
  const bool bad_out = sim::Chance(1, 5);
  vfs::Plan p = fc::Draw(fc::kReadOps | 1u << vfs::kWrite, 16);
  p.only = [bad_out](const std::string& path) { return path != "<stderr>" && (bad_out || path != "<stdout>"); };
  vfs::SetPlan(p);
  vfs::ClearFaults();
  const cli::Result r = cli::Run(diff_main_entry, args);
  sim::Ev("diff %s %s equal %d odd %d -> %d, %zu bytes", o.algo.c_str(), o.format.c_str(), equal, odd, r.status, r.out.size());
  fc::NoLeak("the tool");
  const bool hard = fc::Hard();
  if (hard || odd) sim::NonTrivial();
  SIM_CHECK(r.status == 0 || r.status == 1 || r.status == 2, "bad-status", "exit status %d", r.status);
  if (r.out_fault) {
    SIM_CHECK(r.status == 2, "lost-output", "the difference text did not reach standard output and the exit status is %d (faults %s)", r.status, fc::FaultText().c_str());
    sim::Probe("output lost");
    return;
  }
  if (odd) {
    SIM_CHECK(r.status == 2, "false-status", "an input cannot be read, exit status %d", r.status);
    return;
  }
  switch (r.status) {
    case 0:
      SIM_CHECK(equal, "false-equal", "exit status 0 for different files (faults %s)", fc::FaultText().c_str());
      SIM_CHECK(r.out.empty(), "extra-output", "output for equal files");
      break;
    case 1:
      SIM_CHECK(!equal, "false-difference", "exit status 1 for equal files (faults %s)", fc::FaultText().c_str());
      SIM_CHECK(r.out == expected, "wrong-output", "exit status 1, output %s, expected %s (faults %s)", sim::Quote(r.out, 300).c_str(), sim::Quote(expected, 300).c_str(), fc::FaultText().c_str());
      break;
    default:
      SIM_CHECK(hard, "spurious-trouble", "exit status 2 on a healthy system: %s", sim::Quote(r.err, 200).c_str());
      SIM_CHECK(r.out.empty(), "partial-output", "trouble, and yet output %s", sim::Quote(r.out, 200).c_str());
      sim::Probe("trouble reported");
  }
  sim::State(sim::Hash64(o.algo + o.format + fc::FaultText().substr(0, 30), static_cast<uint64_t>(r.status)));
}
}  // namespace
const SimHarness kSimHarness = {"C18", Run, nullptr};
