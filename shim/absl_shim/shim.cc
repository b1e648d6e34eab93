// Implementation of the stand-in for Abseil (see base.h). Single process, no threads of its own.
#include "absl_shim/flags.h"
#include "absl_shim/log.h"
#include "absl_shim/status.h"
#include "absl_shim/strings.h"
#include "absl_shim/time.h"

#include <cerrno>
#include <charconv>
#include <cinttypes>
#include <ctime>
#include <map>
#include <unistd.h>

namespace shim {
static int64_t FixedNow() { return 1'700'000'000'000'000'000LL; }
int64_t (*now_ns)() = &FixedNow;
void (*log_sink)(int, const char*, int, std::string_view) = nullptr;
uint64_t hash_seed = 0;
void (*mutex_op)(void*, int) = nullptr;
void (*exit_hook)(int, std::string_view) = nullptr;
}  // namespace shim

namespace absl {
namespace shim_internal {
bool ParseInt(std::string_view s, bool is_signed, int bits, uint64_t* out, int base) {
  s = StripAsciiWhitespace(s);
  *out = 0;
  bool neg = false;
  if (!s.empty() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; s.remove_prefix(1); }
  if (s.empty() || (neg && !is_signed)) return false;
  const uint64_t umax = bits == 64 ? ~0ULL : (1ULL << bits) - 1;
  const uint64_t lim = is_signed ? (umax >> 1) + (neg ? 1 : 0) : umax;
  uint64_t v = 0;
  for (const char c : s) {
    int d = ascii_isdigit(c) ? c - '0' : ascii_isalpha(c) ? (c | 32) - 'a' + 10 : 99;
    if (d >= base) { *out = neg ? uint64_t(0) - v : v; return false; }
    if (v > (lim - d) / base) { *out = neg ? uint64_t(0) - lim : lim; return false; }
    v = v * base + d;
  }
  *out = neg ? uint64_t(0) - v : v;
  return true;
}
std::string SixDigits(double d) { char b[64]; std::snprintf(b, sizeof b, "%g", d); return b; }
[[noreturn]] void BadStatusOr(const Status& s) {
  const std::string m = "Attempting to fetch value instead of handling error " + s.ToString();
  if (shim::log_sink) shim::log_sink(3, "statusor", 0, m); else std::fprintf(stderr, "%s\n", m.c_str());
  std::abort();
}
}  // namespace shim_internal

template <typename F> static bool FloatOf(std::string_view s, F* out) {
  s = StripAsciiWhitespace(s);
  *out = 0;
  if (!s.empty() && s[0] == '+') { s.remove_prefix(1); if (!s.empty() && s[0] == '-') return false; }
  auto r = std::from_chars(s.data(), s.data() + s.size(), *out);
  if (r.ec == std::errc::invalid_argument || r.ptr != s.data() + s.size()) return false;
  if (r.ec == std::errc::result_out_of_range) { *out = static_cast<F>(std::strtod(std::string(s).c_str(), nullptr)); }
  return true;
}
bool SimpleAtod(std::string_view s, double* o) { return FloatOf(s, o); }
bool SimpleAtof(std::string_view s, float* o) { return FloatOf(s, o); }
bool SimpleAtob(std::string_view s, bool* o) {
  for (auto t : {"true", "t", "yes", "y", "1"}) if (EqualsIgnoreCase(s, t)) { *o = true; return true; }
  for (auto t : {"false", "f", "no", "n", "0"}) if (EqualsIgnoreCase(s, t)) { *o = false; return true; }
  return false;
}
static std::string PadTo(std::string s, PadSpec p, bool neg) {
  char fill = p >= kSpacePad2 ? ' ' : '0';
  size_t w = p == kNoPad ? 1 : p >= kSpacePad2 ? p - kSpacePad2 + 2 : p - kZeroPad2 + 2;
  if (neg && fill == ' ') { s = "-" + s; neg = false; }
  const size_t extra = neg ? 1 : 0;
  while (s.size() + extra < w) s.insert(s.begin(), fill);
  return neg ? "-" + s : s;
}
AlphaNum::AlphaNum(Hex h) { char b[32]; std::snprintf(b, sizeof b, "%" PRIx64, h.value); s_ = PadTo(b, h.pad, false); v_ = s_; }
AlphaNum::AlphaNum(Dec d) { char b[32]; std::snprintf(b, sizeof b, "%" PRIu64, d.neg ? uint64_t(0) - d.value : d.value); s_ = PadTo(b, d.pad, d.neg); v_ = s_; }

namespace str_format_internal {
static void Pad(std::string* out, std::string_view v, int width, bool left) {
  const size_t pad = width > 0 && size_t(width) > v.size() ? width - v.size() : 0;
  if (!left) out->append(pad, ' ');
  out->append(v);
  if (left) out->append(pad, ' ');
}
void Format(std::string* out, std::string_view f, Arg* args, size_t n) {
  size_t next = 0;
  for (size_t i = 0; i < f.size();) {
    if (f[i] != '%') { out->push_back(f[i++]); continue; }
    if (i + 1 < f.size() && f[i + 1] == '%') { out->push_back('%'); i += 2; continue; }
    ++i;
    size_t pos = 0, j = i;
    while (j < f.size() && ascii_isdigit(f[j])) ++j;
    size_t explicit_pos = 0;
    if (j > i && j < f.size() && f[j] == '$') { for (; i < j; ++i) explicit_pos = explicit_pos * 10 + (f[i] - '0'); ++i; }
    std::string flags;
    while (i < f.size() && std::string_view("-+ #0").find(f[i]) != std::string_view::npos) flags += f[i++];
    int width = -1, prec = -1;
    auto star = [&] { if (next >= n) std::abort(); return int(args[next++].i); };
    if (i < f.size() && f[i] == '*') { width = star(); ++i; if (width < 0) { flags += '-'; width = -width; } }
    else while (i < f.size() && ascii_isdigit(f[i])) width = std::max(width, 0) * 10 + (f[i++] - '0');
    if (i < f.size() && f[i] == '.') {
      ++i; prec = 0;
      if (i < f.size() && f[i] == '*') { prec = star(); ++i; }
      else while (i < f.size() && ascii_isdigit(f[i])) prec = prec * 10 + (f[i++] - '0');
    }
    while (i < f.size() && std::string_view("hlLqjzt").find(f[i]) != std::string_view::npos) ++i;
    if (i >= f.size()) std::abort();
    char c = f[i++];
    pos = explicit_pos ? explicit_pos - 1 : next++;
    if (pos >= n) std::abort();
    const Arg& a = args[pos];
    const bool left = flags.find('-') != flags.npos;
    if (c == 'v') switch (a.kind) {
      case Arg::kInt: c = 'd'; break;
      case Arg::kUint: c = 'u'; break;
      case Arg::kDouble: c = 'g'; break;
      case Arg::kString: c = 's'; break;
      case Arg::kChar: c = 'c'; break;
      case Arg::kPtr: c = 'p'; break;
      case Arg::kBool: Pad(out, a.i ? "true" : "false", width, left); continue;
    }
    char spec[64], buf[512];
    auto num = [&](const char* mod, char conv) {
      std::string s = "%" + flags;
      if (width >= 0) s += std::to_string(width);
      if (prec >= 0) s += "." + std::to_string(prec);
      s += mod; s += conv;
      std::snprintf(spec, sizeof spec, "%s", s.c_str());
    };
    auto emit = [&](int len) {
      if (len < int(sizeof buf)) out->append(buf, len);
    };
    switch (c) {
      case 's': {
        std::string_view v = a.kind == Arg::kString ? a.sv : std::string_view();
        if (a.kind == Arg::kBool) v = a.i ? "true" : "false";
        Pad(out, prec >= 0 ? v.substr(0, prec) : v, width, left);
        break;
      }
      case 'c': { const char ch = char(a.i); Pad(out, std::string_view(&ch, 1), width, left); break; }
      case 'd': case 'i':
        if (a.kind == Arg::kUint) { num("ll", 'u'); emit(std::snprintf(buf, sizeof buf, spec, (unsigned long long)a.i)); }
        else { num("ll", 'd'); emit(std::snprintf(buf, sizeof buf, spec, (long long)a.i)); }
        break;
      case 'u': case 'x': case 'X': case 'o': {
        uint64_t u = uint64_t(a.i);
        if (a.bits < 64) u &= (1ULL << a.bits) - 1;
        num("ll", c); emit(std::snprintf(buf, sizeof buf, spec, (unsigned long long)u));
        break;
      }
      case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': case 'a': case 'A': {
        const long double d = a.kind == Arg::kDouble ? a.d : (long double)a.i;
        num("L", c); emit(std::snprintf(buf, sizeof buf, spec, d));
        break;
      }
      case 'p': { std::snprintf(buf, sizeof buf, "%#llx", (unsigned long long)a.i); Pad(out, buf, width, left); break; }
      default: std::abort();
    }
  }
}
}  // namespace str_format_internal

std::string StrReplaceAllVec(std::string_view s, const std::vector<std::pair<std::string_view, std::string_view>>& r, int* count) {
  std::string out;
  int n = 0;
  size_t pos = 0;
  while (pos < s.size()) {
    size_t best = s.npos, which = 0;
    for (size_t i = 0; i < r.size(); ++i) {
      if (r[i].first.empty()) continue;
      const size_t p = s.find(r[i].first, pos);
      if (p == s.npos) continue;
      if (p < best || (p == best && r[i].first.size() > r[which].first.size())) { best = p; which = i; }
    }
    if (best == s.npos) break;
    out.append(s.substr(pos, best - pos)).append(r[which].second);
    pos = best + r[which].first.size();
    ++n;
  }
  out.append(s.substr(pos));
  if (count) *count = n;
  return out;
}
std::string StrReplaceAll(std::string_view s, std::initializer_list<std::pair<std::string_view, std::string_view>> r) { return StrReplaceAllVec(s, {r}); }
int StrReplaceAll(std::initializer_list<std::pair<std::string_view, std::string_view>> r, std::string* s) {
  int n = 0;
  *s = StrReplaceAllVec(*s, {r}, &n);
  return n;
}
static std::string Escape(std::string_view s, bool hex, bool utf8) {
  std::string out;
  bool last_hex = false;
  for (const unsigned char c : s) {
    bool is_hex = false;
    switch (c) {
      case '\n': out += "\\n"; break;
      case '\r': out += "\\r"; break;
      case '\t': out += "\\t"; break;
      case '"': out += "\\\""; break;
      case '\'': out += "\\'"; break;
      case '\\': out += "\\\\"; break;
      default:
        if ((!utf8 || c < 0x80) && (!ascii_isprint(c) || (last_hex && ascii_isxdigit(c)))) {
          char b[8];
          if (hex) { std::snprintf(b, sizeof b, "\\x%02x", c); is_hex = true; } else std::snprintf(b, sizeof b, "\\%03o", c);
          out += b;
        } else out += char(c);
    }
    last_hex = is_hex;
  }
  return out;
}
std::string CEscape(std::string_view s) { return Escape(s, false, false); }
std::string CHexEscape(std::string_view s) { return Escape(s, true, false); }
std::string Utf8SafeCEscape(std::string_view s) { return Escape(s, false, true); }
bool CUnescape(std::string_view s, std::string* out, std::string*) {
  out->clear();
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] != '\\') { *out += s[i]; continue; }
    if (++i == s.size()) return false;
    const char c = s[i];
    static constexpr std::string_view kFrom = "abfnrtv\\?'\"", kTo = "\a\b\f\n\r\t\v\\?'\"";
    if (auto p = kFrom.find(c); p != kFrom.npos) { *out += kTo[p]; continue; }
    if (c >= '0' && c <= '7') {
      unsigned v = c - '0';
      for (int k = 0; k < 2 && i + 1 < s.size() && s[i + 1] >= '0' && s[i + 1] <= '7'; ++k) v = v * 8 + (s[++i] - '0');
      if (v > 255) return false;
      *out += char(v);
    } else if (c == 'x' || c == 'X') {
      if (i + 1 >= s.size() || !ascii_isxdigit(s[i + 1])) return false;
      unsigned v = 0;
      while (i + 1 < s.size() && ascii_isxdigit(s[i + 1])) { const char h = s[++i]; v = v * 16 + (ascii_isdigit(h) ? h - '0' : (h | 32) - 'a' + 10); if (v > 255) return false; }
      *out += char(v);
    } else return false;
  }
  return true;
}
std::string BytesToHexString(std::string_view s) {
  std::string out;
  for (const unsigned char c : s) { char b[4]; std::snprintf(b, sizeof b, "%02x", c); out += b; }
  return out;
}

std::string StatusCodeToString(StatusCode c) {
  static constexpr const char* kN[] = {"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS",
    "PERMISSION_DENIED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"};
  return int(c) >= 0 && int(c) <= 16 ? kN[int(c)] : "";
}
std::string Status::ToString(StatusToStringMode mode) const {
  if (ok()) return "OK";
  std::string s = StrCat(StatusCodeToString(code_), ": ", message());
  if (int(mode) & int(StatusToStringMode::kWithPayload))
    for (auto& [u, p] : payloads_) StrAppend(&s, " [", u, "='", CHexEscape(p.Flatten()), "']");
  return s;
}
StatusCode ErrnoToStatusCode(int e) {
  switch (e) {
    case 0: return StatusCode::kOk;
    case EINVAL: case ENAMETOOLONG: case E2BIG: case EDOM: return StatusCode::kInvalidArgument;
    case ETIMEDOUT: return StatusCode::kDeadlineExceeded;
    case ENOENT: case ENODEV: case ESRCH: return StatusCode::kNotFound;
    case EEXIST: return StatusCode::kAlreadyExists;
    case EPERM: case EACCES: case EROFS: return StatusCode::kPermissionDenied;
    case ENOTEMPTY: case EISDIR: case ENOTDIR: case EBADF: case EBUSY: return StatusCode::kFailedPrecondition;
    case ENOSPC: case EDQUOT: case EMFILE: case ENFILE: case ENOMEM: return StatusCode::kResourceExhausted;
    case EFBIG: case EOVERFLOW: case ERANGE: return StatusCode::kOutOfRange;
    case ENOSYS: case ENOTSUP: return StatusCode::kUnimplemented;
    case EAGAIN: case EINTR: return StatusCode::kUnavailable;
    case ECANCELED: return StatusCode::kCancelled;
    default: return StatusCode::kUnknown;
  }
}
Status ErrnoToStatus(int e, std::string_view m) { return Status(ErrnoToStatusCode(e), StrCat(m, ": errno ", e)); }

namespace log_internal {
LogMessage::~LogMessage() noexcept(false) {
  const std::string t = os_.str();
  const int s = std::clamp(sev_, 0, 3);
  if (shim::log_sink) shim::log_sink(s, file_.c_str(), line_, t);
  else std::fprintf(stderr, "%s %s:%d] %s\n", LogSeverityName(LogSeverity(s)), file_.c_str(), line_, t.c_str());
  if (sev_ == 3) std::abort();
  if (sev_ == 4) { if (shim::exit_hook) shim::exit_hook(1, t); _exit(1); }
}
}  // namespace log_internal

// ---- time
std::string FormatDuration(Duration d) {
  if (d == ZeroDuration()) return "0";
  if (d.inf()) return d < ZeroDuration() ? "-inf" : "inf";
  std::string out;
  Duration::Rep r = d.rep();
  if (r < 0) { out = "-"; r = -r; }
  auto frac = [&](Duration::Rep whole_unit, int digits, const char* unit) {
    // whole part and up to `digits` decimals, trailing zeros stripped
    const uint64_t w = uint64_t(r / whole_unit);
    uint64_t f = uint64_t(r % whole_unit);
    if (w == 0 && f == 0) return;
    out += std::to_string(w);
    if (f) {
      std::string fs = std::to_string(f);
      fs.insert(0, digits - fs.size(), '0');
      while (fs.back() == '0') fs.pop_back();
      out += "." + fs;
    }
    out += unit;
  };
  if (r < 1000) out += std::to_string(uint64_t(r)) + "ns";
  else if (r < 1000000) frac(1000, 3, "us");
  else if (r < 1000000000) frac(1000000, 6, "ms");
  else {
    const Duration::Rep h = r / 3600000000000LL; r %= 3600000000000LL;
    const Duration::Rep m = r / 60000000000LL; r %= 60000000000LL;
    if (h) out += std::to_string(uint64_t(h)) + "h";
    if (m) out += std::to_string(uint64_t(m)) + "m";
    frac(1000000000, 9, "s");
  }
  return out;
}
bool ParseDuration(std::string_view s, Duration* d) {
  bool neg = false;
  if (!s.empty() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; s.remove_prefix(1); }
  if (s.empty()) return false;
  if (s == "0") { *d = {}; return true; }
  if (s == "inf") { *d = neg ? -InfiniteDuration() : InfiniteDuration(); return true; }
  Duration::Rep total = 0;
  while (!s.empty()) {
    Duration::Rep whole = 0, num = 0, den = 1;
    size_t i = 0;
    for (; i < s.size() && ascii_isdigit(s[i]); ++i) whole = whole * 10 + (s[i] - '0');
    size_t digits = i;
    if (i < s.size() && s[i] == '.') for (++i; i < s.size() && ascii_isdigit(s[i]); ++i, ++digits) if (den < 1000000000000LL) { num = num * 10 + (s[i] - '0'); den *= 10; }
    if (!digits) return false;
    s.remove_prefix(i);
    int64_t unit = 0;
    for (auto [n, u] : std::initializer_list<std::pair<std::string_view, int64_t>>{{"ns", 1}, {"us", 1000}, {"ms", 1000000}, {"s", 1000000000}, {"m", 60000000000LL}, {"h", 3600000000000LL}})
      if (ConsumePrefix(&s, n)) { unit = u; break; }
    if (!unit) return false;
    total += whole * unit + num * unit / den;
  }
  *d = Duration::FromRep(neg ? -total : total);
  return true;
}
Time Now() { return FromUnixNanos(shim::now_ns()); }
int64_t GetCurrentTimeNanos() { return shim::now_ns(); }
void SleepFor(Duration) {}
TimeZone FixedTimeZone(int seconds) { return TimeZone(seconds, StrCat("Fixed", seconds)); }
bool LoadTimeZone(std::string_view name, TimeZone* tz) {
  if (name == "UTC" || name == "utc" || name.empty() || name == "localtime") { *tz = {}; return true; }
  return false;
}
std::string FormatTime(std::string_view f, Time t, TimeZone tz) {
  if (t == InfiniteFuture()) return "infinite-future";
  if (t == InfinitePast()) return "infinite-past";
  const int64_t secs = ToUnixSeconds(t) + tz.offset();
  const int64_t ns = int64_t(t.since_epoch().rep() - Duration::Rep(ToUnixSeconds(t)) * 1000000000);
  const time_t tt = secs;
  std::tm tm{};
  gmtime_r(&tt, &tm);
  std::string out;
  auto zone = [&](bool colon) { const int o = std::abs(tz.offset()) / 60; char b[16]; std::snprintf(b, sizeof b, colon ? "%c%02d:%02d" : "%c%02d%02d", tz.offset() < 0 ? '-' : '+', o / 60, o % 60); return std::string(b); };
  for (size_t i = 0; i < f.size();) {
    if (f[i] != '%') { out += f[i++]; continue; }
    if (f.substr(i).starts_with("%ET")) { out += 'T'; i += 3; continue; }
    if (f.substr(i).starts_with("%Ez")) { out += zone(true); i += 3; continue; }
    if (f.substr(i).starts_with("%z")) { out += zone(false); i += 2; continue; }
    if (f.substr(i).starts_with("%E*S") || (f.size() > i + 3 && f[i + 1] == 'E' && ascii_isdigit(f[i + 2]) && (f[i + 3] == 'S' || f[i + 3] == 'f'))) {
      char b[16]; std::snprintf(b, sizeof b, "%02d", tm.tm_sec);
      char n9[16]; std::snprintf(n9, sizeof n9, "%09" PRId64, ns);
      std::string fr = n9;
      if (f[i + 2] == '*') { while (!fr.empty() && fr.back() == '0') fr.pop_back(); } else fr = fr.substr(0, f[i + 2] - '0');
      if (f[i + 3] == 'S') { out += b; if (!fr.empty()) out += "." + fr; } else out += fr;
      i += 4;
      continue;
    }
    if (f.substr(i).starts_with("%E4Y")) { char b[16]; std::snprintf(b, sizeof b, "%04d", tm.tm_year + 1900); out += b; i += 4; continue; }
    if (f.substr(i).starts_with("%Y")) { out += std::to_string(tm.tm_year + 1900LL); i += 2; continue; }
    char b[128];
    const std::string one(f.substr(i, 2));
    const size_t k = std::strftime(b, sizeof b, one.c_str(), &tm);
    out.append(b, k);
    i += 2;
  }
  return out;
}
std::string FormatTime(Time t) { return FormatTime(RFC3339_full, t, UTCTimeZone()); }

// ---- flags
static std::map<std::string, CommandLineFlag*, std::less<>>& Registry() {
  static auto* m = new std::map<std::string, CommandLineFlag*, std::less<>>;
  return *m;
}
void ShimRegister(CommandLineFlag* f) { Registry()[std::string(f->Name())] = f; }
CommandLineFlag* FindCommandLineFlag(std::string_view name) { auto it = Registry().find(name); return it == Registry().end() ? nullptr : it->second; }
static std::string& Usage() { static auto* s = new std::string; return *s; }
void SetProgramUsageMessage(std::string_view m) { Usage() = std::string(m); }
std::string_view ProgramUsageMessage() { return Usage(); }
namespace flags_internal {
bool Parse(std::string_view s, bool* v, std::string*) { return SimpleAtob(s, v); }
bool Parse(std::string_view s, std::string* v, std::string*) { v->assign(s); return true; }
bool Parse(std::string_view s, double* v, std::string*) { return SimpleAtod(s, v); }
bool Parse(std::string_view s, float* v, std::string*) { return SimpleAtof(s, v); }
bool Parse(std::string_view s, Duration* v, std::string*) { return ParseDuration(s, v); }
bool Parse(std::string_view s, LogSeverity* v, std::string* e) {
  s = StripAsciiWhitespace(s);
  if (s.empty()) { *e = "expected a severity"; return false; }
  if ((s[0] | 32) == 'k') s.remove_prefix(1);
  if (EqualsIgnoreCase(s, "info")) *v = LogSeverity::kInfo;
  else if (EqualsIgnoreCase(s, "warning")) *v = LogSeverity::kWarning;
  else if (EqualsIgnoreCase(s, "error")) *v = LogSeverity::kError;
  else if (EqualsIgnoreCase(s, "fatal")) *v = LogSeverity::kFatal;
  else { int n = 0; if (!SimpleAtoi(s, &n)) { *e = "bad severity"; return false; } *v = LogSeverity(n); }
  return true;
}
bool Parse(std::string_view s, std::vector<std::string>* v, std::string*) { v->clear(); if (!s.empty()) *v = StrSplit(s, ','); return true; }
bool ParseI(std::string_view s, bool sgn, int bits, uint64_t* v, std::string*) {
  s = StripAsciiWhitespace(s);
  if (s.starts_with("0x") || s.starts_with("0X")) return shim_internal::ParseInt(s.substr(2), sgn, bits, v, 16);
  return shim_internal::ParseInt(s, sgn, bits, v);
}
std::string Unparse(bool v) { return v ? "true" : "false"; }
}  // namespace flags_internal
[[noreturn]] static void FlagDie(const std::string& m) {
  std::fprintf(stderr, "ERROR: %s\n", m.c_str());
  if (shim::exit_hook) shim::exit_hook(1, m);
  std::exit(1);
}
std::vector<char*> ParseCommandLine(int argc, char* argv[]) {
  std::vector<char*> rest{argv[0]};
  for (int i = 1; i < argc; ++i) {
    std::string_view a = argv[i];
    if (a == "--") { for (++i; i < argc; ++i) rest.push_back(argv[i]); break; }
    if (a.size() < 2 || a[0] != '-') { rest.push_back(argv[i]); continue; }
    a.remove_prefix(a.starts_with("--") ? 2 : 1);
    std::string_view val;
    const size_t eq = a.find('=');
    const bool has = eq != a.npos;
    if (has) { val = a.substr(eq + 1); a = a.substr(0, eq); }
    if (a == "help" || a == "helpfull") {
      std::string text = Usage() + "\n";
      for (auto& [n, f] : Registry()) text += "    --" + n + " (" + f->Help() + "); default: " + f->DefaultValue() + ";\n";
      std::fwrite(text.data(), 1, text.size(), stdout);
      if (shim::exit_hook) shim::exit_hook(1, "help");
      std::exit(1);
    }
    CommandLineFlag* f = FindCommandLineFlag(a);
    bool negated = false;
    if (!f && a.starts_with("no")) { f = FindCommandLineFlag(a.substr(2)); if (f && !f->IsBool()) f = nullptr; negated = f != nullptr; }
    if (!f) FlagDie(StrCat("Unknown command line flag '", a, "'"));
    if (negated) { if (has) FlagDie(StrCat("Flag '", a, "' takes no value")); val = "false"; }
    else if (!has) {
      if (f->IsBool()) val = "true";
      else if (i + 1 < argc) val = argv[++i];
      else FlagDie(StrCat("Missing the value for the flag '", a, "'"));
    }
    std::string e;
    if (!f->ParseFrom(val, &e)) FlagDie(StrCat("Illegal value '", val, "' specified for flag '", a, "'; ", e));
    f->set_ = true;
  }
  return rest;
}
}  // namespace absl

void shim::ResetFlags() { for (auto& [n, f] : absl::Registry()) f->Reset(); }
ABSL_FLAG(int, minloglevel, 0, "");
ABSL_FLAG(int, stderrthreshold, 2, "");
