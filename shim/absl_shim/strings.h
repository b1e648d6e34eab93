#pragma once
#include "absl_shim/base.h"
#include <map>
#include <sstream>
#include <tuple>
#include <set>

namespace absl {
// ---- characters
inline bool ascii_isspace(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline bool ascii_isalpha(unsigned char c) { return (c | 32) >= 'a' && (c | 32) <= 'z'; }
inline bool ascii_isdigit(unsigned char c) { return c >= '0' && c <= '9'; }
inline bool ascii_isalnum(unsigned char c) { return ascii_isalpha(c) || ascii_isdigit(c); }
inline bool ascii_isupper(unsigned char c) { return c >= 'A' && c <= 'Z'; }
inline bool ascii_islower(unsigned char c) { return c >= 'a' && c <= 'z'; }
inline bool ascii_isxdigit(unsigned char c) { return ascii_isdigit(c) || ((c | 32) >= 'a' && (c | 32) <= 'f'); }
inline bool ascii_isprint(unsigned char c) { return c >= 32 && c < 127; }
inline bool ascii_ispunct(unsigned char c) { return ascii_isprint(c) && c != ' ' && !ascii_isalnum(c); }
inline bool ascii_isascii(unsigned char c) { return c < 128; }
inline bool ascii_iscntrl(unsigned char c) { return c < 32 || c == 127; }
inline char ascii_tolower(unsigned char c) { return ascii_isupper(c) ? c + 32 : c; }
inline char ascii_toupper(unsigned char c) { return ascii_islower(c) ? c - 32 : c; }
inline void AsciiStrToLower(std::string* s) { for (char& c : *s) c = ascii_tolower(c); }
inline void AsciiStrToUpper(std::string* s) { for (char& c : *s) c = ascii_toupper(c); }
inline std::string AsciiStrToLower(std::string_view v) { std::string s(v); AsciiStrToLower(&s); return s; }
inline std::string AsciiStrToUpper(std::string_view v) { std::string s(v); AsciiStrToUpper(&s); return s; }
inline std::string_view StripLeadingAsciiWhitespace(std::string_view s) { while (!s.empty() && ascii_isspace(s.front())) s.remove_prefix(1); return s; }
inline std::string_view StripTrailingAsciiWhitespace(std::string_view s) { while (!s.empty() && ascii_isspace(s.back())) s.remove_suffix(1); return s; }
inline std::string_view StripAsciiWhitespace(std::string_view s) { return StripTrailingAsciiWhitespace(StripLeadingAsciiWhitespace(s)); }
inline void StripLeadingAsciiWhitespace(std::string* s) { *s = std::string(StripLeadingAsciiWhitespace(std::string_view(*s))); }
inline void StripTrailingAsciiWhitespace(std::string* s) { *s = std::string(StripTrailingAsciiWhitespace(std::string_view(*s))); }
inline void StripAsciiWhitespace(std::string* s) { *s = std::string(StripAsciiWhitespace(std::string_view(*s))); }
inline void RemoveExtraAsciiWhitespace(std::string* s) {
  std::string out;
  bool ws = false;
  for (char c : StripAsciiWhitespace(std::string_view(*s))) {
    if (ascii_isspace(c)) { if (!ws) out += c; ws = true; } else { out += c; ws = false; }
  }
  *s = out;
}
// ---- match, strip
inline bool StrContains(std::string_view h, std::string_view n) { return h.find(n) != h.npos; }
inline bool StrContains(std::string_view h, char n) { return h.find(n) != h.npos; }
inline bool StartsWith(std::string_view t, std::string_view p) { return t.starts_with(p); }
inline bool EndsWith(std::string_view t, std::string_view p) { return t.ends_with(p); }
inline bool EqualsIgnoreCase(std::string_view a, std::string_view b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (ascii_tolower(a[i]) != ascii_tolower(b[i])) return false;
  return true;
}
inline bool StartsWithIgnoreCase(std::string_view t, std::string_view p) { return t.size() >= p.size() && EqualsIgnoreCase(t.substr(0, p.size()), p); }
inline bool EndsWithIgnoreCase(std::string_view t, std::string_view p) { return t.size() >= p.size() && EqualsIgnoreCase(t.substr(t.size() - p.size()), p); }
inline bool ConsumePrefix(std::string_view* s, std::string_view p) { if (!s->starts_with(p)) return false; s->remove_prefix(p.size()); return true; }
inline bool ConsumeSuffix(std::string_view* s, std::string_view p) { if (!s->ends_with(p)) return false; s->remove_suffix(p.size()); return true; }
[[nodiscard]] inline std::string_view StripPrefix(std::string_view s, std::string_view p) { ConsumePrefix(&s, p); return s; }
[[nodiscard]] inline std::string_view StripSuffix(std::string_view s, std::string_view p) { ConsumeSuffix(&s, p); return s; }
inline std::string_view ClippedSubstr(std::string_view s, size_t pos, size_t n = std::string_view::npos) { return s.substr(std::min(pos, s.size()), n); }
// ---- numbers
namespace shim_internal {
bool ParseInt(std::string_view s, bool is_signed, int bits, uint64_t* out, int base = 10);
std::string SixDigits(double d);
}  // namespace shim_internal
template <typename T> requires std::is_integral_v<T>
[[nodiscard]] bool SimpleAtoi(std::string_view s, T* out) {
  uint64_t v = 0;
  const bool ok = shim_internal::ParseInt(s, std::is_signed_v<T>, sizeof(T) * 8, &v);
  *out = static_cast<T>(v);
  return ok;
}
template <typename T> requires std::is_integral_v<T>
[[nodiscard]] bool SimpleHexAtoi(std::string_view s, T* out) {
  if (s.starts_with("0x") || s.starts_with("0X")) s.remove_prefix(2);
  uint64_t v = 0;
  const bool ok = shim_internal::ParseInt(s, std::is_signed_v<T>, sizeof(T) * 8, &v, 16);
  *out = static_cast<T>(v);
  return ok;
}
[[nodiscard]] bool SimpleAtod(std::string_view s, double* out);
[[nodiscard]] bool SimpleAtof(std::string_view s, float* out);
[[nodiscard]] bool SimpleAtob(std::string_view s, bool* out);
// ---- StrCat
enum PadSpec : uint8_t { kNoPad = 1, kZeroPad2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6, kZeroPad7, kZeroPad8, kZeroPad16 = kZeroPad2 + 14, kSpacePad2 = 64, kSpacePad4 = 66, kSpacePad8 = 70 };
struct Hex {
  template <typename T> requires std::is_integral_v<T>
  explicit Hex(T v, PadSpec p = kNoPad) : value(static_cast<std::make_unsigned_t<T>>(v)), pad(p) {}
  uint64_t value;
  PadSpec pad;
};
struct Dec {
  template <typename T> requires std::is_integral_v<T>
  explicit Dec(T v, PadSpec p = kNoPad) : value(static_cast<uint64_t>(v)), neg(v < 0), pad(p) {}
  uint64_t value;
  bool neg;
  PadSpec pad;
};
class AlphaNum {
 public:
  AlphaNum(int v) : s_(std::to_string(v)), v_(s_) {}
  AlphaNum(unsigned v) : s_(std::to_string(v)), v_(s_) {}
  AlphaNum(long v) : s_(std::to_string(v)), v_(s_) {}
  AlphaNum(unsigned long v) : s_(std::to_string(v)), v_(s_) {}
  AlphaNum(long long v) : s_(std::to_string(v)), v_(s_) {}
  AlphaNum(unsigned long long v) : s_(std::to_string(v)), v_(s_) {}
  AlphaNum(float v) : s_(shim_internal::SixDigits(v)), v_(s_) {}
  AlphaNum(double v) : s_(shim_internal::SixDigits(v)), v_(s_) {}
  AlphaNum(Hex h);
  AlphaNum(Dec d);
  AlphaNum(const char* c) : v_(c ? std::string_view(c) : std::string_view()) {}
  AlphaNum(std::string_view v) : v_(v) {}
  template <typename A> AlphaNum(const std::basic_string<char, std::char_traits<char>, A>& v) : v_(v) {}
  AlphaNum(char) = delete;
  template <typename T> requires(std::is_class_v<T> && HasAbslStringify<T>::value)
  AlphaNum(const T& v) { strings_internal::StringifySink k; AbslStringify(k, v); s_ = std::move(k.str()); v_ = s_; }
  template <typename T> requires(std::is_enum_v<T> && HasAbslStringify<T>::value)
  AlphaNum(T v) { strings_internal::StringifySink k; AbslStringify(k, v); s_ = std::move(k.str()); v_ = s_; }
  template <typename T> requires(std::is_enum_v<T> && std::is_convertible_v<T, int> && !HasAbslStringify<T>::value)
  AlphaNum(T v) : AlphaNum(+v) {}
  AlphaNum(const AlphaNum&) = delete;
  AlphaNum& operator=(const AlphaNum&) = delete;
  std::string_view Piece() const { return v_; }
  const char* data() const { return v_.data(); }
  size_t size() const { return v_.size(); }

 private:
  std::string s_;
  std::string_view v_;
};
namespace shim_internal {
inline void Append(std::string* d, std::initializer_list<std::string_view> l) { std::string t; for (auto v : l) t.append(v); d->append(t); }
template <size_t> using An = const AlphaNum&;
template <typename T> struct NeedsTemp : std::true_type {};
}  // namespace shim_internal
[[nodiscard]] inline std::string StrCat() { return {}; }
template <typename... T> [[nodiscard]] std::string StrCat(const AlphaNum& a, const T&... t) {
  std::string s(a.Piece());
  (s.append(static_cast<const AlphaNum&>(AlphaNum(t)).Piece()), ...);
  return s;
}
inline void StrAppend(std::string*) {}
template <typename... T> void StrAppend(std::string* d, const AlphaNum& a, const T&... t) {
  std::string s(a.Piece());
  (s.append(AlphaNum(t).Piece()), ...);
  d->append(s);
}
// ---- StrFormat
namespace str_format_internal {
struct Arg {
  enum Kind { kInt, kUint, kDouble, kString, kChar, kPtr, kBool } kind;
  int64_t i = 0;
  int bits = 64;
  long double d = 0;
  std::string_view sv;
  std::string own;
};
template <typename T>
Arg Make(const T& v) {
  Arg a{};
  if constexpr (std::is_same_v<T, bool>) { a.kind = Arg::kBool; a.i = v; }
  else if constexpr (std::is_same_v<T, char> || std::is_same_v<T, signed char> || std::is_same_v<T, unsigned char>) { a.kind = Arg::kChar; a.i = v; a.bits = 8; }
  else if constexpr (HasAbslStringify<T>::value) { strings_internal::StringifySink k; AbslStringify(k, v); a.kind = Arg::kString; a.own = std::move(k.str()); a.sv = a.own; }
  else if constexpr (std::is_integral_v<T>) { a.kind = std::is_signed_v<T> ? Arg::kInt : Arg::kUint; a.i = static_cast<int64_t>(v); a.bits = sizeof(T) * 8; }
  else if constexpr (std::is_enum_v<T>) { a = Make(static_cast<std::underlying_type_t<T>>(v)); if (a.kind == Arg::kChar) a.kind = Arg::kInt; }
  else if constexpr (std::is_floating_point_v<T>) { a.kind = Arg::kDouble; a.d = v; }
  else if constexpr (std::is_convertible_v<const T&, const char*>) { a.kind = Arg::kString; const char* p = v; a.sv = p ? std::string_view(p) : std::string_view(); }
  else if constexpr (std::is_convertible_v<const T&, std::string_view>) { a.kind = Arg::kString; a.sv = v; }
  else if constexpr (std::is_convertible_v<const T&, std::string>) { a.kind = Arg::kString; a.own = static_cast<std::string>(v); a.sv = a.own; }
  else if constexpr (std::is_pointer_v<T>) { a.kind = Arg::kPtr; a.i = reinterpret_cast<intptr_t>(v); }
  else static_assert(sizeof(T) == 0, "not formattable by the shim");
  return a;
}
void Format(std::string* out, std::string_view fmt, Arg* args, size_t n);
template <typename... T> std::string Do(std::string_view fmt, const T&... v) {
  std::string out;
  std::array<Arg, sizeof...(T) + 1> a{Make(v)..., Arg{}};
  for (auto& x : a) if (!x.own.empty() || (x.kind == Arg::kString && x.sv.data() == nullptr)) x.sv = x.own;
  Format(&out, fmt, a.data(), sizeof...(T));
  return out;
}
}  // namespace str_format_internal
template <typename... T> struct FormatSpec {
  std::string_view f;
  consteval FormatSpec(const char* p) : f(p) {}
  FormatSpec(std::string_view p) : f(p) {}
};
template <typename... T> struct ParsedFormat;
template <typename... T> [[nodiscard]] std::string StrFormat(std::string_view fmt, const T&... v) { return str_format_internal::Do(fmt, v...); }
template <typename... T> std::string& StrAppendFormat(std::string* d, std::string_view fmt, const T&... v) { return d->append(str_format_internal::Do(fmt, v...)); }
struct StreamFormatted {
  std::string s;
  friend std::ostream& operator<<(std::ostream& os, const StreamFormatted& f) { return os.write(f.s.data(), f.s.size()); }
};
template <typename... T> [[nodiscard]] StreamFormatted StreamFormat(std::string_view fmt, const T&... v) { return {str_format_internal::Do(fmt, v...)}; }
template <typename... T> int PrintF(std::string_view fmt, const T&... v) { const std::string s = str_format_internal::Do(fmt, v...); std::fwrite(s.data(), 1, s.size(), stdout); return int(s.size()); }
template <typename... T> int FPrintF(std::FILE* f, std::string_view fmt, const T&... v) { const std::string s = str_format_internal::Do(fmt, v...); std::fwrite(s.data(), 1, s.size(), f); return int(s.size()); }
inline void AbslFormatFlush(std::string* out, std::string_view v) { out->append(v); }
class FormatRawSink {};
template <typename S, typename... T> bool Format(S* sink, std::string_view fmt, const T&... v) {
  const std::string s = str_format_internal::Do(fmt, v...);
  if constexpr (std::is_same_v<S, std::string>) sink->append(s);
  else if constexpr (std::is_base_of_v<std::ostream, S>) sink->write(s.data(), s.size());
  else if constexpr (requires { AbslFormatFlush(sink, std::string_view(s)); }) AbslFormatFlush(sink, std::string_view(s));
  else sink->Append(std::string_view(s));
  return true;
}
// ---- StrJoin
namespace shim_internal {
struct DefaultFormatter {
  template <typename T> void operator()(std::string* out, const T& v) const { out->append(AlphaNum(v).Piece()); }
};
}  // namespace shim_internal
struct AlphaNumFormatterImpl { template <typename T> void operator()(std::string* out, const T& v) const { out->append(AlphaNum(v).Piece()); } };
inline AlphaNumFormatterImpl AlphaNumFormatter() { return {}; }
struct StreamFormatterImpl { template <typename T> void operator()(std::string* out, const T& v) const { std::ostringstream os; os << v; out->append(os.str()); } };
inline StreamFormatterImpl StreamFormatter() { return {}; }
template <typename F1, typename F2> struct PairFormatterImpl {
  F1 f1; std::string sep; F2 f2;
  template <typename P> void operator()(std::string* out, const P& p) { f1(out, p.first); out->append(sep); f2(out, p.second); }
};
inline auto PairFormatter(std::string_view sep) { return PairFormatterImpl<AlphaNumFormatterImpl, AlphaNumFormatterImpl>{{}, std::string(sep), {}}; }
template <typename F1, typename F2> auto PairFormatter(F1 a, std::string_view sep, F2 b) { return PairFormatterImpl<F1, F2>{a, std::string(sep), b}; }
template <typename It, typename F> requires requires(It it) { *it; ++it; }
[[nodiscard]] std::string StrJoin(It b, It e, std::string_view sep, F&& f) {
  std::string out;
  bool first = true;
  for (; b != e; ++b) { if (!first) out.append(sep); first = false; f(&out, *b); }
  return out;
}
template <typename R, typename F> requires(requires(const R& r) { std::begin(r); } && !std::is_convertible_v<F, std::string_view>)
[[nodiscard]] std::string StrJoin(const R& r, std::string_view sep, F&& f) {
  std::string out;
  bool first = true;
  for (auto&& v : r) { if (!first) out.append(sep); first = false; f(&out, v); }
  return out;
}
template <typename R> [[nodiscard]] std::string StrJoin(const R& r, std::string_view sep) { return StrJoin(r, sep, AlphaNumFormatterImpl{}); }
template <typename T> [[nodiscard]] std::string StrJoin(std::initializer_list<T> r, std::string_view sep) {
  std::string out; bool first = true;
  for (auto&& v : r) { if (!first) out.append(sep); first = false; out.append(AlphaNum(v).Piece()); }
  return out;
}
template <typename... T> [[nodiscard]] std::string StrJoin(const std::tuple<T...>& t, std::string_view sep) {
  std::string out; bool first = true;
  std::apply([&](const auto&... v) { ((first ? void() : void(out.append(sep)), first = false, out.append(AlphaNum(v).Piece())), ...); }, t);
  return out;
}
// ---- StrSplit
struct ByString {
  explicit ByString(std::string_view d) : d(d) {}
  std::string_view Find(std::string_view t, size_t pos) const {
    if (d.empty()) return t.size() - pos <= 1 ? t.substr(t.size()) : t.substr(pos + 1, 0);
    const size_t p = t.find(d, pos);
    return p == t.npos ? t.substr(t.size(), 0) : t.substr(p, d.size());
  }
  std::string d;
};
struct ByChar {
  explicit ByChar(char c) : c(c) {}
  std::string_view Find(std::string_view t, size_t pos) const { const size_t p = t.find(c, pos); return p == t.npos ? t.substr(t.size(), 0) : t.substr(p, 1); }
  char c;
};
struct ByAnyChar {
  explicit ByAnyChar(std::string_view d) : d(d) {}
  std::string_view Find(std::string_view t, size_t pos) const { const size_t p = t.find_first_of(d, pos); return p == t.npos ? t.substr(t.size(), 0) : t.substr(p, 1); }
  std::string d;
};
struct ByLength {
  explicit ByLength(ptrdiff_t n) : n(n) {}
  std::string_view Find(std::string_view t, size_t pos) const { pos = std::min(pos, t.size()); return t.size() - pos <= size_t(n) ? t.substr(t.size(), 0) : t.substr(pos + n, 0); }
  ptrdiff_t n;
};
namespace shim_internal {
template <typename D> auto Delim(D d) {
  if constexpr (std::is_same_v<D, char>) return ByChar(d);
  else if constexpr (std::is_convertible_v<D, std::string_view>) return ByString(d);
  else return d;
}
template <typename D> struct MaxSplitsImpl {
  D d; int limit; mutable int count = 0;
  std::string_view Find(std::string_view t, size_t pos) const { if (count++ == limit) return t.substr(t.size(), 0); return d.Find(t, pos); }
};
}  // namespace shim_internal
template <typename D> auto MaxSplits(D d, int limit) { auto x = shim_internal::Delim(d); return shim_internal::MaxSplitsImpl<decltype(x)>{x, limit}; }
struct AllowEmpty { bool operator()(std::string_view) const { return true; } };
struct SkipEmpty { bool operator()(std::string_view s) const { return !s.empty(); } };
struct SkipWhitespace { bool operator()(std::string_view s) const { return !StripAsciiWhitespace(s).empty(); } };
namespace shim_internal {
class Splitter {
 public:
  Splitter(std::string owned, std::string_view text, bool own) : owned_(own ? std::make_shared<std::string>(std::move(owned)) : nullptr), text_(own ? std::string_view(*owned_) : text) {}
  template <typename D, typename P> void Split(const D& d, const P& p) {
    if (text_.data() == nullptr) return Add(p, text_.substr(0, 0));
    size_t pos = 0;
    while (true) {
      const std::string_view f = d.Find(text_, pos);
      const size_t at = f.data() - text_.data();
      Add(p, text_.substr(pos, at - pos));
      if (f.data() == text_.data() + text_.size()) break;
      pos = at + f.size();
    }
  }
  template <typename P> void Add(const P& p, std::string_view v) { if (p(v)) parts_.push_back(v); }
  auto begin() const { return parts_.begin(); }
  auto end() const { return parts_.end(); }
  template <typename C> requires(!std::is_same_v<C, std::initializer_list<typename C::value_type>> && requires { typename C::value_type; typename C::iterator; } && !requires { typename C::mapped_type; })
  operator C() const {
    C c;
    for (auto v : parts_) c.insert(c.end(), typename C::value_type(v));
    return c;
  }
  template <typename C> requires requires { typename C::mapped_type; typename C::key_type; }
  operator C() const {
    C c;
    for (size_t i = 0; i < parts_.size(); i += 2) c.emplace(typename C::key_type(parts_[i]), typename C::mapped_type(i + 1 < parts_.size() ? parts_[i + 1] : std::string_view()));
    return c;
  }
  template <typename A, typename B> operator std::pair<A, B>() const { return {A(parts_.empty() ? std::string_view() : parts_[0]), B(parts_.size() > 1 ? parts_[1] : std::string_view())}; }
  template <typename T, size_t N> operator std::array<T, N>() const { std::array<T, N> a{}; for (size_t i = 0; i < N && i < parts_.size(); ++i) a[i] = T(parts_[i]); return a; }

 private:
  std::shared_ptr<std::string> owned_;
  std::string_view text_;
  std::vector<std::string_view> parts_;
};
}  // namespace shim_internal
template <typename T, typename D, typename P = AllowEmpty>
shim_internal::Splitter StrSplit(const T& text, D d, P p = {}) {
  shim_internal::Splitter s({}, std::string_view(text), false);
  s.Split(shim_internal::Delim(d), p);
  return s;
}
template <typename D, typename P = AllowEmpty>
shim_internal::Splitter StrSplit(std::string&& text, D d, P p = {}) {
  shim_internal::Splitter s(std::move(text), {}, true);
  s.Split(shim_internal::Delim(d), p);
  return s;
}
// ---- replace, escape
[[nodiscard]] std::string StrReplaceAll(std::string_view s, std::initializer_list<std::pair<std::string_view, std::string_view>> r);
int StrReplaceAll(std::initializer_list<std::pair<std::string_view, std::string_view>> r, std::string* s);
[[nodiscard]] std::string StrReplaceAllVec(std::string_view s, const std::vector<std::pair<std::string_view, std::string_view>>& r, int* n = nullptr);
template <typename M> requires requires(const M& m) { m.begin()->first; }
[[nodiscard]] std::string StrReplaceAll(std::string_view s, const M& m) {
  std::vector<std::pair<std::string_view, std::string_view>> v;
  for (const auto& [a, b] : m) v.emplace_back(a, b);
  return StrReplaceAllVec(s, v);
}
[[nodiscard]] std::string CEscape(std::string_view s);
[[nodiscard]] std::string CHexEscape(std::string_view s);
[[nodiscard]] std::string Utf8SafeCEscape(std::string_view s);
[[nodiscard]] bool CUnescape(std::string_view s, std::string* out, std::string* err = nullptr);
[[nodiscard]] std::string BytesToHexString(std::string_view s);

// ---- Cord
class Cord {
 public:
  Cord() = default;
  explicit Cord(std::string_view v) : s_(v) {}
  template <typename T> requires(std::is_same_v<T, std::string>) explicit Cord(T&& v) : s_(std::move(v)) {}
  Cord& operator=(std::string_view v) { s_ = v; return *this; }
  explicit operator std::string() const { return s_; }
  size_t size() const { return s_.size(); }
  bool empty() const { return s_.empty(); }
  void Append(std::string_view v) { s_.append(v); }
  void Append(const Cord& v) { s_.append(v.s_); }
  void Prepend(std::string_view v) { s_.insert(0, v); }
  void Clear() { s_.clear(); }
  bool StartsWith(std::string_view v) const { return std::string_view(s_).starts_with(v); }
  bool EndsWith(std::string_view v) const { return std::string_view(s_).ends_with(v); }
  std::string_view Flatten() const { return s_; }
  std::optional<std::string_view> TryFlat() const { return s_; }
  friend bool operator==(const Cord& a, const Cord& b) { return a.s_ == b.s_; }
  friend bool operator==(const Cord& a, std::string_view b) { return a.s_ == b; }
  friend auto operator<=>(const Cord& a, const Cord& b) { return a.s_ <=> b.s_; }
  friend std::ostream& operator<<(std::ostream& os, const Cord& c) { return os.write(c.s_.data(), c.s_.size()); }
  template <typename S> friend void AbslStringify(S& s, const Cord& c) { s.Append(std::string_view(c.s_)); }
  template <typename H> friend H AbslHashValue(H h, const Cord& c) { return H::combine(std::move(h), c.s_); }

 private:
  std::string s_;
};
}  // namespace absl
