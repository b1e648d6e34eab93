#pragma once
#include "absl_shim/strings.h"
#include <chrono>

namespace absl {
// Nanoseconds in 128 bits; the extreme values stand for the infinities.
class Duration {
 public:
  constexpr Duration() = default;
  using Rep = __int128;
  static constexpr Rep kInf = (Rep(1) << 126);
  static constexpr Duration FromRep(Rep r) { Duration d; d.r_ = r > kInf ? kInf : r < -kInf ? -kInf : r; return d; }
  constexpr Rep rep() const { return r_; }
  constexpr bool inf() const { return r_ == kInf || r_ == -kInf; }
  friend constexpr auto operator<=>(Duration a, Duration b) { return a.r_ < b.r_ ? std::strong_ordering::less : a.r_ > b.r_ ? std::strong_ordering::greater : std::strong_ordering::equal; }
  friend constexpr bool operator==(Duration a, Duration b) { return a.r_ == b.r_; }
  constexpr Duration operator-() const { return FromRep(-r_); }
  constexpr Duration& operator+=(Duration o) { if (!inf()) r_ = o.inf() ? o.r_ : FromRep(r_ + o.r_).r_; return *this; }
  constexpr Duration& operator-=(Duration o) { return *this += -o; }
  template <typename T> constexpr Duration& operator*=(T n) { if (inf()) { if (n < 0) r_ = -r_; } else { r_ = FromRep(Rep(r_ * n)).r_; } return *this; }
  template <typename T> constexpr Duration& operator/=(T n) { if (!inf()) r_ = Rep(r_ / n); return *this; }
  friend constexpr Duration operator+(Duration a, Duration b) { return a += b; }
  friend constexpr Duration operator-(Duration a, Duration b) { return a -= b; }
  template <typename T> requires std::is_arithmetic_v<T> friend constexpr Duration operator*(Duration a, T n) { return a *= n; }
  template <typename T> requires std::is_arithmetic_v<T> friend constexpr Duration operator*(T n, Duration a) { return a *= n; }
  template <typename T> requires std::is_arithmetic_v<T> friend constexpr Duration operator/(Duration a, T n) { return a /= n; }
  friend constexpr int64_t operator/(Duration a, Duration b) { return int64_t(a.r_ / b.r_); }
  template <typename S> friend void AbslStringify(S& s, Duration d);
 private:
  Rep r_ = 0;
};
constexpr Duration ZeroDuration() { return {}; }
constexpr Duration InfiniteDuration() { return Duration::FromRep(Duration::kInf); }
template <typename T> concept Num = std::is_arithmetic_v<T>;
template <typename T> constexpr Duration ShimUnit(T n, int64_t unit) {
  if constexpr (std::is_floating_point_v<T>) { if (std::isinf(n)) return n > 0 ? InfiniteDuration() : -InfiniteDuration(); return Duration::FromRep(Duration::Rep(n * unit)); }
  else return Duration::FromRep(Duration::Rep(n) * unit);
}
template <Num T> constexpr Duration Nanoseconds(T n) { return ShimUnit(n, 1); }
template <Num T> constexpr Duration Microseconds(T n) { return ShimUnit(n, 1000); }
template <Num T> constexpr Duration Milliseconds(T n) { return ShimUnit(n, 1000000); }
template <Num T> constexpr Duration Seconds(T n) { return ShimUnit(n, 1000000000); }
template <Num T> constexpr Duration Minutes(T n) { return ShimUnit(n, 60000000000LL); }
template <Num T> constexpr Duration Hours(T n) { return ShimUnit(n, 3600000000000LL); }
constexpr int64_t ToInt64(Duration d, int64_t unit) {
  const Duration::Rep q = d.rep() / unit;
  return q > INT64_MAX ? INT64_MAX : q < INT64_MIN ? INT64_MIN : int64_t(q);
}
constexpr int64_t ToInt64Nanoseconds(Duration d) { return ToInt64(d, 1); }
constexpr int64_t ToInt64Microseconds(Duration d) { return ToInt64(d, 1000); }
constexpr int64_t ToInt64Milliseconds(Duration d) { return ToInt64(d, 1000000); }
constexpr int64_t ToInt64Seconds(Duration d) { return ToInt64(d, 1000000000); }
constexpr double ToDoubleSeconds(Duration d) { return double(d.rep()) / 1e9; }
constexpr double ToDoubleMilliseconds(Duration d) { return double(d.rep()) / 1e6; }
constexpr Duration AbsDuration(Duration d) { return d < Duration() ? -d : d; }
std::string FormatDuration(Duration d);
inline std::ostream& operator<<(std::ostream& os, Duration d) { return os << FormatDuration(d); }
template <typename S> void AbslStringify(S& s, Duration d) { s.Append(std::string_view(FormatDuration(d))); }
bool ParseDuration(std::string_view s, Duration* d);

class Time {
 public:
  constexpr Time() = default;  // the Unix epoch
  constexpr explicit Time(Duration since_epoch) : d_(since_epoch) {}
  constexpr Duration since_epoch() const { return d_; }
  friend constexpr auto operator<=>(Time a, Time b) { return a.d_ <=> b.d_; }
  friend constexpr bool operator==(Time a, Time b) { return a.d_ == b.d_; }
  friend constexpr Time operator+(Time a, Duration d) { return Time(a.d_ + d); }
  friend constexpr Time operator-(Time a, Duration d) { return Time(a.d_ - d); }
  friend constexpr Duration operator-(Time a, Time b) { return a.d_ - b.d_; }
  constexpr Time& operator+=(Duration d) { d_ += d; return *this; }
  constexpr Time& operator-=(Duration d) { d_ -= d; return *this; }
 private:
  Duration d_;
};
constexpr Time UnixEpoch() { return Time(); }
constexpr Time InfiniteFuture() { return Time(InfiniteDuration()); }
constexpr Time InfinitePast() { return Time(-InfiniteDuration()); }
constexpr Time FromUnixNanos(int64_t n) { return Time(Nanoseconds(n)); }
constexpr Time FromUnixMicros(int64_t n) { return Time(Microseconds(n)); }
constexpr Time FromUnixMillis(int64_t n) { return Time(Milliseconds(n)); }
constexpr Time FromUnixSeconds(int64_t n) { return Time(Seconds(n)); }
constexpr Time FromTimeT(time_t n) { return Time(Seconds(int64_t(n))); }
constexpr int64_t ToUnixNanos(Time t) { return ToInt64Nanoseconds(t.since_epoch()); }
constexpr int64_t ToUnixSeconds(Time t) { Duration::Rep r = t.since_epoch().rep(); Duration::Rep q = r / 1000000000; if (r % 1000000000 < 0) --q; return int64_t(q); }
constexpr time_t ToTimeT(Time t) { return ToUnixSeconds(t); }
template <typename D> Time FromChrono(const std::chrono::time_point<std::chrono::system_clock, D>& t) { return Time(Nanoseconds(std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count())); }
template <typename R, typename P> Duration FromChrono(const std::chrono::duration<R, P>& d) { return Nanoseconds(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()); }
inline std::chrono::nanoseconds ToChronoNanoseconds(Duration d) { return std::chrono::nanoseconds(ToInt64Nanoseconds(d)); }
Time Now();
int64_t GetCurrentTimeNanos();
void SleepFor(Duration d);
// Time zones: fixed offsets only.
class TimeZone {
 public:
  TimeZone() = default;
  explicit TimeZone(int offset, std::string name) : off_(offset), name_(std::move(name)) {}
  int offset() const { return off_; }
  std::string name() const { return name_; }
  friend bool operator==(const TimeZone& a, const TimeZone& b) { return a.off_ == b.off_; }
 private:
  int off_ = 0;
  std::string name_ = "UTC";
};
inline TimeZone UTCTimeZone() { return {}; }
inline TimeZone LocalTimeZone() { return {}; }
TimeZone FixedTimeZone(int seconds);
bool LoadTimeZone(std::string_view name, TimeZone* tz);
inline constexpr char RFC3339_full[] = "%Y-%m-%d%ET%H:%M:%E*S%Ez";
inline constexpr char RFC3339_sec[] = "%Y-%m-%d%ET%H:%M:%S%Ez";
std::string FormatTime(std::string_view fmt, Time t, TimeZone tz);
inline std::string FormatTime(Time t, TimeZone tz) { return FormatTime(RFC3339_full, t, tz); }
std::string FormatTime(Time t);
inline std::ostream& operator<<(std::ostream& os, Time t) { return os << FormatTime(t); }
template <typename S> void AbslStringify(S& s, Time t) { s.Append(std::string_view(FormatTime(t))); }
}  // namespace absl
