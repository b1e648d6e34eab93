// Minimal stand-in for the parts of Abseil that helly25/mbo uses (the sandbox has no usable Abseil). Clock, locks, log
// output, hash seeds and flags are seams of the simulation: see hooks.h.
#pragma once
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <iosfwd>
#include <iterator>
#include <limits>
#include <memory>
#include <optional>
#include <ostream>
#include <source_location>
#include <span>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include <initializer_list>

#define ABSL_ATTRIBUTE_LIFETIME_BOUND
#define ABSL_ATTRIBUTE_VIEW
#define ABSL_ATTRIBUTE_ALWAYS_INLINE __attribute__((always_inline))
#define ABSL_ATTRIBUTE_NOINLINE __attribute__((noinline))
#define ABSL_ATTRIBUTE_UNUSED [[maybe_unused]]
#define ABSL_ATTRIBUTE_COLD
#define ABSL_CONST_INIT constinit
#define ABSL_MUST_USE_RESULT [[nodiscard]]
#define ABSL_PREDICT_TRUE(x) (x)
#define ABSL_PREDICT_FALSE(x) (x)
#define ABSL_GUARDED_BY(x)
#define ABSL_PT_GUARDED_BY(x)
#define ABSL_EXCLUSIVE_LOCKS_REQUIRED(...)
#define ABSL_SHARED_LOCKS_REQUIRED(...)
#define ABSL_LOCKS_EXCLUDED(...)
#define ABSL_NO_THREAD_SAFETY_ANALYSIS
#define ABSL_LOCKABLE
#define ABSL_SCOPED_LOCKABLE
#define ABSL_DEPRECATED(x)

namespace absl {
using string_view = std::string_view;
template <typename T> using optional = std::optional<T>;
using std::nullopt;
using std::make_unique;
enum ConstInitType { kConstInit };

template <typename T, typename = void> struct HasAbslStringify;

// Sinks.
namespace strings_internal {
class StringifySink {
 public:
  void Append(size_t n, char c) { s_.append(n, c); }
  void Append(std::string_view v) { s_.append(v); }
  bool PutPaddedString(std::string_view v, int width, int precision, bool left) {
    if (precision >= 0) v = v.substr(0, precision);
    const size_t pad = width > 0 && size_t(width) > v.size() ? width - v.size() : 0;
    if (!left) Append(pad, ' ');
    Append(v);
    if (left) Append(pad, ' ');
    return true;
  }
  friend void AbslFormatFlush(StringifySink* s, std::string_view v) { s->Append(v); }
  std::string& str() { return s_; }

 private:
  std::string s_;
};
using UnimplementedSink = StringifySink;
}  // namespace strings_internal
template <typename T, typename> struct HasAbslStringify : std::bool_constant<
    requires(strings_internal::StringifySink& s, const T& v) { AbslStringify(s, v); }> {};

// Span: absl::Span<const T> constructs implicitly from containers; absl::Span<T> explicitly.
static constexpr size_t span_npos = static_cast<size_t>(-1);
template <typename T>
class Span {
 public:
  using element_type = T;
  using value_type = std::remove_cv_t<T>;
  using pointer = T*;
  using const_pointer = const T*;
  using reference = T&;
  using const_reference = const T&;
  using iterator = T*;
  using const_iterator = const T*;
  using reverse_iterator = std::reverse_iterator<iterator>;
  using size_type = size_t;
  using difference_type = ptrdiff_t;
  static constexpr size_type npos = static_cast<size_type>(-1);
  constexpr Span() noexcept = default;
  constexpr Span(T* p, size_t n) noexcept : p_(p), n_(n) {}
  template <size_t N> constexpr Span(T (&a)[N]) noexcept : p_(a), n_(N) {}
  template <typename C>
    requires(!std::is_array_v<std::remove_reference_t<C>> && !std::same_as<std::remove_cvref_t<C>, Span>
             && requires(C& c) { { c.data() } -> std::convertible_to<T*>; { c.size() } -> std::convertible_to<size_t>; })
  constexpr explicit(!std::is_const_v<T>) Span(C& c) noexcept : p_(c.data()), n_(c.size()) {}
  template <typename C>
    requires(std::is_const_v<T> && !std::is_array_v<std::remove_reference_t<C>> && !std::same_as<std::remove_cvref_t<C>, Span>
             && requires(const C& c) { { c.data() } -> std::convertible_to<T*>; { c.size() } -> std::convertible_to<size_t>; })
  constexpr Span(const C& c) noexcept : p_(c.data()), n_(c.size()) {}
  constexpr Span(std::initializer_list<value_type> l) noexcept requires std::is_const_v<T> : p_(l.begin()), n_(l.size()) {}
  constexpr T* data() const noexcept { return p_; }
  constexpr size_t size() const noexcept { return n_; }
  constexpr size_t length() const noexcept { return n_; }
  constexpr bool empty() const noexcept { return n_ == 0; }
  constexpr T& operator[](size_t i) const noexcept { if (i >= n_) std::abort(); return p_[i]; }
  constexpr T& at(size_t i) const { if (i >= n_) std::abort(); return p_[i]; }
  constexpr T& front() const noexcept { return (*this)[0]; }
  constexpr T& back() const noexcept { return (*this)[n_ - 1]; }
  constexpr T* begin() const noexcept { return p_; }
  constexpr T* end() const noexcept { return p_ + n_; }
  constexpr const T* cbegin() const noexcept { return p_; }
  constexpr const T* cend() const noexcept { return p_ + n_; }
  constexpr auto rbegin() const noexcept { return reverse_iterator(end()); }
  constexpr auto rend() const noexcept { return reverse_iterator(begin()); }
  constexpr void remove_prefix(size_t n) noexcept { p_ += n; n_ -= n; }
  constexpr void remove_suffix(size_t n) noexcept { n_ -= n; }
  constexpr Span subspan(size_t pos = 0, size_t len = npos) const { if (pos > n_) std::abort(); return {p_ + pos, std::min(n_ - pos, len)}; }
  constexpr Span first(size_t n) const { return subspan(0, n); }
  constexpr Span last(size_t n) const { return subspan(n_ - n); }

 private:
  T* p_ = nullptr;
  size_t n_ = 0;
};
template <typename T, typename U>
constexpr bool operator==(Span<T> a, Span<U> b) { return std::equal(a.begin(), a.end(), b.begin(), b.end()); }
template <typename T> constexpr Span<T> MakeSpan(T* p, size_t n) { return {p, n}; }
template <typename C> constexpr auto MakeSpan(C& c) -> Span<std::remove_reference_t<decltype(*c.data())>> { return {c.data(), c.size()}; }
template <typename T, size_t N> constexpr Span<T> MakeSpan(T (&a)[N]) { return {a, N}; }
template <typename T> constexpr Span<const T> MakeConstSpan(T* p, size_t n) { return {p, n}; }
template <typename C> constexpr auto MakeConstSpan(const C& c) -> Span<const std::remove_reference_t<decltype(*c.data())>> { return {c.data(), c.size()}; }
template <typename T, size_t N> constexpr Span<const T> MakeConstSpan(const T (&a)[N]) { return {a, N}; }

// Severity.
enum class LogSeverity : int { kInfo = 0, kWarning = 1, kError = 2, kFatal = 3 };
enum class LogSeverityAtLeast : int { kInfo = 0, kWarning = 1, kError = 2, kFatal = 3, kInfinity = 1000 };
constexpr const char* LogSeverityName(LogSeverity s) {
  return s == LogSeverity::kInfo ? "INFO" : s == LogSeverity::kWarning ? "WARNING" : s == LogSeverity::kError ? "ERROR" : s == LogSeverity::kFatal ? "FATAL" : "UNKNOWN";
}
constexpr LogSeverity NormalizeLogSeverity(LogSeverity s) { return s < LogSeverity::kInfo ? LogSeverity::kInfo : s > LogSeverity::kFatal ? LogSeverity::kError : s; }
inline std::ostream& operator<<(std::ostream& os, LogSeverity s) { return os << LogSeverityName(s); }
template <typename S> void AbslStringify(S& s, LogSeverity v) { s.Append(LogSeverityName(v)); }

// Cleanup.
template <typename F>
class Cleanup {
 public:
  Cleanup(F f) : f_(std::move(f)) {}
  Cleanup(Cleanup&& o) : f_(std::move(o.f_)), on_(std::exchange(o.on_, false)) {}
  void Cancel() && { on_ = false; }
  void Invoke() && { on_ = false; f_(); }
  ~Cleanup() { if (on_) f_(); }
 private:
  F f_;
  bool on_ = true;
};
template <typename F> Cleanup(F) -> Cleanup<F>;
template <typename F> Cleanup<F> MakeCleanup(F f) { return Cleanup<F>(std::move(f)); }

// Algorithms.
template <typename C, typename P> bool c_all_of(const C& c, P&& p) { return std::all_of(std::begin(c), std::end(c), p); }
template <typename C, typename P> bool c_any_of(const C& c, P&& p) { return std::any_of(std::begin(c), std::end(c), p); }
template <typename C, typename P> bool c_none_of(const C& c, P&& p) { return std::none_of(std::begin(c), std::end(c), p); }
template <typename C, typename P> auto c_find_if(C&& c, P&& p) { return std::find_if(std::begin(c), std::end(c), p); }
template <typename C, typename T> auto c_find(C&& c, const T& v) { return std::find(std::begin(c), std::end(c), v); }
template <typename C, typename T> auto c_count(const C& c, const T& v) { return std::count(std::begin(c), std::end(c), v); }
template <typename C, typename P> auto c_count_if(const C& c, P&& p) { return std::count_if(std::begin(c), std::end(c), p); }
template <typename C, typename T> bool c_contains(const C& c, const T& v) { return c_find(c, v) != std::end(c); }
template <typename C, typename... P> void c_sort(C& c, P... p) { std::sort(std::begin(c), std::end(c), p...); }
template <typename C, typename... P> void c_stable_sort(C& c, P... p) { std::stable_sort(std::begin(c), std::end(c), p...); }
template <typename C, typename D> bool c_equal(const C& c, const D& d) { return std::equal(std::begin(c), std::end(c), std::begin(d), std::end(d)); }

template <typename T> constexpr T implicit_cast(std::type_identity_t<T> t) { return t; }
}  // namespace absl

// Seams.
namespace shim {
extern int64_t (*now_ns)();                                        // absl::Now()
extern void (*log_sink)(int severity, const char* file, int line, std::string_view text);  // LOG(); default: stderr
extern uint64_t hash_seed;                                         // iteration order of hash containers
extern void (*mutex_op)(void* m, int op);                          // 0 lock, 1 unlock, 2 rlock, 3 runlock; default: nothing
extern void (*exit_hook)(int status, std::string_view why);        // flag parsing wants to end the process
void ResetFlags();
}  // namespace shim
