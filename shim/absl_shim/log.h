#pragma once
#include "absl_shim/strings.h"
#include <sstream>
namespace absl {
namespace log_internal {
class LogMessage {
 public:
  LogMessage(const char* file, int line, int severity, bool quiet = false) : file_(file), line_(line), sev_(severity), quiet_(quiet) {}
  LogMessage(const LogMessage&) = delete;
  ~LogMessage() noexcept(false);
  LogMessage& AtLocation(std::string_view file, int line) { file_ = file; line_ = line; return *this; }
  LogMessage& WithPrefix(bool) { return *this; }
  LogMessage& NoPrefix() { return *this; }
  LogMessage& WithPerror() { return *this; }
  LogMessage& WithVerbosity(int) { return *this; }
  LogMessage& InternalStream() { return *this; }
  LogMessage& operator<<(std::ostream& (*m)(std::ostream&)) { m(os_); return *this; }
  template <typename T> LogMessage& operator<<(const T& v) {
    if constexpr (HasAbslStringify<T>::value && !std::is_enum_v<T>) { strings_internal::StringifySink s; AbslStringify(s, v); os_ << s.str(); }
    else if constexpr (HasAbslStringify<T>::value && !requires(std::ostream& o) { o << v; }) { strings_internal::StringifySink s; AbslStringify(s, v); os_ << s.str(); }
    else os_ << v;
    return *this;
  }
 private:
  std::string file_;
  int line_;
  int sev_;
  bool quiet_;
  std::ostringstream os_;
};
struct Voidify { template <typename T> void operator&&(T&&) const {} };
struct NullStream { template <typename T> NullStream& operator<<(const T&) { return *this; } NullStream& AtLocation(std::string_view, int) { return *this; } NullStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; } };
template <typename A> std::string Show(const A& v) {
  std::ostringstream os;
  if constexpr (std::is_same_v<A, std::nullptr_t>) os << "(null)";
  else if constexpr (requires { os << v; }) os << v;
  else os << "UNPRINTABLE";
  return os.str();
}
#define SHIM_CMP(N, OP) template <typename A, typename B> std::optional<std::string> N(const A& a, const B& b, const char* t) { if (a OP b) return std::nullopt; return std::string(t) + " (" + Show(a) + " vs. " + Show(b) + ")"; }
SHIM_CMP(CmpEQ, ==) SHIM_CMP(CmpNE, !=) SHIM_CMP(CmpLT, <) SHIM_CMP(CmpLE, <=) SHIM_CMP(CmpGT, >) SHIM_CMP(CmpGE, >=)
#undef SHIM_CMP
template <typename S> std::string OkText(const S& s) { if constexpr (requires { s.status(); }) return s.status().ToString(); else return s.ToString(); }
}  // namespace log_internal
inline void InitializeLog() {}
inline void SetStderrThreshold(LogSeverityAtLeast) {}
inline void SetStderrThreshold(LogSeverity) {}
inline void SetMinLogLevel(LogSeverityAtLeast) {}
inline LogSeverityAtLeast StderrThreshold() { return LogSeverityAtLeast::kError; }
}  // namespace absl
#define SHIM_SEV_INFO 0
#define SHIM_SEV_WARNING 1
#define SHIM_SEV_ERROR 2
#define SHIM_SEV_FATAL 3
#define SHIM_SEV_QFATAL 4
#define SHIM_SEV_DFATAL 2
#define SHIM_SEV_LEVEL(s) static_cast<int>(s)
#define SHIM_LOG(S) ::absl::log_internal::LogMessage(__FILE__, __LINE__, SHIM_SEV_##S)
#define SHIM_LOG_IF(S, c) !(c) ? (void)0 : ::absl::log_internal::Voidify() && SHIM_LOG(S)
#define SHIM_CHECK(c, t, S) SHIM_LOG_IF(S, !(c)) << "Check failed: " t " "
#define SHIM_CHECK_OP(f, a, b, t, S) \
  while (auto shim_r = ::absl::log_internal::f((a), (b), t)) SHIM_LOG(S) << "Check failed: " << *shim_r << " "
#define SHIM_CHECK_OK(e, S) \
  for (const auto& shim_s = (e); !shim_s.ok();) SHIM_LOG(S) << "Check failed: " #e " is OK (" << ::absl::log_internal::OkText(shim_s) << ") "
#define ABSL_LOG(S) SHIM_LOG(S)
#define ABSL_LOG_IF(S, c) SHIM_LOG_IF(S, c)
#define ABSL_DLOG(S) SHIM_LOG_IF(S, false)
#define ABSL_VLOG(n) SHIM_LOG_IF(INFO, false)
#define ABSL_CHECK(c) SHIM_CHECK(c, #c, FATAL)
#define ABSL_QCHECK(c) SHIM_CHECK(c, #c, QFATAL)
#define ABSL_PCHECK(c) SHIM_CHECK(c, #c, FATAL)
#define ABSL_DCHECK(c) SHIM_CHECK(c, #c, FATAL)
#define ABSL_CHECK_EQ(a, b) SHIM_CHECK_OP(CmpEQ, a, b, #a " == " #b, FATAL)
#define ABSL_CHECK_NE(a, b) SHIM_CHECK_OP(CmpNE, a, b, #a " != " #b, FATAL)
#define ABSL_CHECK_LT(a, b) SHIM_CHECK_OP(CmpLT, a, b, #a " < " #b, FATAL)
#define ABSL_CHECK_LE(a, b) SHIM_CHECK_OP(CmpLE, a, b, #a " <= " #b, FATAL)
#define ABSL_CHECK_GT(a, b) SHIM_CHECK_OP(CmpGT, a, b, #a " > " #b, FATAL)
#define ABSL_CHECK_GE(a, b) SHIM_CHECK_OP(CmpGE, a, b, #a " >= " #b, FATAL)
#define ABSL_CHECK_OK(e) SHIM_CHECK_OK(e, FATAL)
#define ABSL_QCHECK_OK(e) SHIM_CHECK_OK(e, QFATAL)
#define ABSL_QCHECK_EQ(a, b) SHIM_CHECK_OP(CmpEQ, a, b, #a " == " #b, QFATAL)
#define ABSL_QCHECK_NE(a, b) SHIM_CHECK_OP(CmpNE, a, b, #a " != " #b, QFATAL)
#define ABSL_DCHECK_EQ ABSL_CHECK_EQ
#define ABSL_DCHECK_NE ABSL_CHECK_NE
#define ABSL_DCHECK_LT ABSL_CHECK_LT
#define ABSL_DCHECK_LE ABSL_CHECK_LE
#define ABSL_DCHECK_GT ABSL_CHECK_GT
#define ABSL_DCHECK_GE ABSL_CHECK_GE
#define ABSL_DCHECK_OK ABSL_CHECK_OK
