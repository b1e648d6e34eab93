#pragma once
#include "absl_shim/strings.h"
#include "absl_shim/time.h"
namespace absl {
namespace flags_internal {
bool Parse(std::string_view s, bool* v, std::string* e);
bool Parse(std::string_view s, std::string* v, std::string* e);
bool Parse(std::string_view s, double* v, std::string* e);
bool Parse(std::string_view s, float* v, std::string* e);
bool Parse(std::string_view s, Duration* v, std::string* e);
bool Parse(std::string_view s, LogSeverity* v, std::string* e);
bool Parse(std::string_view s, std::vector<std::string>* v, std::string* e);
bool ParseI(std::string_view s, bool sgn, int bits, uint64_t* v, std::string* e);
std::string Unparse(bool v);
inline std::string Unparse(const std::string& v) { return v; }
inline std::string Unparse(Duration v) { return FormatDuration(v); }
inline std::string Unparse(LogSeverity v) { return LogSeverityName(v); }
inline std::string Unparse(double v) { return StrCat(v); }
template <typename T> bool ParseAny(std::string_view s, T* v, std::string* e) {
  if constexpr (requires { AbslParseFlag(s, v, e); }) return AbslParseFlag(s, v, e);
  else if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>) { uint64_t u = 0; if (!ParseI(s, std::is_signed_v<T>, sizeof(T) * 8, &u, e)) return false; *v = static_cast<T>(u); return true; }
  else if constexpr (requires { v->has_value(); typename T::value_type; }) { if (s.empty()) { v->reset(); return true; } typename T::value_type x{}; if (!ParseAny(s, &x, e)) return false; *v = x; return true; }
  else return Parse(s, v, e);
}
template <typename T> std::string UnparseAny(const T& v) {
  if constexpr (requires { AbslUnparseFlag(v); }) return AbslUnparseFlag(v);
  else if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>) return std::to_string(v);
  else if constexpr (requires { Unparse(v); }) return Unparse(v);
  else if constexpr (requires { v.has_value(); *v; }) return v.has_value() ? UnparseAny(*v) : std::string();
  else return StrJoin(v, ",");
}
}  // namespace flags_internal
template <typename T> bool ParseFlag(std::string_view s, T* v, std::string* e) { return flags_internal::ParseAny(s, v, e); }
template <typename T> std::string UnparseFlag(const T& v) { return flags_internal::UnparseAny(v); }
class CommandLineFlag {
 public:
  virtual ~CommandLineFlag() = default;
  virtual bool ParseFrom(std::string_view s, std::string* e) = 0;
  virtual void Reset() = 0;
  virtual bool IsBool() const = 0;
  virtual std::string CurrentValue() const = 0;
  virtual std::string DefaultValue() const = 0;
  std::string_view Name() const { return name_; }
  std::string Help() const { return help_; }
  std::string Filename() const { return file_; }
  bool IsSpecifiedOnCommandLine() const { return set_; }
  bool set_ = false;
 protected:
  std::string name_, help_, file_;
};
void ShimRegister(CommandLineFlag* f);
template <typename T>
class Flag final : public CommandLineFlag {
 public:
  Flag(const char* name, const char* file, std::string help, T (*def)()) : def_(def), v_(def()) { name_ = name; file_ = file; help_ = std::move(help); ShimRegister(this); }
  T Get() const { return v_; }
  void Set(const T& v) { v_ = v; }
  bool ParseFrom(std::string_view s, std::string* e) override { T t = v_; if (!flags_internal::ParseAny(s, &t, e)) return false; v_ = std::move(t); return true; }
  void Reset() override { v_ = def_(); set_ = false; }
  bool IsBool() const override { return std::is_same_v<T, bool>; }
  std::string CurrentValue() const override { return flags_internal::UnparseAny(v_); }
  std::string DefaultValue() const override { return flags_internal::UnparseAny(def_()); }
 private:
  T (*def_)();
  T v_;
};
template <typename T> T GetFlag(const Flag<T>& f) { return f.Get(); }
template <typename T, typename V> void SetFlag(Flag<T>* f, const V& v) { f->Set(static_cast<T>(v)); }
CommandLineFlag* FindCommandLineFlag(std::string_view name);
void SetProgramUsageMessage(std::string_view m);
std::string_view ProgramUsageMessage();
std::vector<char*> ParseCommandLine(int argc, char* argv[]);
class FlagSaver {};
}  // namespace absl
#define ABSL_FLAG(T, name, def, help) \
  absl::Flag<T> FLAGS_##name(#name, __FILE__, help, []() -> T { return T(def); })
#define ABSL_RETIRED_FLAG(T, name, def, help)
#define ABSL_DECLARE_FLAG(T, name) extern absl::Flag<T> FLAGS_##name
