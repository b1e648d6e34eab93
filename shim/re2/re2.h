// Stand-in for RE2: same syntax subset and leftmost-first semantics, backtracking with memoisation (linear in
// pattern times text). Runes are decoded from UTF-8; an invalid byte matches only \C.
#pragma once
#include <atomic>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

#include "absl_shim/strings.h"

class RE2 {
 public:
  enum ErrorCode { NoError = 0, ErrorInternal, ErrorBadEscape, ErrorBadCharClass, ErrorBadCharRange, ErrorMissingBracket, ErrorMissingParen, ErrorUnexpectedParen, ErrorTrailingBackslash, ErrorRepeatArgument, ErrorRepeatSize, ErrorRepeatOp, ErrorBadPerlOp, ErrorBadUTF8, ErrorBadNamedCapture, ErrorPatternTooLarge };
  enum CannedOptions { DefaultOptions = 0, Latin1, POSIX, Quiet };
  enum Anchor { UNANCHORED, ANCHOR_START, ANCHOR_BOTH };
  class Options {
   public:
    Options() : Options(DefaultOptions) {}
    Options(CannedOptions c) : log_errors_(c != Quiet), case_sensitive_(true), dot_nl_(false), literal_(false) {}
    bool log_errors() const { return log_errors_; }
    void set_log_errors(bool b) { log_errors_ = b; }
    bool case_sensitive() const { return case_sensitive_; }
    void set_case_sensitive(bool b) { case_sensitive_ = b; }
    bool dot_nl() const { return dot_nl_; }
    void set_dot_nl(bool b) { dot_nl_ = b; }
    bool literal() const { return literal_; }
    void set_literal(bool b) { literal_ = b; }
    bool never_nl() const { return false; }
    void set_never_nl(bool) {}
    bool longest_match() const { return false; }
    void set_longest_match(bool) {}
    void set_max_mem(int64_t) {}
    void set_never_capture(bool) {}
    void set_posix_syntax(bool) {}
   private:
    bool log_errors_, case_sensitive_, dot_nl_, literal_;
  };
  class Arg {
   public:
    Arg() : p_(nullptr), f_([](std::string_view, void*) { return true; }) {}
    Arg(std::nullptr_t) : Arg() {}
    Arg(std::string* p) : p_(p), f_([](std::string_view s, void* d) { static_cast<std::string*>(d)->assign(s); return true; }) {}
    Arg(std::string_view* p) : p_(p), f_([](std::string_view s, void* d) { *static_cast<std::string_view*>(d) = s; return true; }) {}
    template <typename T> requires std::is_integral_v<T>
    Arg(T* p) : p_(p), f_([](std::string_view s, void* d) { if (s.empty() || absl::ascii_isspace(s[0])) return false; return absl::SimpleAtoi(s, static_cast<T*>(d)); }) {}
    template <typename T>
    Arg(std::optional<T>* p) : p_(p), f_([](std::string_view s, void* d) {
      auto* o = static_cast<std::optional<T>*>(d);
      if (s.data() == nullptr) { o->reset(); return true; }
      T t{};
      if (!Arg(&t).Parse(s)) return false;
      *o = std::move(t);
      return true;
    }) {}
    bool Parse(std::string_view s) const { return f_(s, p_); }
   private:
    void* p_;
    bool (*f_)(std::string_view, void*);
  };
  RE2(const char* p, const Options& o = Options()) { Init(p ? p : "", o); }
  RE2(const std::string& p, const Options& o = Options()) { Init(p, o); }
  RE2(std::string_view p, const Options& o = Options()) { Init(p, o); }
  RE2(const RE2&) = delete;
  RE2& operator=(const RE2&) = delete;
  ~RE2();
  bool ok() const { return code_ == NoError; }
  const std::string& pattern() const { return pattern_; }
  const std::string& error() const { return error_; }
  ErrorCode error_code() const { return code_; }
  const Options& options() const { return opt_; }
  int NumberOfCapturingGroups() const { return ok() ? ngroup_ : -1; }
  bool Match(std::string_view text, size_t start, size_t end, Anchor a, std::string_view* sub, int nsub) const;

  template <typename... A> static bool FullMatch(std::string_view t, const RE2& re, A&&... a) { return Do(t, re, ANCHOR_BOTH, nullptr, a...); }
  template <typename... A> static bool PartialMatch(std::string_view t, const RE2& re, A&&... a) { return Do(t, re, UNANCHORED, nullptr, a...); }
  template <typename... A> static bool Consume(std::string_view* in, const RE2& re, A&&... a) {
    size_t used = 0;
    if (!Do(*in, re, ANCHOR_START, &used, a...)) return false;
    in->remove_prefix(used);
    return true;
  }
  template <typename... A> static bool FindAndConsume(std::string_view* in, const RE2& re, A&&... a) {
    size_t used = 0;
    if (!Do(*in, re, UNANCHORED, &used, a...)) return false;
    in->remove_prefix(used);
    return true;
  }
  static bool Replace(std::string* s, const RE2& re, std::string_view rewrite);
  static int GlobalReplace(std::string* s, const RE2& re, std::string_view rewrite);
  static std::string QuoteMeta(std::string_view s);

 private:
  struct Prog;
  void Init(std::string_view p, const Options& o);
  bool Rewrite(std::string* out, std::string_view rewrite, const std::vector<std::string_view>& v) const;
  template <typename... A> static bool Do(std::string_view t, const RE2& re, Anchor an, size_t* used, A&&... a) {
    const std::vector<Arg> args{Arg(a)...};
    return DoV(t, re, an, used, args);
  }
  static bool DoV(std::string_view t, const RE2& re, Anchor an, size_t* used, const std::vector<Arg>& args);
  std::string pattern_, error_;
  ErrorCode code_ = NoError;
  Options opt_;
  int ngroup_ = 0;
  std::shared_ptr<Prog> prog_;
};

class LazyRE2 {
 public:
  RE2& operator*() const { return *get(); }
  RE2* operator->() const { return get(); }
  RE2* get() const {
    RE2* p = ptr_.load(std::memory_order_acquire);
    if (p != nullptr) return p;
    RE2* mine = new RE2(pattern_, options_);
    if (ptr_.compare_exchange_strong(p, mine, std::memory_order_acq_rel)) return mine;
    delete mine;
    return p;
  }
  const char* pattern_ = nullptr;
  RE2::CannedOptions options_ = RE2::DefaultOptions;
  mutable std::atomic<RE2*> ptr_{nullptr};
};
namespace re2 { using ::RE2; using ::LazyRE2; }
