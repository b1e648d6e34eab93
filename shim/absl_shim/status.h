#pragma once
#include "absl_shim/strings.h"

namespace absl {
enum class StatusCode : int {
  kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3, kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6,
  kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9, kAborted = 10, kOutOfRange = 11, kUnimplemented = 12,
  kInternal = 13, kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16,
  kDoNotUseReservedForFutureExpansionUseDefaultInSwitchInstead_ = 20
};
std::string StatusCodeToString(StatusCode c);
inline std::ostream& operator<<(std::ostream& os, StatusCode c) { return os << StatusCodeToString(c); }
enum class StatusToStringMode : int { kWithNoExtraData = 0, kWithPayload = 1, kWithSourceLocation = 2, kWithEverything = ~0, kDefault = kWithPayload };

class [[nodiscard]] Status final {
 public:
  Status() = default;
  Status(StatusCode code, std::string_view msg) : code_(code), msg_(code == StatusCode::kOk ? std::string_view() : msg) {}
  Status(const Status&) = default;
  Status& operator=(const Status&) = default;
  Status(Status&& o) noexcept : code_(o.code_), msg_(std::move(o.msg_)), payloads_(std::move(o.payloads_)), moved_(o.moved_) { o.MovedFrom(); }
  Status& operator=(Status&& o) noexcept {
    if (this != &o) { code_ = o.code_; msg_ = std::move(o.msg_); payloads_ = std::move(o.payloads_); moved_ = o.moved_; o.MovedFrom(); }
    return *this;
  }
  ~Status() = default;
  void Update(const Status& s) { if (ok()) *this = s; }
  void Update(Status&& s) { if (ok()) *this = std::move(s); }
  [[nodiscard]] bool ok() const { return code_ == StatusCode::kOk; }
  StatusCode code() const { return code_; }
  int raw_code() const { return static_cast<int>(code_); }
  std::string_view message() const { return moved_ ? std::string_view("Status accessed after move.") : std::string_view(msg_); }
  std::string ToString(StatusToStringMode mode = StatusToStringMode::kDefault) const;
  void IgnoreError() const {}
  std::optional<Cord> GetPayload(std::string_view url) const { for (auto& [u, p] : payloads_) if (u == url) return p; return std::nullopt; }
  void SetPayload(std::string_view url, Cord payload) {
    if (ok()) return;
    for (auto& [u, p] : payloads_) if (u == url) { p = std::move(payload); return; }
    payloads_.emplace_back(std::string(url), std::move(payload));
  }
  bool ErasePayload(std::string_view url) {
    for (auto it = payloads_.begin(); it != payloads_.end(); ++it) if (it->first == url) { payloads_.erase(it); return true; }
    return false;
  }
  template <typename F> void ForEachPayload(F&& f) const { for (auto& [u, p] : payloads_) f(std::string_view(u), p); }
  friend bool operator==(const Status& a, const Status& b) {
    if (a.code_ != b.code_ || a.message() != b.message() || a.payloads_.size() != b.payloads_.size()) return false;
    for (auto& [u, p] : a.payloads_) { auto o = b.GetPayload(u); if (!o || !(*o == p)) return false; }
    return true;
  }
  friend std::ostream& operator<<(std::ostream& os, const Status& s) { return os << s.ToString(StatusToStringMode::kWithEverything); }
  template <typename S> friend void AbslStringify(S& s, const Status& v) { s.Append(std::string_view(v.ToString(StatusToStringMode::kWithEverything))); }

 private:
  void MovedFrom() noexcept { code_ = StatusCode::kInternal; moved_ = true; msg_.clear(); payloads_.clear(); }
  StatusCode code_ = StatusCode::kOk;
  std::string msg_;
  std::vector<std::pair<std::string, Cord>> payloads_;
  bool moved_ = false;
};
inline Status OkStatus() { return {}; }
#define SHIM_STATUS(N)                                                                      \
  inline Status N##Error(std::string_view m) { return Status(StatusCode::k##N, m); }       \
  inline bool Is##N(const Status& s) { return s.code() == StatusCode::k##N; }
SHIM_STATUS(Cancelled) SHIM_STATUS(Unknown) SHIM_STATUS(InvalidArgument) SHIM_STATUS(DeadlineExceeded) SHIM_STATUS(NotFound)
SHIM_STATUS(AlreadyExists) SHIM_STATUS(PermissionDenied) SHIM_STATUS(ResourceExhausted) SHIM_STATUS(FailedPrecondition)
SHIM_STATUS(Aborted) SHIM_STATUS(OutOfRange) SHIM_STATUS(Unimplemented) SHIM_STATUS(Internal) SHIM_STATUS(Unavailable)
SHIM_STATUS(DataLoss) SHIM_STATUS(Unauthenticated)
#undef SHIM_STATUS
inline Status CancelledError() { return Status(StatusCode::kCancelled, ""); }
StatusCode ErrnoToStatusCode(int e);
Status ErrnoToStatus(int e, std::string_view m);

namespace shim_internal { [[noreturn]] void BadStatusOr(const Status& s); }
template <typename T>
class [[nodiscard]] StatusOr {
 public:
  using value_type = T;
  StatusOr() : status_(StatusCode::kUnknown, "") {}
  StatusOr(const StatusOr&) = default;
  StatusOr& operator=(const StatusOr&) = default;
  StatusOr(StatusOr&& o) noexcept(std::is_nothrow_move_constructible_v<T>) : status_(std::move(o.status_)), v_(std::move(o.v_)) { if (v_) { status_ = OkStatus(); o.status_ = OkStatus(); } }
  StatusOr& operator=(StatusOr&& o) {
    if (this != &o) {
      if (o.v_) { v_ = std::move(o.v_); status_ = OkStatus(); } else { v_.reset(); status_ = std::move(o.status_); }
    }
    return *this;
  }
  template <typename U> requires(!std::is_same_v<T, U> && std::is_constructible_v<T, const U&>)
  explicit(!std::is_convertible_v<const U&, T>) StatusOr(const StatusOr<U>& o) : status_(o.status()) { if (o.ok()) v_.emplace(*o); }
  template <typename U> requires(!std::is_same_v<T, U> && std::is_constructible_v<T, U&&>)
  explicit(!std::is_convertible_v<U&&, T>) StatusOr(StatusOr<U>&& o) : status_(o.ok() ? OkStatus() : std::move(o).status()) { if (status_.ok()) v_.emplace(*std::move(o)); }
  StatusOr(const Status& s) : status_(s) { NotOk(); }
  StatusOr(Status&& s) : status_(std::move(s)) { NotOk(); }
  // Things that convert to a status (a status builder, say).
  template <typename U> requires(!std::is_same_v<std::remove_cvref_t<U>, StatusOr> && !std::is_same_v<std::remove_cvref_t<U>, Status> && !std::is_convertible_v<U&&, T> && std::is_convertible_v<U&&, Status>)
  StatusOr(U&& u) : status_(static_cast<Status>(std::forward<U>(u))) { NotOk(); }
  template <typename U = T> requires(!std::is_same_v<std::remove_cvref_t<U>, StatusOr> && !std::is_same_v<std::remove_cvref_t<U>, Status> && !std::is_same_v<std::remove_cvref_t<U>, std::in_place_t> && std::is_convertible_v<U&&, T>)
  StatusOr(U&& u) : v_(std::in_place, std::forward<U>(u)) {}
  template <typename U = T> requires(!std::is_same_v<std::remove_cvref_t<U>, StatusOr> && !std::is_same_v<std::remove_cvref_t<U>, Status> && !std::is_same_v<std::remove_cvref_t<U>, std::in_place_t> && !std::is_convertible_v<U&&, T> && !std::is_convertible_v<U&&, Status> && std::is_constructible_v<T, U&&>)
  explicit StatusOr(U&& u) : v_(std::in_place, std::forward<U>(u)) {}
  template <typename... A> explicit StatusOr(std::in_place_t, A&&... a) : v_(std::in_place, std::forward<A>(a)...) {}
  StatusOr& operator=(const Status& s) { status_ = s; v_.reset(); NotOk(); return *this; }
  StatusOr& operator=(Status&& s) { status_ = std::move(s); v_.reset(); NotOk(); return *this; }
  template <typename U = T> requires(!std::is_same_v<std::remove_cvref_t<U>, StatusOr> && !std::is_same_v<std::remove_cvref_t<U>, Status> && std::is_constructible_v<T, U&&> && std::is_assignable_v<T&, U&&>)
  StatusOr& operator=(U&& u) { if (v_) *v_ = std::forward<U>(u); else v_.emplace(std::forward<U>(u)); status_ = OkStatus(); return *this; }
  [[nodiscard]] bool ok() const { return v_.has_value(); }
  const Status& status() const& { return status_; }
  Status status() && { return ok() ? OkStatus() : std::move(status_); }
  const T& value() const& { Ensure(); return *v_; }
  T& value() & { Ensure(); return *v_; }
  const T&& value() const&& { Ensure(); return std::move(*v_); }
  T&& value() && { Ensure(); return std::move(*v_); }
  const T& operator*() const& { Ensure(); return *v_; }
  T& operator*() & { Ensure(); return *v_; }
  const T&& operator*() const&& { Ensure(); return std::move(*v_); }
  T&& operator*() && { Ensure(); return std::move(*v_); }
  const T* operator->() const { Ensure(); return &*v_; }
  T* operator->() { Ensure(); return &*v_; }
  template <typename U> T value_or(U&& d) const& { return ok() ? *v_ : static_cast<T>(std::forward<U>(d)); }
  template <typename U> T value_or(U&& d) && { return ok() ? std::move(*v_) : static_cast<T>(std::forward<U>(d)); }
  void IgnoreError() const {}
  template <typename... A> T& emplace(A&&... a) { v_.emplace(std::forward<A>(a)...); status_ = OkStatus(); return *v_; }
  friend bool operator==(const StatusOr& a, const StatusOr& b) { return a.ok() && b.ok() ? *a.v_ == *b.v_ : a.status_ == b.status_; }

 private:
  template <typename U> friend class StatusOr;
  void NotOk() { if (status_.ok()) status_ = InternalError("An OK status is not a valid constructor argument to StatusOr<T>"); }
  void Ensure() const { if (!v_) shim_internal::BadStatusOr(status_); }
  Status status_;
  std::optional<T> v_;
};
template <typename T> requires requires(std::ostream& os, const T& v) { os << v; }
std::ostream& operator<<(std::ostream& os, const StatusOr<T>& s) { if (s.ok()) return os << *s; return os << s.status(); }
}  // namespace absl
