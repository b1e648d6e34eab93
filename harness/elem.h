// Instrumented element: knows which addresses hold a live value, and can fail at a chosen operation.
#pragma once
#include <compare>
#include <new>
#include <utility>

#include "sim/sim.h"

namespace el {
struct Error {};
struct Info {
  bool moved = false;
};
// Live elements by address; never allocates.
struct Registry {
  static constexpr int kMax = 512;
  const void* p[kMax];
  Info info[kMax];
  int n = 0;
  int Find(const void* q) const {
    for (int i = n; i-- > 0;)
      if (p[i] == q) return i;
    return -1;
  }
  bool count(const void* q) const { return Find(q) >= 0; }
  Info& operator[](const void* q) { return info[Find(q)]; }
  bool Add(const void* q) {
    if (count(q)) return false;
    if (n == kMax) sim::Fail("value-leaked", "more than %d elements are alive", kMax);
    p[n] = q;
    info[n++] = {};
    return true;
  }
  void Remove(const void* q) {
    const int i = Find(q);
    p[i] = p[--n];
    info[i] = info[n];
  }
  size_t size() const { return static_cast<size_t>(n); }
};
inline Registry& Live() {
  static Registry r;
  return r;
}
// ---- faults ----
inline uint32_t& Countdown() {
  static uint32_t n = 0;
  return n;
}
inline bool& Thrown() {
  static bool b = false;
  return b;
}
// The nth operation that may fail from now on fails (0: none).
inline void Arm(uint32_t nth) {
  Countdown() = nth;
  Thrown() = false;
}
inline void Disarm() { Countdown() = 0; }
inline bool Due() {
  if (Countdown() == 0 || --Countdown() != 0) return false;
  Thrown() = true;
  return true;
}
inline void MayThrow(const char* what) {
#if __cpp_exceptions
  if (Due()) {
    sim::Fault(what);
    throw Error{};
  }
#endif
}

// kMoveThrows is not offered: moves of this element never fail (operations declared noexcept rely on it).
template <int kTag, bool kAssignable = true>
class ElemT {
 public:
  ElemT() { MayThrow("default construction fails"); Born(0); }
  ElemT(int v) { MayThrow("construction fails"); Born(v); }  // NOLINT
  ElemT(int a, int b) { MayThrow("construction fails"); Born(a * 1000 + b); }
  ElemT(const ElemT& o) {
    const int v = o.Val();
    MayThrow("copy construction fails");
    Born(v);
  }
  ElemT(ElemT&& o) noexcept {
    const int v = o.ValOrMoved();
    const bool m = o.IsMoved();
    Born(v);
    Live()[this].moved = m;
    if (&o != this) Live()[&o].moved = true;
  }
  ElemT& operator=(const ElemT& o) requires kAssignable {
    Check("assignment to");
    const int v = o.Val();
    MayThrow("copy assignment fails");
    v_ = v;
    Live()[this].moved = false;
    return *this;
  }
  ElemT& operator=(ElemT&& o) noexcept requires kAssignable {
    Check("assignment to");
    const int v = o.ValOrMoved();
    const bool m = o.IsMoved();
    if (&o == this) return *this;
    v_ = v;
    Live()[this].moved = m;
    Live()[&o].moved = true;
    return *this;
  }
  ~ElemT() {
    Check("destruction of");
    Live().Remove(this);
    v_ = -77777;
  }
  int Val() const {
    Check("read of");
    SIM_CHECK(!Live()[this].moved, "moved-from-value-used", "the value of a moved-from element is used");
    return v_;
  }
  bool IsMoved() const {
    Check("read of");
    return Live()[this].moved;
  }
  bool IsLive() const { return Live().count(this) != 0; }
  friend bool operator==(const ElemT& a, const ElemT& b) { return a.Val() == b.Val(); }
  friend std::strong_ordering operator<=>(const ElemT& a, const ElemT& b) { return a.Val() <=> b.Val(); }

 private:
  void Born(int v) {
    SIM_CHECK(Live().Add(this), "constructed-twice", "an element (value %d) is constructed over a live one", v);
    v_ = v;
  }
  void Check(const char* what) const {
    SIM_CHECK(Live().count(this) != 0, "dead-element-used", "%s an element that is not alive", what);
  }
  int ValOrMoved() const {
    Check("move from");
    return v_;
  }
  int v_;
};
}  // namespace el
