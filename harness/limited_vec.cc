// C21: histories over fixed-capacity vectors, with element operations failing, against std::vector.
#include <list>
#include <optional>
#include <stdexcept>
#include <vector>

#include "harness/elem.h"
#include "mbo/container/limited_vector.h"

using Elem = el::ElemT<0>;
using mbo::container::LimitedOptions;
using mbo::container::LimitedVector;

namespace {
using Model = std::vector<int>;
constexpr int kMoved = -1000000;
size_t g_fails = 0, g_rejects = 0;
int g_steps = 0;

int NewVal() {
  static int n = 0;
  return sim::Choose(3) == 0 ? static_cast<int>(sim::Choose(4)) : 10 + ++n;
}
int ValOf(const Elem& e) { return e.IsMoved() ? kMoved : e.Val(); }
int ValOf(int e) { return e; }
bool Alive(const Elem& e) { return e.IsLive(); }
bool Alive(int) { return true; }

enum class Out { kOk, kFailed, kRejected };
const char* Name(Out o) { return o == Out::kOk ? "ok" : o == Out::kFailed ? "failed" : "rejected"; }
template <class F>
Out Try(F f, bool may_fail = true) {
  el::Arm(may_fail && sim::Chance(1, 3) ? 1 + sim::Choose(5) : 0);
  Out out = Out::kOk;
  try {
    f();
  } catch (const el::Error&) {
    out = Out::kFailed;
    ++g_fails;
  } catch (const std::runtime_error&) {
    out = Out::kRejected;
    ++g_rejects;
    sim::Fault("capacity exceeded");
  }
  el::Disarm();
  return out;
}

template <class V>
struct Slot {
  alignas(V) unsigned char buf[sizeof(V)];
  V* v = nullptr;
  Model m;
  void Destroy() {
    if (v) v->~V();
    v = nullptr;
    m.clear();
  }
};

template <class V>
void Audit(const char* what, Slot<V>& s, size_t& live) {
  if (!s.v) return;
  V& v = *s.v;
  const V& c = v;
  SIM_CHECK(c.size() == s.m.size() && c.empty() == s.m.empty(), "wrong-size", "%s: size %zu, the model says %zu", what, c.size(), s.m.size());
  SIM_CHECK(c.max_size() == c.capacity() && c.size() <= c.capacity() && static_cast<size_t>(c.end() - c.begin()) == c.size(), "wrong-size", "%s: sizes disagree", what);
  live += c.size();
  size_t i = 0;
  for (auto& e : c) {
    SIM_CHECK(Alive(e), "element-not-alive", "%s: element %zu of %zu is not alive", what, i, c.size());
    SIM_CHECK(ValOf(e) == s.m[i], "wrong-contents", "%s: element %zu of %zu is %d, the model says %d", what, i, c.size(), ValOf(e), s.m[i]);
    SIM_CHECK(&c[i] == &e && &v.at(i) == &e && &c.at(i) == &e && &v[i] == &e && c.data() + i == &e && &*(c.rbegin() + (c.size() - 1 - i)) == &e && &*(v.begin() + i) == &e
                  && &*(c.cbegin() + i) == &e, "wrong-access", "%s: accesses to element %zu disagree", what, i);
    ++i;
  }
  SIM_CHECK(i == s.m.size() && c.rend() - c.rbegin() == static_cast<ptrdiff_t>(i), "wrong-size", "%s: iteration sees %zu elements, the model says %zu", what, i, s.m.size());
  if (i) SIM_CHECK(&c.front() == &c[0] && &c.back() == &c[i - 1] && &v.front() == &c[0] && &v.back() == &c[i - 1], "wrong-access", "%s: front or back is wrong", what);
}
template <class V>
void Adopt(Slot<V>& s) {  // after an element failure: valid, contents unspecified
  s.m.clear();
  SIM_CHECK(s.v->size() <= s.v->capacity(), "wrong-size", "size beyond capacity after a failure");
  for (auto& e : *s.v) {
    SIM_CHECK(Alive(e), "element-not-alive", "after a failed operation element %zu of %zu is not alive", s.m.size(), s.v->size());
    s.m.push_back(ValOf(e));
  }
}
bool AnyMoved(const Model& m) {
  for (int v : m)
    if (v == kMoved) return true;
  return false;
}

// One operation that changes s.v; other is of the same type.
template <class E, class V>
void Change(const char* name, Slot<V>& s, Slot<V>& o, size_t cap) {
  V& v = *s.v;
  Model& m = s.m;
  const Model old = m;
  const uint32_t op = sim::Choose(26);
  const size_t n = m.size(), at = sim::Choose(n + 1), k = n ? sim::Choose(n) : 0;
  const int val = NewVal();
  const size_t cnt = sim::Choose(4);
  Out out = Out::kOk;
  size_t need = 0;        // elements wanted in all
  bool append = false;    // a failure leaves everything as it was
  Model want = m;
  ptrdiff_t got = -1, expect = -1;  // returned position
  auto pos = [&](auto it) { got = it - v.begin(); };
  std::vector<E> src;
  auto fill = [&](size_t c) {
    Model vals;
    for (size_t i = 0; i < c; ++i) vals.push_back(NewVal());
    src.assign(vals.begin(), vals.end());
    return vals;
  };
  bool from_moved = false;
  sim::Note("%s: op %u at %zu of %zu (capacity %zu)", name, op, at, n, cap);
  switch (op) {
    case 0: case 1: {
      append = true; need = n + 1; want.push_back(val);
      const E e(val);
      out = Try([&] { auto& r = v.push_back(e); SIM_CHECK(&r == &v.back(), "wrong-result", "push_back returns another element"); });
      break;
    }
    case 2: append = true; need = n + 1; want.push_back(val); out = Try([&] { v.push_back(E(val)); }); break;
    case 3:
      append = true; need = n + 1;
      if constexpr (std::same_as<E, int>) { want.push_back(val); out = Try([&] { v.emplace_back(val); }); }
      else { want.push_back(val * 1000 + 1); out = Try([&] { auto& r = v.emplace_back(val, 1); SIM_CHECK(&r == &v.back(), "wrong-result", "emplace_back returns another element"); }); }
      break;
    case 4:
      if (!n || m[k] == kMoved) return;
      append = true; need = n + 1; want.push_back(m[k]);
      out = Try([&] { v.push_back(std::as_const(v[k])); });
      sim::Probe("argument is an own element");
      break;
    case 5:
      need = n;
      if (!n) { out = Try([&] { v.pop_back(); }); SIM_CHECK(out == Out::kRejected, "not-rejected", "pop_back of an empty vector is accepted"); out = Out::kOk; break; }
      want.pop_back(); out = Try([&] { v.pop_back(); }); break;
    case 6: case 7: { need = n + 1; want.insert(want.begin() + at, val); E e(val); expect = at; out = Try([&] { pos(v.insert(v.begin() + at, std::move(e))); }); break; }
    case 8: { need = n + 1; want.insert(want.begin() + at, val); const E e(val); expect = at; out = Try([&] { pos(v.insert(v.begin() + at, e)); }); break; }
    case 9: { need = n + cnt; want.insert(want.begin() + at, cnt, val); const E e(val); expect = at; out = Try([&] { pos(v.insert(v.begin() + at, cnt, e)); }); break; }
    case 10: case 11: {
      const Model vals = fill(cnt);
      need = n + cnt; want.insert(want.begin() + at, vals.begin(), vals.end()); expect = at;
      out = Try([&] { pos(v.insert(v.begin() + at, src.begin(), src.end())); });
      break;
    }
    case 12: { need = n + 2; want.insert(want.begin() + at, {val, 3}); expect = at; out = Try([&] { pos(v.insert(v.begin() + at, {E(val), E(3)})); }); break; }
    case 13:
      if (!n || m[k] == kMoved) return;
      need = n + 1; want.insert(want.begin() + at, m[k]); expect = at;
      out = Try([&] { if (val & 1) pos(v.insert(v.begin() + at, std::as_const(v[k]))); else pos(v.emplace(v.begin() + at, std::as_const(v[k]))); });
      sim::Probe("argument is an own element");
      break;
    case 14: {
      if (!n || m[k] == kMoved) return;
      need = n + cnt; want.insert(want.begin() + at, cnt, m[k]); expect = at;
      out = Try([&] { pos(v.insert(v.begin() + at, cnt, std::as_const(v[k]))); });
      break;
    }
    case 15: case 16:
      need = n + 1; expect = at;
      if constexpr (std::same_as<E, int>) { want.insert(want.begin() + at, val); out = Try([&] { pos(v.emplace(v.begin() + at, val)); }); }
      else { want.insert(want.begin() + at, val * 1000 + 2); out = Try([&] { pos(v.emplace(v.begin() + at, val, 2)); }); }
      break;
    case 17: case 18:
      if (!n) return;
      need = n; want.erase(want.begin() + k); expect = k;
      out = Try([&] { pos(v.erase(v.begin() + k)); }, false);
      break;
    case 19: case 20: {
      const size_t to = at + sim::Choose(n - at + 1);
      need = n; want.erase(want.begin() + at, want.begin() + to); expect = at;
      out = Try([&] { pos(v.erase(v.begin() + at, v.begin() + to)); }, false);
      break;
    }
    case 21: { const size_t to = sim::Choose(cap + 2); need = to; want.resize(to); out = Try([&] { v.resize(to); }); break; }
    case 22: {
      need = sim::Choose(cap + 2); want.assign(need, val);
      const E e(val);
      out = Try([&] { v.assign(need, e); });
      break;
    }
    case 23: {
      const Model vals = fill(sim::Choose(cap + 2));
      need = vals.size(); want = vals;
      if (val & 1) {
        out = Try([&] { v.assign(src.begin(), src.end()); });
        for (size_t i = 0; i < src.size(); ++i) SIM_CHECK(ValOf(src[i]) == vals[i], "source-changed", "assigning from iterators changed the source");
      } else {
        need = 3; want = {vals.empty() ? 5 : vals[0], val, 7};
        out = Try([&] { v.assign({E(want[0]), E(val), E(7)}); });
      }
      break;
    }
    case 24:
      switch (sim::Choose(5)) {
        case 0: v.clear(); want.clear(); break;
        case 1: if (!o.v || AnyMoved(o.m)) return; v = std::as_const(*o.v); want = o.m; if (o.v == &v) sim::Probe("self-assignment"); break;
        case 2: if (!o.v) return; want = o.m; v = std::move(*o.v); if (o.v == &v) sim::Probe("self-assignment"); else from_moved = true; break;
        case 3: { if (!o.v) return; v.swap(*o.v); want = o.m; if (&o != &s) o.m = m; break; }
        default:
          if (cap < 2) { v.clear(); want.clear(); break; }
          v = {E(val), E(4)}; want = {val, 4};
      }
      need = 0;
      break;
    default: {  // misuse
      const size_t bad = n + sim::Choose(3);
      switch (sim::Choose(5)) {
        case 0: out = Try([&] { (void)v.at(bad); }, false); break;
        case 1: out = Try([&] { (void)std::as_const(v)[bad]; }, false); break;
        case 2: out = Try([&] { v.reserve(cap + 1 + bad); }, false); break;
        case 3: out = Try([&] { v.erase(v.end()); }, false); break;
        default: out = Try([&] { v.reserve(cap); }, false); if (out == Out::kOk) out = Out::kRejected;
      }
      SIM_CHECK(out == Out::kRejected, "not-rejected", "a use beyond the contents is accepted");
      out = Out::kOk;
      need = n;
    }
  }
  sim::Ev("%s: op %u at %zu/%zu -> %s", name, op, at, n, Name(out));
  ++g_steps;
  if (need > cap) {
    // Elements may fail before the capacity is noticed.
    SIM_CHECK(out != Out::kOk, "not-rejected", "%s: %zu elements are accepted with a capacity of %zu", name, need, cap);
    if (out == Out::kRejected) want = old;
  } else {
    SIM_CHECK(out != Out::kRejected, "wrongly-rejected", "%s: op %u with %zu of %zu elements is rejected", name, op, need, cap);
  }
  if (out == Out::kFailed) {
    if (append) m = old;
    else Adopt(s);
  } else {
    m = want;
    if (out == Out::kOk && expect >= 0) SIM_CHECK(got == expect, "wrong-result", "%s: op %u returns position %td, expected %td", name, op, got, expect);
  }
  if (from_moved) Adopt(o);
  if (out == Out::kRejected && (op == 21 || op == 22 || op == 23 || op == 10 || op == 11 || op == 12)) sim::Probe("rejected bulk operation");
  if (n == cap) sim::Probe("operation on a full vector");
  sim::State(sim::Hash64(name, op * 4096 + n * 256 + at * 16 + static_cast<int>(out)));
}

template <class E, class V, class W>
void Construct(Slot<V>& s, Slot<V>& o, Slot<W>& b, size_t cap) {
  const uint32_t op = sim::Choose(9);
  Out out = Out::kOk;
  Model want;
  size_t need = 0;
  std::vector<E> src;
  switch (op) {
    case 0: s.v = new (s.buf) V(); break;
    case 1: case 2: {
      for (size_t i = sim::Choose(cap + 2); i > 0; --i) want.push_back(NewVal());
      src.assign(want.begin(), want.end());
      need = want.size();
      out = Try([&] { s.v = new (s.buf) V(src.begin(), src.end()); });
      for (size_t i = 0; i < src.size(); ++i) SIM_CHECK(ValOf(src[i]) == want[i], "source-changed", "constructing from iterators changed the source");
      break;
    }
    case 3: want = {4, 5}; need = 2; out = Try([&] { s.v = new (s.buf) V({E(4), E(5)}); }); break;
    case 4: want = {4, 5, 6, 7}; need = 4; out = Try([&] { s.v = new (s.buf) V(std::initializer_list<E>{E(4), E(5), E(6), E(7)}); }); break;
    case 5: if (!o.v || &o == &s || AnyMoved(o.m)) return; want = o.m; s.v = new (s.buf) V(std::as_const(*o.v)); break;
    case 6: if (!o.v || &o == &s) return; want = o.m; s.v = new (s.buf) V(std::move(*o.v)); Adopt(o); break;
    default:
      if constexpr (requires(W& w) { V(std::as_const(w)); }) {
        if (!b.v || AnyMoved(b.m)) return;
        want = b.m;
        if (op == 7) s.v = new (s.buf) V(std::as_const(*b.v));
        else { s.v = new (s.buf) V(std::move(*b.v)); Adopt(b); }
        sim::Probe("from a smaller vector");
      } else return;
  }
  ++g_steps;
  sim::Ev("construct %u -> %s", op, Name(out));
  if (need > cap) SIM_CHECK(out != Out::kOk, "not-rejected", "construction with %zu elements is accepted with a capacity of %zu", need, cap);
  else SIM_CHECK(out != Out::kRejected, "wrongly-rejected", "construction with %zu of %zu elements is rejected", need, cap);
  if (out == Out::kOk) s.m = want;
  else s.v = nullptr;
  sim::State(sim::Hash64("construct", op * 64 + need * 4 + static_cast<int>(out)));
}

template <class E, size_t N, size_t M>
void RunVec() {
  using V = LimitedVector<E, N>;
  using W = LimitedVector<E, LimitedOptions<M>{}>;
  static Slot<V> a[2];
  static Slot<W> b[2];
  const size_t base = el::Live().size();
  auto audit = [&] {
    size_t live = 0;
    Audit("a0", a[0], live); Audit("a1", a[1], live); Audit("b0", b[0], live); Audit("b1", b[1], live);
    if constexpr (std::same_as<E, Elem>)
      SIM_CHECK(el::Live().size() == base + live, el::Live().size() > base + live ? "element-leaked" : "element-lost", "%zu elements are alive, the containers hold %zu", el::Live().size() - base, live);
  };
  for (int steps = 5 + sim::Choose(20); steps > 0; --steps) {
    sim::Span span("op");
    const int i = sim::Choose(2), j = sim::Choose(2);
    const uint32_t what = sim::Choose(16);
    if (what == 0) { a[i].Destroy(); sim::Ev("destroy"); }
    else if (what == 1 && a[i].v && b[j].v) {
      const Model &x = a[i].m, &y = b[j].m;
      if (!AnyMoved(x) && !AnyMoved(y)) {
        const auto &p = *a[i].v; const auto& q = *b[j].v;
        SIM_CHECK((p == q) == (x == y) && (p < q) == (x < y) && ((p <=> q) == 0) == (x == y) && ((p <=> q) < 0) == (x < y), "wrong-comparison", "vectors compare wrongly");
      }
    } else if (what == 2 && a[i].v && b[j].v) {  // across capacities
      switch (sim::Choose(3)) {
        case 0: if (AnyMoved(a[i].m)) continue; *b[j].v = std::as_const(*a[i].v); b[j].m = a[i].m; break;
        case 1: *b[j].v = std::move(*a[i].v); b[j].m = a[i].m; Adopt(a[i]); break;
        default: {
          const bool fits = b[j].m.size() <= N;
          const Out out = Try([&] { b[j].v->swap(*a[i].v); }, false);
          SIM_CHECK((out == Out::kOk) == fits, fits ? "wrongly-rejected" : "not-rejected", "swap of %zu and %zu elements is %s", b[j].m.size(), a[i].m.size(), Name(out));
          if (out == Out::kOk) std::swap(a[i].m, b[j].m);
        }
      }
      sim::Ev("across");
      ++g_steps;
    } else if (what < 9) {
      if (a[i].v) Change<E>("a", a[i], a[j], N);
      else Construct<E>(a[i], a[j], b[j], N);
    } else {
      if (b[i].v) Change<E>("b", b[i], b[j], M);
      else Construct<E>(b[i], b[j], a[j], M);
    }
    audit();
  }
  for (auto& s : a) s.Destroy();
  for (auto& s : b) s.Destroy();
  audit();
}
void Run() {
  switch (sim::ChooseIndexed(5)) {
    case 0: RunVec<Elem, 5, 8>(); break;
    case 1: RunVec<Elem, 3, 4>(); break;
    case 2: RunVec<Elem, 1, 2>(); break;
    case 3: RunVec<int, 4, 7>(); break;
    default: RunVec<Elem, 6, 17>();
  }
  if (g_steps >= 4 && g_fails + g_rejects > 0) sim::NonTrivial();
}
}  // namespace
const SimHarness kSimHarness = {"C21", Run, nullptr};
