// C23: histories over value wrappers, with element operations and allocations failing, against a plain model.
#include <optional>
#include <vector>

#include "harness/elem.h"
#include "mbo/types/opaque.h"
#include "mbo/types/optional_data_or_ref.h"
#include "mbo/types/optional_ref.h"
#include "mbo/types/ref_wrap.h"
#include "mbo/types/required.h"

using Elem = el::ElemT<0>;
using Fixed = el::ElemT<1, false>;  // movable, not assignable
namespace el {
MBO_TYPES_OPAQUE_HOOKS(ElemT<0>);
}
namespace std {
MBO_TYPES_OPAQUE_HOOKS(std::vector<int>);
}
using mbo::types::OpaqueContainer, mbo::types::OpaquePtr, mbo::types::OpaqueValue, mbo::types::OptionalDataOrConstRef,
    mbo::types::OptionalDataOrRef, mbo::types::OptionalRef, mbo::types::RefWrap, mbo::types::Required;

// Allocation failures.
void* operator new(size_t n) {
  if (el::Countdown() != 0 && el::Due()) {
    sim::Fault("allocation fails");
    throw std::bad_alloc();
  }
  void* p = malloc(n);
  if (p == nullptr) abort();
  return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

namespace {
constexpr int kMoved = -1000000;  // model: a moved-from value (alive, content unspecified)
size_t g_fails = 0;
int g_steps = 0;

int NewVal() {
  static int n = 0;
  return sim::Choose(3) == 0 ? static_cast<int>(sim::Choose(4)) : 10 + ++n;
}
// Runs f with a failure armed; true if it failed.
template <class F>
bool Try(F f) {
  const uint32_t arm = sim::Chance(1, 3) ? 1 + sim::Choose(4) : 0;
  el::Arm(arm);
  try {
    f();
  } catch (const el::Error&) {
  } catch (const std::bad_alloc&) {
  }
  const bool failed = el::Thrown();
  el::Disarm();
  if (failed) ++g_fails;
  return failed;
}
template <class E>
int ValOf(const E& e) { return e.IsMoved() ? kMoved : e.Val(); }
void Is(const char* what, int got, int want) {
  SIM_CHECK(got == want, "wrong-value", "%s: value is %d, the model says %d", what, got, want);
}
// Objects referenced by wrappers, owned by nobody but this harness.
struct Foreign {
  Elem* obj[3];
  int val[3];
  Foreign() {
    for (int i = 0; i < 3; ++i) obj[i] = new Elem(val[i] = 100 + i);
  }
  void Check() {
    for (int i = 0; i < 3; ++i) {
      SIM_CHECK(obj[i]->IsLive(), "foreign-object-destroyed", "a referenced object was destroyed");
      Is("referenced object", ValOf(*obj[i]), val[i]);
    }
  }
  void Free() {
    for (auto* p : obj) delete p;
  }
};
Foreign* g_f;
void LiveCount(size_t want) {
  SIM_CHECK(el::Live().size() == want, el::Live().size() > want ? "value-leaked" : "value-lost", "%zu elements are alive, the model says %zu", el::Live().size(), want);
}
#define OP(...) (++g_steps, sim::Ev(__VA_ARGS__))

// ------------------------------------------------------------- Required
template <class E>
void RunRequired() {
  constexpr int kN = 3;
  using W = Required<E>;
  alignas(W) static char buf[kN][sizeof(W)];
  W* w[kN] = {};
  int m[kN] = {};
  auto at = [&](int i) { return reinterpret_cast<W*>(buf[i]); };
  auto audit = [&] {
    size_t n = 3;
    for (int i = 0; i < kN; ++i)
      if (w[i]) {
        ++n;
        const W& c = *w[i];
        SIM_CHECK(c.get().IsLive(), "value-lost", "a required value is not alive");
        Is("required", ValOf(c.get()), m[i]);
        SIM_CHECK(&*c == &c.get() && c.operator->() == &c.get() && &static_cast<const E&>(c) == &c.get() && &**w[i] == &c.get()
                      && &static_cast<E&>(*w[i]) == &c.get() && w[i]->operator->() == &c.get(), "wrong-access", "accessors of a required value disagree");
      }
    LiveCount(n);
    g_f->Check();
  };
  for (int steps = 3 + sim::Choose(12); steps > 0; --steps) {
    sim::Span span("op");
    const int i = sim::Choose(kN), j = sim::Choose(kN), v = NewVal();
    const uint32_t op = sim::Choose(12);
    const bool usable = w[j] && m[j] != kMoved;
    if (!w[i]) {
      bool failed = false;
      int want = v;
      switch (op) {
        case 0: case 1: failed = Try([&] { w[i] = new (at(i)) W(); }); want = 0; break;
        case 2: case 3: { E e(v); failed = Try([&] { w[i] = new (at(i)) W(std::move(e)); }); break; }
        case 4: failed = Try([&] { w[i] = new (at(i)) W(v); }); break;
        case 5: failed = Try([&] { w[i] = new (at(i)) W(std::in_place, v, 7); }); want = v * 1000 + 7; break;
        case 6: failed = Try([&] { w[i] = new (at(i)) W(std::in_place); }); want = 0; break;
        case 7: case 8: case 9:
          if (!usable) continue;
          if (op != 9) failed = Try([&] { w[i] = new (at(i)) W(std::as_const(*w[j])); });
          else failed = Try([&] { w[i] = new (at(i)) W(*w[j]); });
          want = m[j];
          break;
        default:
          if (!w[j]) continue;
          failed = Try([&] { w[i] = new (at(i)) W(std::move(*w[j])); });
          want = m[j];
          m[j] = kMoved;
      }
      OP("required %d: construct by %u -> %s", i, op, failed ? "failed" : "ok");
      if (failed) w[i] = nullptr;
      else m[i] = want;
    } else {
      int want = v;
      bool failed = false;
      switch (op) {
        case 0: w[i]->~W(); w[i] = nullptr; OP("required %d: destroy", i); audit(); continue;
        case 1: case 2: { E e(v); failed = Try([&] { w[i]->emplace(std::move(e)); }); break; }
        case 3: failed = Try([&] { w[i]->emplace(v); }); break;
        case 4: case 5: failed = Try([&] { w[i]->emplace(v, 9); }); want = v * 1000 + 9; break;
        case 6: failed = Try([&] { w[i]->emplace(); }); want = 0; break;
        case 7: {
          if (!usable) continue;
          want = m[j];
          failed = Try([&] { w[i]->emplace(std::as_const(**w[j])); });  // may be its own value
          if (j == i) sim::Probe("emplace from the own value");
          break;
        }
        case 8: case 9:
          if constexpr (std::is_copy_assignable_v<E>) {
            if (!usable) continue;
            want = m[j];
            failed = Try([&] { *w[i] = std::as_const(*w[j]); });
            if (j == i) sim::Probe("self-assignment");
          } else continue;
          break;
        case 10:
          if constexpr (std::is_copy_assignable_v<E>) {
            if (!w[j]) continue;
            want = m[j];
            *w[i] = std::move(*w[j]);
            if (i != j) m[j] = kMoved;
            else sim::Probe("self-assignment");
          } else continue;
          break;
        default:
          if (!w[j] || i == j || !usable || m[i] == kMoved) continue;
          SIM_CHECK(((*w[i] <=> **w[j]) == (m[i] <=> m[j])), "wrong-comparison", "required values %d and %d compare wrongly", m[i], m[j]);
          want = m[i];
      }
      OP("required %d: change by %u (%d) -> %s", i, op, j, failed ? "failed" : "ok");
      // After a failed change there is still exactly one value: the old one.
      if (!failed) m[i] = want;
    }
    audit();
    sim::State(sim::Hash64("req", op * 64 + i * 8 + j + (w[i] ? 1000 : 0) + (m[i] == kMoved ? 2000 : 0)));
  }
  for (int i = 0; i < kN; ++i)
    if (w[i]) w[i]->~W();
}

// ------------------------------------------------------------- OptionalDataOrRef
struct OptModel {
  enum Kind { kNone, kData, kRef } kind = kNone;
  int val = 0;  // data
  int ref = -1;
};
template <class W>
void RunOptional(bool const_ref) {
  constexpr int kN = 3;
  alignas(W) static char buf[kN][sizeof(W)];
  W* w[kN] = {};
  OptModel m[kN];
  auto at = [&](int i) { return reinterpret_cast<W*>(buf[i]); };
  auto value = [&](int i) { return m[i].kind == OptModel::kData ? m[i].val : g_f->val[m[i].ref]; };
  auto audit = [&] {
    size_t n = 3;
    for (int i = 0; i < kN; ++i) {
      if (!w[i]) continue;
      const W& c = *w[i];
      const OptModel& mm = m[i];
      SIM_CHECK(c.HoldsData() == (mm.kind == OptModel::kData) && c.HoldsReference() == (mm.kind == OptModel::kRef)
                    && c.HoldsNullopt() == (mm.kind == OptModel::kNone) && c.has_value() == (mm.kind != OptModel::kNone)
                    && static_cast<bool>(c) == c.has_value() && (c == std::nullopt) == !c.has_value(),
                "wrong-state", "optional: data/ref/none %d/%d/%d, the model says %d", c.HoldsData(), c.HoldsReference(), c.HoldsNullopt(), mm.kind);
      if (mm.kind == OptModel::kNone) {
        const Elem dflt(55);
        Is("get(default)", c.get(dflt).Val(), 55);
        continue;
      }
      if (mm.kind == OptModel::kData) {
        ++n;
        SIM_CHECK(c.value().IsLive(), "value-lost", "an optional's data is not alive");
        for (auto* p : g_f->obj) SIM_CHECK(&c.value() != p, "wrong-state", "an optional's data is a foreign object");
      } else {
        SIM_CHECK(&c.value() == g_f->obj[mm.ref], "wrong-reference", "an optional refers to another object than it was told");
      }
      SIM_CHECK(&*c == &c.value() && c.operator->() == &c.value() && &**w[i] == &c.value() && w[i]->operator->() == &c.value(), "wrong-access", "accessors of an optional disagree");
      Is("optional", ValOf(c.value()), value(i));
      if (value(i) != kMoved) {
        const Elem dflt(55);
        Is("get(default)", c.get(dflt).Val(), value(i));
      }
    }
    LiveCount(n);
    g_f->Check();
  };
  for (int steps = 4 + sim::Choose(14); steps > 0; --steps) {
    sim::Span span("op");
    const int i = sim::Choose(kN), j = sim::Choose(kN), v = NewVal(), r = sim::Choose(3);
    const uint32_t op = sim::Choose(16);
    const OptModel before = m[i];
    if (!w[i]) {
      switch (op) {
        case 0: w[i] = new (at(i)) W(); m[i] = {}; break;
        case 1: w[i] = new (at(i)) W(std::nullopt); m[i] = {}; break;
        case 2: case 3: case 4: { Elem e(v); w[i] = new (at(i)) W(std::move(e)); m[i] = {OptModel::kData, v}; break; }
        case 5: case 6: case 7: w[i] = new (at(i)) W(*g_f->obj[r]); m[i] = {OptModel::kRef, 0, r}; break;
        case 8: if (!const_ref) continue;
          if constexpr (std::is_const_v<std::remove_reference_t<typename W::reference>>) w[i] = new (at(i)) W(std::as_const(*g_f->obj[r]));
          m[i] = {OptModel::kRef, 0, r};
          break;
        case 9: case 10: case 11:
          if (!w[j]) continue;
          w[i] = new (at(i)) W(std::as_const(*w[j])); m[i] = m[j];
          break;
        default:
          if (!w[j]) continue;
          w[i] = new (at(i)) W(std::move(*w[j])); m[i] = m[j];
          if (m[j].kind == OptModel::kData) m[j] = {};
      }
      OP("optional %d: construct by %u (%d)", i, op, j);
    } else {
      switch (op) {
        case 0: w[i]->~W(); w[i] = nullptr; break;
        case 1: w[i]->reset(); m[i] = {}; break;
        case 2: SIM_CHECK(&(*w[i] = std::nullopt) == w[i], "wrong-result", "assigning nullopt returns another object"); m[i] = {}; break;
        case 3: case 4: w[i]->set_ref(*g_f->obj[r]); m[i] = {OptModel::kRef, 0, r}; break;
        case 5: w[i]->emplace(v, 3); m[i] = {OptModel::kData, v * 1000 + 3}; break;
        case 6: w[i]->emplace(v); m[i] = {OptModel::kData, v}; break;
        case 7: { Elem e(v); *w[i] = std::move(e); m[i] = {OptModel::kData, v}; break; }
        case 8: {  // from an lvalue: through to the current value, else new data
          Elem e(v);
          if constexpr (!std::is_const_v<std::remove_reference_t<typename W::reference>>) {
            *w[i] = e;
            if (m[i].kind == OptModel::kRef) g_f->val[m[i].ref] = v;
            else m[i] = {OptModel::kData, v};
          } else continue;
          break;
        }
        case 9: {  // make it data
          if (m[i].kind == OptModel::kNone) { Is("as_data", w[i]->as_data(v).Val(), v); m[i] = {OptModel::kData, v}; }
          else { const int now = value(i); Elem& d = w[i]->as_data(v); Is("as_data", ValOf(d), now); m[i] = {OptModel::kData, now}; }
          SIM_CHECK(&w[i]->as_data() == &w[i]->value(), "wrong-access", "as_data and value disagree");
          break;
        }
        case 10: case 11:
          if (!w[j]) continue;
          *w[i] = std::as_const(*w[j]);
          m[i] = m[j];
          if (j == i) sim::Probe("self-assignment");
          break;
        case 12: case 13:
          if (!w[j]) continue;
          *w[i] = std::move(*w[j]);
          if (i == j) { sim::Probe("self-assignment"); break; }
          m[i] = m[j];
          if (m[j].kind == OptModel::kData) m[j] = {};
          break;
        case 14:  // write through
          if (m[i].kind == OptModel::kNone) continue;
          if constexpr (!std::is_const_v<std::remove_reference_t<typename W::reference>>) {
            w[i]->value() = Elem(v);
            (m[i].kind == OptModel::kData ? m[i].val : g_f->val[m[i].ref]) = v;
          } else continue;
          break;
        default: {
          if (!w[j]) continue;
          const bool bi = m[i].kind != OptModel::kNone, bj = m[j].kind != OptModel::kNone;
          const bool eq = bi == bj && (!bi || value(i) == value(j)), lt = bi != bj ? !bi : bi && value(i) < value(j);
          const W &a = *w[i], &b = *w[j];
          SIM_CHECK((a == b) == eq && (a < b) == lt, "wrong-comparison", "optionals compare ==%d <%d, the model says ==%d <%d", a == b, a < b, eq, lt);
        }
      }
      OP("optional %d: change by %u (%d)", i, op, j);
      if (before.kind == OptModel::kRef && w[i] && m[i].kind == OptModel::kData) sim::Probe("reference replaced by data");
    }
    audit();
    sim::State(sim::Hash64("opt", op * 64 + before.kind * 8 + m[j].kind + (w[i] ? 0 : 4000) + const_ref * 10000));
  }
  for (int i = 0; i < kN; ++i)
    if (w[i]) w[i]->~W();
}

// ------------------------------------------------------------- references
void RunRefs() {
  RefWrap<Elem> rw[2] = {*g_f->obj[0], *g_f->obj[1]};
  int mr[2] = {0, 1};
  OptionalRef<Elem> orf[2];
  int mo[2] = {-1, -1};
  for (int steps = 4 + sim::Choose(12); steps > 0; --steps) {
    sim::Span span("op");
    const int i = sim::Choose(2), r = sim::Choose(3), v = NewVal();
    const uint32_t op = sim::Choose(12);
    switch (op) {
      case 0: case 1: rw[i] = *g_f->obj[r]; mr[i] = r; break;
      case 2: rw[i] = std::as_const(rw[1 - i]); mr[i] = mr[1 - i]; break;
      case 3: { RefWrap<Elem> c(rw[i]); c = *g_f->obj[r]; break; }
      case 4: rw[i].get() = Elem(v); g_f->val[mr[i]] = v; break;
      case 5: case 6: orf[i].set_ref(*g_f->obj[r]); mo[i] = r; break;
      case 7: orf[i].reset(); mo[i] = -1; break;
      case 8: {
        if (mo[i] < 0) continue;
        Elem e(v);
        if (v & 1) {
          if (Try([&] { orf[i].value() = std::as_const(e); })) continue;  // through the reference, may fail
        } else orf[i] = std::move(e);
        g_f->val[mo[i]] = v;
        break;
      }
      case 9: {
        OptionalRef<Elem> c(orf[i]);
        SIM_CHECK(c.has_value() == (mo[i] >= 0), "wrong-state", "a copied reference differs");
        c.set_ref(*g_f->obj[r]);
        break;
      }
      case 10: {
        const bool bi = mo[i] >= 0, bj = mo[1 - i] >= 0;
        const int a = bi ? g_f->val[mo[i]] : 0, b = bj ? g_f->val[mo[1 - i]] : 0;
        const bool eq = bi == bj && (!bi || a == b), lt = bi != bj ? !bi : bi && a < b;
        SIM_CHECK((orf[i] == orf[1 - i]) == eq && (orf[i] < orf[1 - i]) == lt, "wrong-comparison", "optional references compare wrongly");
        break;
      }
      default: {
        const auto want = g_f->val[mr[i]] <=> g_f->val[mr[1 - i]];
        SIM_CHECK((rw[i].get() <=> rw[1 - i].get()) == want, "wrong-comparison", "references compare wrongly");
      }
    }
    OP("refs %d: %u (%d)", i, op, r);
    for (int k = 0; k < 2; ++k) {
      SIM_CHECK(&rw[k].get() == g_f->obj[mr[k]] && &*rw[k] == &rw[k].get() && rw[k].operator->() == &rw[k].get(), "wrong-reference", "a reference wrapper refers to another object");
      SIM_CHECK(orf[k].has_value() == (mo[k] >= 0) && static_cast<bool>(orf[k]) == (mo[k] >= 0) && (orf[k] == std::nullopt) == (mo[k] < 0), "wrong-state", "an optional reference is set wrongly");
      if (mo[k] >= 0) SIM_CHECK(&orf[k].value() == g_f->obj[mo[k]] && &*orf[k] == g_f->obj[mo[k]] && orf[k].operator->() == g_f->obj[mo[k]], "wrong-reference", "an optional reference refers to another object");
    }
    LiveCount(3);
    g_f->Check();
    sim::State(sim::Hash64("ref", op * 64 + mr[0] * 16 + mr[1] * 4 + mo[i] + 1));
  }
}

// ------------------------------------------------------------- opaque values
void RunOpaque() {
  constexpr int kN = 3;
  using W = OpaqueValue<Elem>;
  std::optional<W> w[kN];
  int m[kN] = {};
  bool null[kN] = {};  // moved from: may only be assigned or destroyed
  for (int steps = 4 + sim::Choose(12); steps > 0; --steps) {
    sim::Span span("op");
    const int i = sim::Choose(kN), j = sim::Choose(kN), v = NewVal();
    const uint32_t op = sim::Choose(10);
    bool failed = false;
    const bool usable = w[j] && !null[j];
    if (!w[i]) {
      int want = v;
      switch (op) {
        case 0: case 1: failed = Try([&] { w[i].emplace(); }); want = 0; break;
        case 2: case 3: failed = Try([&] { w[i].emplace(v); }); break;
        case 4: failed = Try([&] { w[i].emplace(v, 5); }); want = v * 1000 + 5; break;
        case 5: case 6: case 7:
          if (!usable || m[j] == kMoved) continue;
          failed = Try([&] { w[i].emplace(std::as_const(*w[j])); });
          want = m[j];
          break;
        default:
          if (!usable) continue;
          failed = Try([&] { w[i].emplace(std::move(*w[j])); });
          if (!failed) want = m[j], null[j] = true;
      }
      if (!failed) m[i] = want, null[i] = false;
      else w[i].reset();
    } else {
      switch (op) {
        case 0: w[i].reset(); break;
        case 1: case 2: case 3:
          if (!usable || m[j] == kMoved) continue;
          failed = Try([&] { *w[i] = std::as_const(*w[j]); });
          if (!failed) m[i] = m[j], null[i] = false;
          if (i == j) sim::Probe("self-assignment");
          break;
        case 4: case 5:
          if (!usable || i == j) continue;
          *w[i] = std::move(*w[j]);
          m[i] = m[j], null[i] = false, null[j] = true;
          break;
        case 6: case 7:
          if (null[i]) continue;
          **w[i] = Elem(v);
          m[i] = v;
          break;
        default:
          if (!usable || null[i] || m[i] == kMoved || m[j] == kMoved) continue;
          SIM_CHECK(((*w[i] <=> *w[j]) == (m[i] <=> m[j])), "wrong-comparison", "opaque values compare wrongly");
      }
    }
    OP("opaque %d: %u (%d) -> %s", i, op, j, failed ? "failed" : "ok");
    size_t n = 3;
    for (int k = 0; k < kN; ++k) {
      if (!w[k] || null[k]) continue;
      ++n;
      const W& c = *w[k];
      SIM_CHECK((*c).IsLive() && c.operator->() == &*c && &**w[k] == &*c, "wrong-access", "accessors of an opaque value disagree");
      Is("opaque", ValOf(*c), m[k]);
      for (int l = 0; l < k; ++l)
        if (w[l] && !null[l]) SIM_CHECK(&**w[l] != &**w[k], "shared-value", "two opaque values share one object");
    }
    LiveCount(n);
    g_f->Check();
    sim::State(sim::Hash64("opq", op * 64 + i * 8 + j + failed * 1000 + null[i] * 2000));
  }
}
void RunContainer() {
  using W = OpaqueContainer<std::vector<int>>;
  std::optional<W> a, b;
  a.emplace();
  std::vector<int> ma, mb;
  for (int steps = 4 + sim::Choose(10); steps > 0; --steps) {
    sim::Span span("op");
    const int v = NewVal();
    const uint32_t op = sim::Choose(7);
    bool failed = false;
    switch (op) {
      case 0: case 1: failed = Try([&] { a->push_back(v); }); if (!failed) ma.push_back(v); break;
      case 2: if (ma.empty()) continue; a->pop_back(); ma.pop_back(); break;
      case 3: failed = Try([&] { a->emplace_back(v); }); if (!failed) ma.push_back(v); break;
      case 4: if (ma.empty()) continue; (*a)[sim::Choose(ma.size())] = 3; { size_t k = 0; for (int x : *a) ma[k++] = x; } break;
      case 5: { std::optional<W> t; failed = Try([&] { t.emplace(std::as_const(*a)); }); if (!failed) { b = std::move(t); mb = ma; } break; }
      default: { const size_t n = sim::Choose(5); failed = Try([&] { a->resize(n); }); if (!failed) ma.resize(n); }
    }
    OP("container: %u -> %s", op, failed ? "failed" : "ok");
    SIM_CHECK(a->size() == ma.size() && a->empty() == ma.empty() && std::vector<int>(a->begin(), a->end()) == ma, "wrong-value", "an opaque container differs from its model");
    if (b) SIM_CHECK(std::vector<int>(b->begin(), b->end()) == mb, "wrong-value", "a copied opaque container differs from its model");
    sim::State(sim::Hash64("cont", op * 64 + std::min<size_t>(ma.size(), 8)));
  }
}

void Run() {
  static Foreign f;
  g_f = &f;
  const int rounds = 1 + sim::Choose(2);
  for (int k = 0; k < rounds; ++k) {
    sim::Span span("round");
    switch (sim::ChooseIndexed(7)) {
      case 0: RunRequired<Elem>(); break;
      case 1: RunRequired<Fixed>(); break;
      case 2: RunOptional<OptionalDataOrRef<Elem>>(false); break;
      case 3: RunOptional<OptionalDataOrConstRef<Elem>>(true); break;
      case 4: RunRefs(); break;
      case 5: RunOpaque(); break;
      default: RunContainer();
    }
    LiveCount(3);
    f.Check();
  }
  f.Free();
  LiveCount(0);
  if (g_steps >= 4 && g_fails > 0) sim::NonTrivial();
}
}  // namespace
const SimHarness kSimHarness = {"C23", Run, nullptr};
