// C22: histories over fixed-capacity sets and maps, with element operations failing, against std::map.
#pragma once
#include <initializer_list>
#include <map>
#include <stdexcept>
#include <vector>

#include "harness/elem.h"
#include "mbo/container/limited_map.h"
#include "mbo/container/limited_set.h"
#include "mbo/types/compare.h"

using Elem = el::ElemT<0>;
using Mapped = el::ElemT<2>;
using mbo::container::LimitedMap;
using mbo::container::LimitedOptions;
using mbo::container::LimitedOptionsFlag;
using mbo::container::LimitedSet;

namespace lo {
struct ModelCmp {
  int mod = 0;
  bool rev = false;
  int K(int v) const { return mod ? v % mod : v; }
  bool operator()(int a, int b) const { return rev ? K(b) < K(a) : K(a) < K(b); }
};
// A comparator with state: keys that differ may be equivalent.
struct ModCmp {
  int mod = 0;
  bool rev = false;
  constexpr bool operator()(const Elem& a, const Elem& b) const noexcept { return ModelCmp{mod, rev}(a.Val(), b.Val()); }
};
using Model = std::map<int, int, ModelCmp>;

inline size_t g_fails = 0, g_rejects = 0;
inline int g_steps = 0;
enum class Out { kOk, kFailed, kRejected };
inline const char* Name(Out o) { return o == Out::kOk ? "ok" : o == Out::kFailed ? "failed" : "rejected"; }
template <class F>
Out Try(F f, bool may_fail = true) {
  el::Arm(may_fail && sim::Chance(1, 3) ? 1 + sim::Choose(5) : 0);
  Out out = Out::kOk;
  try {
    f();
  } catch (const el::Error&) {
    out = Out::kFailed;
    ++g_fails;
  } catch (const std::runtime_error&) {
    out = Out::kRejected;
    ++g_rejects;
    sim::Fault("request rejected");
  }
  el::Disarm();
  return out;
}

template <class C>
struct Slot {
  alignas(C) unsigned char buf[sizeof(C)];
  C* v = nullptr;
  Model m;
  void Destroy() {
    if (v) v->~C();
    v = nullptr;
    m = Model();
  }
};

template <class C>
constexpr bool kIsMap = requires { typename C::mapped_type; };
template <class T>
const Elem& Key(const T& t) {
  if constexpr (requires { t.first; }) return t.first;
  else return t;
}
template <class T>
int MappedVal(const T& t) {
  if constexpr (requires { t.second; }) return t.second.Val();
  else return 0;
}
template <class C>
typename C::key_compare MakeCmp(ModelCmp c) {
  if constexpr (std::same_as<typename C::key_compare, ModCmp>) return ModCmp{c.mod, c.rev};
  else return {};
}
template <class C>
ModelCmp SomeCmp() {
  if constexpr (std::same_as<typename C::key_compare, ModCmp>) {
    static const int kMods[] = {0, 3, 5, 7};
    return {kMods[sim::Choose(4)], sim::Choose(2) == 1};
  }
  return {};
}

// The container as a sequence of (key, value), checking that every element is alive.
template <class C>
std::vector<std::pair<int, int>> Read(const char* what, const C& c) {
  std::vector<std::pair<int, int>> r;
  SIM_CHECK(c.size() <= c.capacity(), "wrong-size", "%s: size %zu with a capacity of %zu", what, c.size(), c.capacity());
  for (const auto& e : c) {
    SIM_CHECK(Key(e).IsLive(), "element-not-alive", "%s: element %zu of %zu is not alive", what, r.size(), c.size());
    SIM_CHECK(!Key(e).IsMoved(), "moved-from-key", "%s: the key of element %zu of %zu is moved from", what, r.size(), c.size());
    if constexpr (kIsMap<C>) {
      SIM_CHECK(e.second.IsLive(), "element-not-alive", "%s: the value of element %zu of %zu is not alive", what, r.size(), c.size());
      SIM_CHECK(!e.second.IsMoved(), "moved-from-value", "%s: the value of element %zu of %zu is moved from", what, r.size(), c.size());
    }
    r.emplace_back(Key(e).Val(), MappedVal(e));
  }
  return r;
}

template <class C>
void Audit(const char* what, Slot<C>& s, size_t& live) {
  if (!s.v) return;
  C& v = *s.v;
  const C& c = v;
  const auto have = Read(what, c);
  SIM_CHECK(c.size() == s.m.size() && c.empty() == s.m.empty() && c.max_size() == c.capacity(), "wrong-size", "%s: size %zu, the model says %zu", what, c.size(), s.m.size());
  SIM_CHECK(have.size() == s.m.size() && static_cast<size_t>(c.end() - c.begin()) == have.size(), "wrong-size", "%s: iteration sees %zu elements, the model says %zu", what, have.size(), s.m.size());
  live += c.size() * (kIsMap<C> ? 2 : 1);
  size_t i = 0;
  for (const auto& [k, m] : s.m) {
    SIM_CHECK(have[i].first == k, "wrong-contents", "%s: key %zu of %zu is %d, the model says %d", what, i, s.m.size(), have[i].first, k);
    SIM_CHECK(!kIsMap<C> || have[i].second == m, "wrong-contents", "%s: the value of key %d is %d, the model says %d", what, k, have[i].second, m);
    auto* p = &*(c.begin() + i);
    SIM_CHECK(&c.at_index(i) == p && &v.at_index(i) == p && c.data() + i == p && &c.begin()[i] == p && &*(v.begin() + i) == p && &*(c.cbegin() + i) == p
                  && &*(c.rbegin() + (have.size() - 1 - i)) == p, "wrong-access", "%s: accesses to element %zu disagree", what, i);
    if (i) SIM_CHECK(c.value_comp()(c.at_index(i - 1), c.at_index(i)) && c.key_comp()(Key(c.at_index(i - 1)), Key(c.at_index(i))) && !c.key_comp()(Key(c.at_index(i)), Key(c.at_index(i - 1))),
                     "wrong-comparator", "%s: the container's comparators do not agree with the order of its elements", what);
    ++i;
  }
  if constexpr (std::same_as<typename C::key_compare, ModCmp>) {
    const ModelCmp w = s.m.key_comp();
    const ModCmp h = c.key_comp();
    SIM_CHECK(h.mod == w.mod && h.rev == w.rev, "wrong-comparator", "%s: the comparator is %d/%d, the model says %d/%d", what, h.mod, h.rev, w.mod, w.rev);
  }
}
// After an element failure: valid, and an insertion has not lost elements.
template <class C>
void Adopt(Slot<C>& s) {
  Model m(s.m.key_comp());
  int last = 0;
  for (const auto& [k, v] : Read("after a failure", *s.v)) {
    SIM_CHECK(m.empty() || m.key_comp()(last, k), "wrong-order", "after a failed operation the keys are not in order");
    m.emplace(k, v);
    last = k;
  }
  for (const auto& [k, v] : s.m) SIM_CHECK(m.contains(k) && m.find(k)->first == k, "element-lost", "a failed insertion lost key %d", k);
  s.m = std::move(m);
}
template <class C>
void Release(Slot<C>& s) {  // moved from: valid, contents unspecified
  s.v->clear();
  s.m.clear();
}

template <class C, class K>
void Lookup(const Slot<C>& s, const K& key, int val) {
  C& v = *s.v;
  const C& c = v;
  const Model& m = s.m;
  const auto it = m.find(val);
  const bool has = it != m.end();
  const size_t at = std::distance(m.begin(), m.lower_bound(val)), to = std::distance(m.begin(), m.upper_bound(val)), n = m.size();
  SIM_CHECK(c.contains(key) == has && c.count(key) == (has ? 1U : 0U), "wrong-lookup", "contains or count of %d in %zu elements is wrong", val, n);
  SIM_CHECK(c.index_of(key) == (has ? at : C::npos), "wrong-lookup", "index_of(%d) in %zu elements is %zd, expected %zd", val, n, static_cast<ssize_t>(c.index_of(key)), static_cast<ssize_t>(has ? at : C::npos));
  SIM_CHECK(c.find(key) - c.begin() == static_cast<ptrdiff_t>(has ? at : n) && v.find(key) - v.begin() == static_cast<ptrdiff_t>(has ? at : n), "wrong-lookup", "find(%d) in %zu elements is wrong", val, n);
  SIM_CHECK(c.lower_bound(key) - c.begin() == static_cast<ptrdiff_t>(at) && v.lower_bound(key) - v.begin() == static_cast<ptrdiff_t>(at), "wrong-lookup", "lower_bound(%d) is wrong", val);
  SIM_CHECK(c.upper_bound(key) - c.begin() == static_cast<ptrdiff_t>(to) && v.upper_bound(key) - v.begin() == static_cast<ptrdiff_t>(to), "wrong-lookup", "upper_bound(%d) is wrong", val);
  const auto [f, l] = c.equal_range(key);
  const auto [f2, l2] = v.equal_range(key);
  SIM_CHECK(f - c.begin() == static_cast<ptrdiff_t>(at) && l - c.begin() == static_cast<ptrdiff_t>(to) && f2 - v.begin() == static_cast<ptrdiff_t>(at) && l2 - v.begin() == static_cast<ptrdiff_t>(to),
            "wrong-lookup", "equal_range(%d) is wrong", val);
  if constexpr (kIsMap<C>) {
    int got = 0, got2 = 0;
    const Out out = Try([&] { got = v.at(key).Val(); }, false), out2 = Try([&] { got2 = c.at(key).Val(); }, false);
    SIM_CHECK(out == (has ? Out::kOk : Out::kRejected) && out2 == out, "wrong-lookup", "at(%d) is %s although the key is %s", val, Name(out), has ? "present" : "missing");
    if (has) SIM_CHECK(got == it->second && got2 == got, "wrong-lookup", "at(%d) is %d, expected %d", val, got, it->second);
  }
}

inline int NewKey(size_t cap) {
  return static_cast<int>(sim::Choose(cap + cap / 2 + 3));
}
inline int NewMapped() {
  static int n = 100;
  return ++n;
}
template <class C>
using ItemOf = std::conditional_t<kIsMap<C>, std::pair<const Elem, Mapped>, Elem>;
template <class C>
ItemOf<C> Item(int k, int m) {
  if constexpr (kIsMap<C>) return {k, m};
  else return Elem(k);
}

template <class C, class D>
void Change(const char* name, Slot<C>& s, Slot<C>& o, Slot<D>& b, size_t cap) {
  C& v = *s.v;
  Model& m = s.m;
  const size_t n = m.size(), k = n ? sim::Choose(n) : 0;
  const auto nth = std::next(m.begin(), k);
  const uint32_t op = sim::Choose(30);
  const int key = NewKey(cap), val = kIsMap<C> ? NewMapped() : 0;
  const auto found = m.find(key);
  const bool has = found != m.end();
  const ptrdiff_t place = std::distance(m.begin(), m.lower_bound(key));
  Model want = m;
  Out out = Out::kOk;
  size_t need = n;
  ptrdiff_t got = -1;
  int inserted = -1;
  auto result = [&](auto r) { got = r.first - v.begin(); inserted = r.second; };
  auto add = [&] {
    want.emplace(key, val);
    need = want.size();
  };
  bool insertion = false, check_pos = false;
  sim::Note("%s: op %u key %d (%zu of %zu elements)", name, op, key, n, cap);
  switch (op) {
    case 0: case 1: case 2: case 3: {
      add(); insertion = check_pos = true;
      const ItemOf<C> e = Item<C>(key, val);
      out = Try([&] { result(v.insert(e)); });
      break;
    }
    case 4: case 5: { add(); insertion = check_pos = true; out = Try([&] { result(v.insert(Item<C>(key, val))); }); break; }
    case 6: case 7: case 8:
      add(); insertion = check_pos = true;
      out = Try([&] { if constexpr (kIsMap<C>) result(v.emplace(key, val)); else result(v.emplace(key)); });
      break;
    case 9: {  // an own element
      if (!n) return;
      insertion = true;
      out = Try([&] { result(v.insert(std::as_const(v).at_index(k))); });
      if (out == Out::kOk) SIM_CHECK(got == static_cast<ptrdiff_t>(k) && inserted == 0, "wrong-result", "%s: inserting an own element again returns position %td/%d", name, got, inserted);
      sim::Probe("argument is an own element");
      break;
    }
    case 10: case 11: case 12: {
      std::vector<std::pair<int, int>> items;
      std::vector<ItemOf<C>> src;
      src.reserve(8);
      bool over = false;
      for (int i = sim::Choose(7); i > 0; --i) {
        items.emplace_back(NewKey(cap), kIsMap<C> ? NewMapped() : 0);
        src.push_back(Item<C>(items.back().first, items.back().second));
        if (over) continue;
        if (want.size() == cap && !want.contains(items.back().first)) over = true;
        else want.insert(items.back());
      }
      if (over) need = cap + 1;
      insertion = true;
      out = Try([&] { v.insert(src.begin(), src.end()); });
      for (size_t i = 0; i < src.size(); ++i) SIM_CHECK(Key(src[i]).Val() == items[i].first, "source-changed", "inserting a range changed the source");
      if (over) {  // rejected at the first element beyond capacity; those before it are in
        SIM_CHECK(out != Out::kOk, "not-rejected", "%s: a range beyond the capacity of %zu is accepted", name, cap);
        sim::Probe("rejected range insert");
        if (out == Out::kRejected) {
          for (const auto& [x, y] : m) SIM_CHECK(want.contains(x), "element-lost", "model error");
          m = want;
          ++g_steps;
          return;
        }
      }
      break;
    }
    case 13: case 14: {
      if (!n) return;
      want.erase(nth->first);
      out = Try([&] { if (val & 1) got = v.erase(v.cbegin() + k) - v.begin(); else got = v.erase(v.begin() + k) - v.begin(); }, false);
      SIM_CHECK(got == static_cast<ptrdiff_t>(k), "wrong-result", "%s: erase at %zu returns position %td", name, k, got);
      break;
    }
    case 15: {
      const size_t to = k + sim::Choose(n - k + 1);
      want.erase(std::next(want.begin(), k), std::next(want.begin(), to));
      out = Try([&] { if (sim::Choose(2)) got = v.erase(v.cbegin() + k, v.cbegin() + to) - v.begin(); else got = v.erase(v.begin() + k, v.begin() + to) - v.begin(); }, false);
      SIM_CHECK(got == static_cast<ptrdiff_t>(k), "wrong-result", "%s: erase of %zu..%zu returns position %td", name, k, to, got);
      break;
    }
    case 16: case 17: {
      want.erase(key);
      size_t erased = 0;
      const Elem e(key);
      out = Try([&] { erased = v.erase(e); }, false);
      SIM_CHECK(erased == (has ? 1U : 0U), "wrong-result", "%s: erase of key %d returns %zu", name, key, erased);
      break;
    }
    case 18: {
      if (!n) return;
      want.erase(nth->first);
      size_t erased = 0;
      out = Try([&] { erased = v.erase(Key(std::as_const(v).at_index(k))); }, false);
      SIM_CHECK(erased == 1, "wrong-result", "%s: erase of an own key returns %zu", name, erased);
      sim::Probe("argument is an own element");
      break;
    }
    case 19: {
      want.erase(key);
      size_t erased = 0;
      out = Try([&] { erased = v.erase(key); }, !C::kTransparent);  // a foreign key
      if (out == Out::kOk) SIM_CHECK(erased == (has ? 1U : 0U), "wrong-result", "%s: erase of key %d returns %zu", name, key, erased);
      else want = m;
      insertion = out != Out::kOk;
      break;
    }
    case 20:
      switch (sim::Choose(6)) {
        case 0: v.clear(); want.clear(); break;
        case 1: if (!o.v) return; v = std::as_const(*o.v); want = o.m; if (o.v == &v) sim::Probe("self-assignment"); break;
        case 2:
          if (!o.v) return;
          want = o.m;
          v = std::move(*o.v);
          if (o.v == &v) sim::Probe("self-assignment");
          else Release(o);
          break;
        case 3:
          if (!o.v) return;
          want = o.m;
          v.swap(*o.v);
          if (&o != &s) o.m = m;
          break;
        default: {
          if (!b.v) return;
          want.clear();
          want.insert(b.m.begin(), b.m.end());
          v = std::as_const(*b.v);
          sim::Probe("across capacities");
        }
      }
      m = want;
      ++g_steps;
      return;
    case 21: {  // misuse
      const uint32_t how = sim::Choose(4);
      if (how == 3 && !n) return;
      out = Try([&] {
        switch (how) {
          case 0: (void)v.at_index(n + sim::Choose(2)); break;
          case 1: (void)std::as_const(v).at_index(n); break;
          case 2: v.erase(v.end()); break;
          default: v.erase(v.begin() + k + 1, v.begin() + k);
        }
      }, false);
      SIM_CHECK(out == Out::kRejected, "not-rejected", "a use beyond the contents is accepted");
      out = Out::kOk;
      break;
    }
    case 22: {
      const Elem e(key);
      Lookup(s, e, key);
      break;
    }
    case 23:
      if constexpr (C::kTransparent) Lookup(s, key, key);
      else if (n) Lookup(s, Key(v.at_index(k)), nth->first);
      break;
    case 24: {
      std::vector<Elem> keys;
      bool all = true, any = false;
      for (int i = sim::Choose(4); i > 0; --i) {
        const int x = n && sim::Choose(2) ? std::next(m.begin(), sim::Choose(n))->first : NewKey(cap);
        keys.emplace_back(x);
        all = all && m.contains(x);
        any = any || m.contains(x);
      }
      SIM_CHECK(v.contains_all(keys) == all && v.contains_any(keys) == any, "wrong-lookup", "%s: contains_all or contains_any of %zu keys is wrong", name, keys.size());
      const Elem e(key), e2(key + 1);
      SIM_CHECK(v.contains_all({e, e2}) == (has && m.contains(key + 1)) && v.contains_any({e, e2}) == (has || m.contains(key + 1)), "wrong-lookup", "%s: contains_all or contains_any of two keys is wrong", name);
      break;
    }
    default:
      if constexpr (kIsMap<C>) {
        check_pos = insertion = true;
        switch (op) {
          case 25: { add(); const Elem e(key); out = Try([&] { result(v.try_emplace(e, val)); }); break; }
          case 26: add(); out = Try([&] { result(v.try_emplace(Elem(key), val)); }); break;
          case 27: { add(); want.insert_or_assign(key, val); const Elem e(key); const Mapped x(val); out = Try([&] { result(v.insert_or_assign(e, x)); }); break; }
          case 28: add(); want.insert_or_assign(key, val); out = Try([&] { result(v.insert_or_assign(Elem(key), Mapped(val))); }); break;
          default: {
            check_pos = false;
            want.emplace(key, 0);
            need = want.size();
            const Elem e(key);
            int before = -1;
            Mapped* p = nullptr;
            out = Try([&] { p = sim::Choose(2) ? &v[e] : &v[Elem(key)]; });
            if (out == Out::kOk) {
              before = p->Val();
              SIM_CHECK(before == (has ? found->second : 0), "wrong-result", "%s: [%d] is %d", name, key, before);
              *p = Mapped(val);
              want[key] = val;
            }
          }
        }
      } else {
        add();
        insertion = check_pos = true;
        out = Try([&] { Elem e(key); result(v.insert(std::move(e))); });
      }
  }
  sim::Ev("%s: op %u key %d, %zu of %zu elements -> %s", name, op, key, n, cap, Name(out));
  ++g_steps;
  if (need > cap) {
    SIM_CHECK(out != Out::kOk, "not-rejected", "%s: an element beyond the capacity of %zu is accepted", name, cap);
    if (out == Out::kRejected) {
      sim::Probe("rejected insert");
      want = m;
    }
  } else {
    SIM_CHECK(out != Out::kRejected, "wrongly-rejected", "%s: op %u with %zu of %zu elements is rejected", name, op, n, cap);
  }
  if (out == Out::kFailed) {
    SIM_CHECK(insertion, "element-lost", "harness error: an operation that cannot fail failed");
    Adopt(s);
  } else {
    m = want;
    if (out == Out::kOk && check_pos)
      SIM_CHECK(got == place && inserted == !has, "wrong-result", "%s: op %u of key %d returns position %td/%d, expected %td/%d", name, op, key, got, inserted, place, !has);
  }
  if (n == cap) sim::Probe("operation on a full container");
  sim::State(sim::Hash64(name, op * 4096 + n * 64 + place * 4 + static_cast<int>(out)));
}

template <class C, class D, bool kSorted>
void Construct(Slot<C>& s, Slot<C>& o, Slot<D>& b, size_t cap) {
  const uint32_t op = sim::Choose(9);
  const ModelCmp cmp = SomeCmp<C>();
  Model want(cmp);
  Out out = Out::kOk;
  bool reject = false;
  switch (op) {
    case 0: want = Model(); s.v = new (s.buf) C(); break;
    case 1: s.v = new (s.buf) C(MakeCmp<C>(cmp)); break;
    case 2: case 3: case 4: {
      std::vector<std::pair<int, int>> items;
      for (int i = sim::Choose(cap + 3); i > 0; --i) items.emplace_back(NewKey(cap), kIsMap<C> ? NewMapped() : 0);
      if constexpr (kSorted) {  // sorted and unique, or else not sorted
        Model u(cmp);
        u.insert(items.begin(), items.end());
        items.assign(u.begin(), u.end());
        if (items.size() > 1 && sim::Chance(1, 4)) { std::swap(items[0], items[items.size() - 1]); reject = true; sim::Probe("input is not sorted"); }
      }
      std::vector<ItemOf<C>> src;
      src.reserve(items.size());
      for (const auto& [k, m] : items) {
        src.push_back(Item<C>(k, m));
        want.emplace(k, m);
      }
      if (want.size() > cap) { reject = true; sim::Probe("rejected construction"); }
      out = Try([&] { s.v = new (s.buf) C(src.begin(), src.end(), MakeCmp<C>(cmp)); });
      for (size_t i = 0; i < src.size(); ++i) SIM_CHECK(Key(src[i]).Val() == items[i].first, "source-changed", "constructing from iterators changed the source");
      break;
    }
    case 5: {
      int a = NewKey(cap), c = NewKey(cap);
      if constexpr (kSorted) { a = 1; c = 2; if (cmp(c, a)) std::swap(a, c); if (!cmp(a, c)) return; }
      const int x = kIsMap<C> ? NewMapped() : 0, y = kIsMap<C> ? NewMapped() : 0;
      want.emplace(a, x);
      want.emplace(c, y);
      reject = want.size() > cap;
      out = Try([&] { s.v = new (s.buf) C(std::initializer_list<ItemOf<C>>{Item<C>(a, x), Item<C>(c, y)}, MakeCmp<C>(cmp)); });
      break;
    }
    case 6: if (!o.v || &o == &s) return; want = o.m; s.v = new (s.buf) C(std::as_const(*o.v)); break;
    case 7: if (!o.v || &o == &s) return; want = o.m; s.v = new (s.buf) C(std::move(*o.v)); Release(o); break;
    default:
      if (!b.v) return;
      want = Model();
      want.insert(b.m.begin(), b.m.end());
      if (sim::Choose(2)) s.v = new (s.buf) C(std::as_const(*b.v));
      else { s.v = new (s.buf) C(std::move(*b.v)); Release(b); }
      sim::Probe("across capacities");
  }
  ++g_steps;
  sim::Ev("construct %u with %zu keys -> %s", op, want.size(), Name(out));
  if (reject) SIM_CHECK(out != Out::kOk, "not-rejected", "construction %u with %zu keys is accepted with a capacity of %zu", op, want.size(), cap);
  else SIM_CHECK(out != Out::kRejected, "wrongly-rejected", "construction %u with %zu keys is rejected with a capacity of %zu", op, want.size(), cap);
  if (out == Out::kOk) s.m = want;
  else s.v = nullptr;
  sim::State(sim::Hash64("construct", op * 256 + want.size() * 4 + static_cast<int>(out)));
}

template <class C, class D, bool kSorted = false>
void RunOrd(size_t n, size_t m) {
  static Slot<C> a[2];
  static Slot<D> b[2];
  const size_t base = el::Live().size();
  auto audit = [&] {
    size_t live = 0;
    Audit("a0", a[0], live); Audit("a1", a[1], live); Audit("b0", b[0], live); Audit("b1", b[1], live);
    SIM_CHECK(el::Live().size() == base + live, el::Live().size() > base + live ? "element-leaked" : "element-lost", "%zu elements are alive, the containers hold %zu", el::Live().size() - base, live);
  };
  for (int steps = 6 + sim::Choose(n > 10 ? 60 : 24); steps > 0; --steps) {
    sim::Span span("op");
    const int i = sim::Choose(2), j = sim::Choose(2);
    const uint32_t what = sim::Choose(16);
    if (what == 0) { a[i].Destroy(); sim::Ev("destroy"); }
    else if (what == 1 && a[i].v && b[j].v) {
      const std::vector<std::pair<int, int>> x(a[i].m.begin(), a[i].m.end()), y(b[j].m.begin(), b[j].m.end());
      const auto& p = *a[i].v; const auto& q = *b[j].v;
      SIM_CHECK((p == q) == (x == y) && (p < q) == (x < y) && ((p <=> q) == 0) == (x == y) && ((p <=> q) < 0) == (x < y) && (p == p), "wrong-comparison", "containers compare wrongly");
    } else if (what < 13) {
      if (a[i].v) Change("a", a[i], a[j], b[j], n);
      else Construct<C, D, kSorted>(a[i], a[j], b[j], n);
    } else {
      if (b[i].v) Change("b", b[i], b[j], b[j], m);
      else Construct<D, D, false>(b[i], b[j], b[j], m);
    }
    audit();
  }
  for (auto& s : a) s.Destroy();
  for (auto& s : b) s.Destroy();
  audit();
}

inline void RunHelpers() {
  const size_t base = el::Live().size();
  for (int steps = 2 + sim::Choose(4); steps > 0; --steps) {
    sim::Span span("op");
    int k[4];
    Model want;
    for (int& x : k) x = sim::Choose(6);
    const uint32_t op = sim::Choose(5);
    auto check = [&](const auto& c, size_t count) {
      want.clear();
      for (size_t i = 0; i < count; ++i) want.emplace(k[i], 0);
      const auto have = Read("helper", c);
      bool same = have.size() == want.size();
      size_t i = 0;
      for (const auto& [x, y] : want) same = same && have[i++].first == x;
      SIM_CHECK(same, "wrong-contents", "a container built by helper %u has the wrong contents", op);
    };
    switch (op) {
      case 0: { Elem arr[4] = {k[0], k[1], k[2], k[3]}; check(mbo::container::ToLimitedSet(arr), 4); for (int i = 0; i < 4; ++i) SIM_CHECK(arr[i].Val() == k[i], "source-changed", "ToLimitedSet changed its source"); break; }
      case 1: { std::pair<Elem, Mapped> arr[3] = {{k[0], 1}, {k[1], 2}, {k[2], 3}}; check(mbo::container::ToLimitedMap(std::move(arr)), 3); break; }
      case 2: check(mbo::container::MakeLimitedSetOf<Elem>(k[0], k[1], k[2]), 3); break;
      case 3: { std::pair<Elem, Mapped> arr[3] = {{k[0], 1}, {k[1], 2}, {k[2], 3}}; check(mbo::container::ToLimitedMap(arr), 3); break; }
      default: { std::vector<Elem> src(k, k + 4); check(mbo::container::MakeLimitedSet<5>(src.begin(), src.end()), 4); }
    }
    sim::Ev("helper %u: %d %d %d %d", op, k[0], k[1], k[2], k[3]);
    sim::State(sim::Hash64("helper", op * 8 + want.size()));
    SIM_CHECK(el::Live().size() == base, "element-leaked", "%zu elements are left", el::Live().size() - base);
  }
  sim::NonTrivial();
}

template <auto N, class Cmp = std::less<Elem>>
using Set = LimitedSet<Elem, N, Cmp>;
template <auto N, class Cmp = std::less<Elem>>
using Map = LimitedMap<Elem, Mapped, N, Cmp>;
using Three = mbo::types::CompareLess<Elem>;
using F = LimitedOptionsFlag;

void RunSets(uint32_t config);
void RunMaps(uint32_t config);
void RunLargeSets(uint32_t config);
void RunLargeMaps(uint32_t config);
}  // namespace lo
