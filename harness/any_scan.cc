// C24: histories of interleaved type-erased scans over referenced and owned containers, against a plain model.
#include <array>
#include <deque>
#include <list>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <vector>

#include "harness/elem.h"
#include "mbo/container/any_scan.h"
#include "mbo/container/limited_set.h"
#include "mbo/container/limited_vector.h"

namespace {
using Elem = el::ElemT<0>;
using mbo::container::AnyScan, mbo::container::ConstScan, mbo::container::ConvertingScan;
using mbo::container::MakeAnyScan, mbo::container::MakeConstScan, mbo::container::MakeConvertingScan;
enum Mode { kAny, kConst, kConv };

// What a scan of an element yields when the scan converts.
struct View {
  int v;
  View(const Elem& e) : v(e.Val()) {}  // NOLINT
};
const std::string& Text(int v) {  // long enough not to fit into a std::string
  static std::map<int, std::string> m;
  auto& s = m[v];
  if (s.empty()) s = "a text that needs an allocation " + std::to_string(v);
  return s;
}
int Value(const Elem& e) { return e.Val(); }
int Value(const View& e) { return e.v; }
int Value(const std::pair<const int, Elem>& e) {
  SIM_CHECK(e.first == e.second.Val(), "wrong-element", "key %d with value %d", e.first, e.second.Val());
  return e.first;
}
int Value(std::string_view s) {
  SIM_CHECK(s.starts_with("a text that needs an allocation "), "wrong-element", "a converted text reads %s", sim::Quote(s).c_str());
  return std::stoi(std::string(s.substr(32)));
}
template <class T>
T Make(int v) {
  if constexpr (std::same_as<T, Elem>) return Elem(v);
  else if constexpr (std::same_as<T, std::pair<const int, Elem>>) return {v, Elem(v)};
  else return T(Text(v).c_str());
}
template <class C>
concept Keyed = requires { typename C::key_type; };
template <class C>
concept Growing = Keyed<C> || requires(C& c) { c.emplace_back(std::declval<typename C::value_type>()); };
template <class C>
constexpr bool kIsArray = false;
template <class T, size_t N>
constexpr bool kIsArray<std::array<T, N>> = true;

template <class C>
void Append(C& c, int v) {
  using T = typename C::value_type;
  if constexpr (Keyed<C>) c.emplace(Make<T>(v));
  else c.emplace_back(Make<T>(v));
}
template <class C>
C Build(const std::vector<int>& vals) {
  if constexpr (kIsArray<C>) {
    using T = typename C::value_type;
    return C{Make<T>(vals[0]), Make<T>(vals[1]), Make<T>(vals[2])};
  } else {
    C c;
    for (int v : vals) Append(c, v);
    return c;
  }
}

// A container to be scanned; the owner keeps it (referenced scans) or a scan takes it over (owned scans).
template <class Scan>
struct Box {
  virtual ~Box() = default;
  virtual Scan Refer() = 0;
  virtual void Grow(int v) = 0;
  virtual void Clear() = 0;
  virtual const void* Addr(size_t i) = 0;  // nullptr: not known
  virtual int At(size_t i) = 0;
};
struct Kind {
  const char* name;
  bool keyed, grows, stable, can_own, can_refer;
  size_t cap, fixed;
};
template <class Scan>
struct KindOps : Kind {
  Box<Scan>* (*box)(const std::vector<int>&);
  // Makes two scans of one container they own (the second from a copy of the same adapter).
  std::pair<Scan, Scan> (*own)(const std::vector<int>&);
};
template <Mode kMode, class C>
auto Adapt(C&& c) {
  if constexpr (kMode == kAny) return MakeAnyScan(std::forward<C>(c));
  else if constexpr (kMode == kConst) return MakeConstScan(std::forward<C>(c));
  else return MakeConvertingScan(std::forward<C>(c));
}
template <class Scan, Mode kMode, class C, bool kConstRef>
struct BoxOf final : Box<Scan> {
  C c;
  explicit BoxOf(const std::vector<int>& v) : c(Build<C>(v)) {}
  Scan Refer() override {
    if constexpr (kConstRef) return Scan(Adapt<kMode>(std::as_const(c)));
    else return Scan(Adapt<kMode>(c));
  }
  void Grow(int v) override {
    if constexpr (Growing<C>) Append(c, v);
  }
  void Clear() override {
    if constexpr (Growing<C>) c.clear();
  }
  const void* Addr(size_t i) override {
    if constexpr (kMode == kConv) return nullptr;
    else return &*std::next(c.begin(), static_cast<std::ptrdiff_t>(i));
  }
  int At(size_t i) override { return Value(*std::next(c.begin(), static_cast<std::ptrdiff_t>(i))); }
};
template <class Scan, Mode kMode, class C, bool kConstRef = false, bool kCanOwn = !kIsArray<C>>
KindOps<Scan> K(const char* name, bool stable = false) {
  KindOps<Scan> k;
  k.name = name;
  k.keyed = Keyed<C>;
  k.grows = Growing<C>;
  k.stable = stable;
  k.cap = std::string_view(name).find("Limited") != std::string_view::npos ? 6 : 64;
  k.fixed = kIsArray<C> ? 3 : 0;
  k.can_own = kCanOwn && !kConstRef;
  k.can_refer = true;
  k.box = [](const std::vector<int>& v) -> Box<Scan>* { return new BoxOf<Scan, kMode, C, kConstRef>(v); };
  k.own = nullptr;
  if constexpr (kCanOwn && !kConstRef)
    k.own = [](const std::vector<int>& v) -> std::pair<Scan, Scan> {
      C c = Build<C>(v);
      auto data = Adapt<kMode>(std::move(c));
      auto copy = data;
      SIM_CHECK(data.size() == v.size() && copy.empty() == v.empty(), "wrong-size", "an adapter of %zu elements has size %zu", v.size(), data.size());
      return {Scan(data), Scan(copy)};
    };
  return k;
}

constexpr int kMaxSrc = 3, kMaxScan = 4, kMaxIter = 6;

template <class Scan, Mode kMode>
struct World {
  using It = typename Scan::iterator;
  using CIt = typename Scan::const_iterator;
  struct Src {
    const KindOps<Scan>* kind;
    std::unique_ptr<Box<Scan>> box;  // referenced only
    std::vector<int> vals;
    bool owned;
    int holders = 0;  // scans and iterators that need it
    int ends = 0;     // end iterators, which may but need not keep it
  };
  struct Iter {
    std::optional<It> it;
    std::optional<CIt> cit;
    std::shared_ptr<Src> src;
    int group = 0;
    size_t pos = 0;
    bool end = false, stale = false;
  };
  struct Sc {
    std::optional<Scan> s;
    std::shared_ptr<Src> src;
  };
  std::vector<KindOps<Scan>> kinds;
  std::vector<std::shared_ptr<Src>> boxes;  // referenced sources
  std::vector<std::weak_ptr<Src>> owned;
  Sc sc[kMaxScan];
  Iter iters[kMaxIter];
  int next_val = 0, next_group = 0;
  size_t interleaved = 0;
  bool counted = true;  // elements are instrumented

  int NewVal() { return ++next_val; }
  std::vector<int> NewVals(const Kind& k) {
    std::vector<int> v;
    size_t n = k.fixed ? k.fixed : sim::Choose(4) == 0 ? 0 : 1 + sim::Choose(5);
    for (; n > 0; --n) v.push_back(NewVal());
    return v;
  }
  void DropIter(Iter& i) {
    if (!i.it && !i.cit) return;
    i.it.reset();
    i.cit.reset();
    i.src.reset();
    i = {};
  }
  bool Used(const Iter& i) const { return i.it || i.cit; }
  // f is called with the iterator, whatever its type.
  template <class F>
  static auto With(Iter& i, F f) {
    if (i.it) return f(*i.it);
    return f(*i.cit);
  }
  bool AtEnd(const Iter& i) const { return i.end || i.pos >= i.src->vals.size(); }

  void Audit(const char* after) {
    // Everything that is needed is there, everything nobody refers to is gone.
    size_t low = 0, high = 0;
    for (auto& b : boxes) low += b->vals.size(), high += b->vals.size();
    std::vector<const Src*> seen_l, seen_h;
    auto once = [](std::vector<const Src*>& v, const Src* s) {
      for (auto* x : v)
        if (x == s) return false;
      v.push_back(s);
      return true;
    };
    for (auto& s : sc)
      if (s.s && s.src->owned) {
        if (once(seen_l, s.src.get())) low += s.src->vals.size();
        if (once(seen_h, s.src.get())) high += s.src->vals.size();
      }
    for (auto& i : iters)
      if (Used(i) && i.src->owned) {
        if (!i.end && once(seen_l, i.src.get())) low += i.src->vals.size();
        if (once(seen_h, i.src.get())) high += i.src->vals.size();
      }
    if (counted) {
      SIM_CHECK(el::Live().size() >= low, "elements-released-early", "after %s: %zu elements are alive, scans and iterators refer to %zu", after, el::Live().size(), low);
      SIM_CHECK(el::Live().size() <= high, "elements-not-released", "after %s: %zu elements are alive, only %zu are referred to", after, el::Live().size(), high);
    }
    for (auto& s : sc)
      if (s.s) {
        const Scan& c = *s.s;
        SIM_CHECK(c.size() == s.src->vals.size() && c.empty() == s.src->vals.empty(), "wrong-size", "after %s: a scan over %zu elements (%s) has size %zu, empty %d", after, s.src->vals.size(), s.src->kind->name, c.size(), c.empty());
      }
    for (auto& i : iters)
      if (Used(i) && !i.stale) With(i, [&](auto& it) { Look(i, it, after); });
  }
  template <class I>
  void Look(const Iter& i, const I& it, const char* after) {
    const Scan* any = nullptr;
    for (auto& s : sc)
      if (s.s) any = &*s.s;
    const bool at_end = AtEnd(i);
    SIM_CHECK((it == I()) == at_end && (I() == it) == at_end && (it != I()) == !at_end, "wrong-end",
              "after %s: an iterator at %zu of %zu elements (%s) %s the end", after, i.pos, i.src->vals.size(), i.src->kind->name, at_end ? "differs from" : "equals");
    SIM_CHECK(it == it, "not-equal-to-itself", "after %s: an iterator differs from itself", after);
    if (any && std::same_as<I, CIt>) {
      const CIt e = any->end();
      if constexpr (std::same_as<I, CIt>)
        SIM_CHECK((it == e) == at_end && (it == any->cend()) == at_end, "wrong-end", "after %s: an iterator at %zu of %zu disagrees with end()", after, i.pos, i.src->vals.size());
    }
    if (at_end) {
      if constexpr (kMode != kConv) SIM_CHECK(it.operator->() == nullptr, "wrong-element", "after %s: -> at the end is not null", after);
      return;
    }
    const int v = Value(*it), w = i.src->vals[i.pos];
    SIM_CHECK(v == w, "wrong-element", "after %s: element %zu of %zu (%s, %s) reads %d, expected %d", after, i.pos, i.src->vals.size(), i.src->kind->name, i.src->owned ? "owned" : "referenced", v, w);
    if constexpr (kMode != kConv) {
      SIM_CHECK(it.operator->() == &*it, "wrong-element", "after %s: -> and * refer to different elements", after);
      if (!i.src->owned)
        if (const void* a = i.src->box->Addr(i.pos))
          SIM_CHECK(static_cast<const void*>(&*it) == a, "not-by-reference", "after %s: element %zu (%s) is not the container's own", after, i.pos, i.src->kind->name);
    }
  }
  void Compare() {
    if constexpr (kMode == kConv) return;
    else
      for (auto& a : iters)
        for (auto& b : iters)
          if (&a != &b && a.it && b.it && !a.stale && !b.stale) Equal(a, b, *a.it == *b.it, *a.it != *b.it);
          else if (&a != &b && a.cit && b.cit && !a.stale && !b.stale) Equal(a, b, *a.cit == *b.cit, *a.cit != *b.cit);
  }
  void Equal(const Iter& a, const Iter& b, bool eq, bool ne) {
    const bool ea = AtEnd(a), eb = AtEnd(b);
    const bool want = ea || eb ? ea == eb : a.src == b.src && a.pos == b.pos;
    SIM_CHECK(eq == want && ne == !want, "wrong-equality", "iterators at %zu/%zu (%s) and %zu/%zu (%s) of %s containers compare %s", a.pos, a.src->vals.size(), a.src->kind->name,
              b.pos, b.src->vals.size(), b.src->kind->name, a.src == b.src ? "the same" : "different", eq ? "equal" : "unequal");
    if (!ea && !eb && want) sim::Probe("iterators at the same element");
  }
  bool AnyIter(const Src* s) const {
    for (auto& i : iters)
      if (Used(i) && i.src.get() == s) return true;
    return false;
  }
  void WholeLoop(Sc& s) {
    size_t n = 0;
    const auto& vals = s.src->vals;
    auto step = [&](auto&& e) {
      SIM_CHECK(n < vals.size(), "wrong-element", "a loop over %zu elements (%s) runs on", vals.size(), s.src->kind->name);
      const int v = Value(e);
      SIM_CHECK(v == vals[n], "wrong-element", "a loop's element %zu of %zu (%s) reads %d, expected %d", n, vals.size(), s.src->kind->name, v, vals[n]);
      ++n;
    };
    if (sim::Choose(2))
      for (auto&& e : *s.s) step(e);
    else
      for (auto&& e : std::as_const(*s.s)) step(e);
    SIM_CHECK(n == vals.size(), "wrong-element", "a loop over %zu elements (%s) ends after %zu", vals.size(), s.src->kind->name, n);
  }

  void Step() {
    sim::Span span("op");
    const uint32_t op = sim::Choose(20);
    int i = static_cast<int>(sim::Choose(kMaxIter)), s = static_cast<int>(sim::Choose(kMaxScan));
    char what[96] = "";
#define OP(...) (snprintf(what, sizeof(what), __VA_ARGS__), sim::Ev("%s", what))
    // Work on what exists.
    if (op >= 2)
      for (int n = 0; n < kMaxScan && !sc[s].s; ++n) s = (s + 1) % kMaxScan;
    if (op >= 7)
      for (int n = 0; n < kMaxIter && (!Used(iters[i]) || (op != 15 && (iters[i].stale || AtEnd(iters[i])))); ++n) i = (i + 1) % kMaxIter;
    Iter& it = iters[i];
    switch (op) {
      case 0: case 1: {  // a scan of a new or known container
        const auto& k = kinds[sim::Choose(static_cast<uint32_t>(kinds.size()))];
        if (k.can_own && sim::Choose(2)) {
          auto src = std::make_shared<Src>();
          src->kind = &k;
          src->owned = true;
          src->vals = NewVals(k);
          auto p = k.own(src->vals);
          sc[s].s.reset();
          sc[s].s.emplace(p.first);
          sc[s].src = src;
          const int t = static_cast<int>(sim::Choose(kMaxScan));
          if (t != s && sim::Choose(2)) {
            sc[t].s.reset();
            sc[t].s.emplace(std::move(p.second));
            sc[t].src = src;
          }
          OP("scan %d owns %zu of %s", s, src->vals.size(), k.name);
          break;
        }
        std::shared_ptr<Src> src;
        if (boxes.size() < kMaxSrc) {
          src = std::make_shared<Src>();
          src->kind = &k;
          src->owned = false;
          src->vals = NewVals(k);
          src->box.reset(k.box(src->vals));
          boxes.push_back(src);
        } else {
          src = boxes[sim::Choose(kMaxSrc)];
        }
        sc[s].s.reset();
        sc[s].s.emplace(src->box->Refer());
        sc[s].src = src;
        OP("scan %d refers to %zu of %s", s, src->vals.size(), src->kind->name);
        break;
      }
      case 2: {  // copy, move or assign a scan
        const int t = static_cast<int>(sim::Choose(kMaxScan));
        if (!sc[s].s || t == s) return;
        const uint32_t how = sim::Choose(4);
        OP("scan %d from %d (%u)", t, s, how);
        if (how < 2 || !sc[t].s) {
          sc[t].s.reset();
          if (how == 1) sc[t].s.emplace(std::move(*sc[s].s));
          else sc[t].s.emplace(*sc[s].s);
        } else if (how == 2) {
          *sc[t].s = *sc[s].s;
        } else {
          *sc[t].s = std::move(*sc[s].s);
        }
        sc[t].src = sc[s].src;
        if (how == 1 || how == 3) {
          sc[s].s.reset();
          sc[s].src.reset();
        }
        break;
      }
      case 3:
        if (!sc[s].s) return;
        OP("drop scan %d", s);
        if (sc[s].src->owned && AnyIter(sc[s].src.get())) sim::Probe("scan dropped before its iterators");
        sc[s].s.reset();
        sc[s].src.reset();
        break;
      case 4: case 5: case 6: {  // start
        if (!sc[s].s) return;
        DropIter(it);
        it.src = sc[s].src;
        const uint32_t how = sim::Choose(5);
        OP("iterator %d = scan %d begin/end (%u)", i, s, how);
        it.group = ++next_group;
        if (how == 0) it.it.emplace(sc[s].s->begin());
        else if (how == 1) it.cit.emplace(std::as_const(*sc[s].s).begin());
        else if (how == 2) it.cit.emplace(sc[s].s->cbegin());
        else if (how == 3) it.it.emplace(sc[s].s->begin());
        else it.end = true, it.it.emplace(sc[s].s->end());
        if (AnyIter(it.src.get())) sim::State(sim::Hash64("start"));
        break;
      }
      case 7: case 8: case 9: case 10: case 11: case 12: {  // advance
        if (!Used(it) || it.stale || it.end || AtEnd(it)) return;
        const uint32_t how = sim::Choose(3);
        OP("iterator %d: %s at %zu", i, how ? "++it" : "it++", it.pos);
        const int now = it.src->vals[it.pos];
        if (how) With(it, [](auto& x) { auto& y = ++x; SIM_CHECK(&y == &x, "wrong-element", "++ does not return the iterator"); });
        else
          With(it, [&](auto& x) {
            auto y = x++;
            const int v = Value(*y);
            SIM_CHECK(v == now, "wrong-element", "*it++ at %zu of %zu (%s) reads %d, expected %d", it.pos, it.src->vals.size(), it.src->kind->name, v, now);
            sim::Probe("element read by *it++");
          });
        ++it.pos;
        for (auto& o : iters)
          if (&o != &it && Used(o) && o.group == it.group) o.stale = true;  // copies of an advanced input iterator
        size_t active = 0;
        for (auto& o : iters)
          if (Used(o) && !o.end && !o.stale && o.src == it.src && !AtEnd(o)) ++active;
        if (active > 1) ++interleaved;
        sim::State(sim::Hash64(it.src->kind->name, (it.pos * 8 + std::min<size_t>(active, 3)) * 2 + it.src->owned));
        break;
      }
      case 13: case 14: {  // copy, move, assign
        const int t = static_cast<int>(sim::Choose(kMaxIter));
        Iter& o = iters[t];
        if (!Used(it) || t == i || it.stale) return;
        const uint32_t how = sim::Choose(4);
        OP("iterator %d from %d (%u)", t, i, how);
        if (how < 2 || it.it.has_value() != o.it.has_value() || !Used(o)) {
          DropIter(o);
          if (how == 1) {
            if (it.it) o.it.emplace(std::move(*it.it));
            else o.cit.emplace(std::move(*it.cit));
          } else {
            if (it.it) o.it.emplace(*it.it);
            else o.cit.emplace(*it.cit);
          }
        } else if (how == 2) {
          if (it.it) *o.it = *it.it;
          else *o.cit = *it.cit;
        } else {
          if (it.it) *o.it = std::move(*it.it);
          else *o.cit = std::move(*it.cit);
        }
        o.src = it.src, o.group = it.group, o.pos = it.pos, o.end = it.end, o.stale = false;
        if (how == 1 || how == 3) DropIter(it);
        break;
      }
      case 15:
        if (!Used(it)) return;
        OP("drop iterator %d", i);
        DropIter(it);
        break;
      case 16:
        if (!sc[s].s) return;
        OP("loop over scan %d", s);
        WholeLoop(sc[s]);
        break;
      case 17: {  // write through the scan
        if constexpr (kMode == kAny && requires(It x) { *x = Elem(1); }) {
          if (!it.it || it.stale || AtEnd(it)) return;
          const int v = NewVal();
          OP("write %d at %zu through iterator %d", v, it.pos, i);
          **it.it = Elem(v);
          it.src->vals[it.pos] = v;
          if (!it.src->owned) {
            const int got = it.src->box->At(it.pos);
            SIM_CHECK(got == v, "not-by-reference", "a value written through a scan is not in the container");
          }
        } else {
          return;
        }
        break;
      }
      default: {  // the owner changes the container
        if (boxes.empty()) return;
        auto& b = boxes[sim::Choose(static_cast<uint32_t>(boxes.size()))];
        if (!b->kind->grows) return;
        const bool busy = AnyIter(b.get());
        if (op == 18) {
          if (busy && !b->kind->stable) return;
          if (b->vals.size() >= b->kind->cap) return;
          // an iterator at the end of a list stays at the end
          for (auto& o : iters)
            if (Used(o) && o.src == b && !o.end && AtEnd(o)) return;
          const int v = NewVal();
          OP("owner adds %d (%s)", v, b->kind->name);
          b->box->Grow(v);
          b->vals.push_back(v);
          sim::Probe("container changed while scanners exist");
        } else {
          if (busy) return;
          OP("owner clears (%s)", b->kind->name);
          b->box->Clear();
          b->vals.clear();
        }
        break;
      }
    }
    Audit(what);
    Compare();
  }
  void Go() {
    for (int n = 6 + static_cast<int>(sim::Choose(30)); n > 0; --n) Step();
    // Quiescence: everything that was owned by scans is released.
    for (auto& s : sc) s.s.reset(), s.src.reset();
    Audit("dropping all scans");
    for (auto& i : iters) DropIter(i);
    Audit("dropping all iterators");
    boxes.clear();
    SIM_CHECK(!counted || el::Live().size() == 0, "elements-not-released", "%zu elements survive everything", el::Live().size());
    if (interleaved >= 2) sim::NonTrivial();
  }
};

void RunAny() {
  using S = AnyScan<Elem>;
  auto w = std::make_unique<World<S, kAny>>();
  w->kinds = {K<S, kAny, std::vector<Elem>>("vector"), K<S, kAny, std::list<Elem>>("list", true), K<S, kAny, std::deque<Elem>>("deque"),
              K<S, kAny, mbo::container::LimitedVector<Elem, 6>>("LimitedVector"), K<S, kAny, std::array<Elem, 3>>("array")};
  w->Go();
}
void RunConst() {
  using S = ConstScan<Elem>;
  auto w = std::make_unique<World<S, kConst>>();
  w->kinds = {K<S, kConst, std::vector<Elem>>("vector"), K<S, kConst, std::vector<Elem>, true>("const vector"), K<S, kConst, std::list<Elem>>("list", true),
              K<S, kConst, std::set<Elem>>("set", true), K<S, kConst, mbo::container::LimitedSet<Elem, 6>>("LimitedSet"),
              K<S, kConst, mbo::container::LimitedVector<Elem, 6>, true>("const LimitedVector"), K<S, kConst, std::array<Elem, 3>, true>("const array")};
  w->Go();
}
void RunPairs() {
  using S = AnyScan<std::pair<const int, Elem>>;
  auto w = std::make_unique<World<S, kAny>>();
  w->kinds = {K<S, kAny, std::map<int, Elem>>("map", true), K<S, kAny, std::multimap<int, Elem>>("multimap", true),
              K<S, kAny, std::list<std::pair<const int, Elem>>>("list of pairs", true), K<S, kAny, std::vector<std::pair<const int, Elem>>>("vector of pairs")};
  w->Go();
}
void RunConv() {
  using S = ConvertingScan<View>;
  auto w = std::make_unique<World<S, kConv>>();
  w->kinds = {K<S, kConv, std::vector<Elem>>("vector"), K<S, kConv, std::vector<Elem>, true>("const vector"), K<S, kConv, std::set<Elem>>("set", true),
              K<S, kConv, std::list<Elem>>("list", true), K<S, kConv, mbo::container::LimitedVector<Elem, 6>>("LimitedVector")};
  w->Go();
}
template <class S>
void RunText() {
  auto w = std::make_unique<World<S, kConv>>();
  w->counted = false;
  w->kinds = {K<S, kConv, std::vector<std::string>>("vector<string>"), K<S, kConv, std::list<std::string>>("list<string>", true), K<S, kConv, std::deque<std::string>>("deque<string>"),
              K<S, kConv, std::vector<std::string_view>>("vector<string_view>"), K<S, kConv, std::list<const char*>>("list<const char*>", true)};
  w->next_val = 1000;
  w->Go();
}
void Run() {
  switch (sim::ChooseIndexed(6)) {
    case 0: return RunAny();
    case 1: return RunConst();
    case 2: return RunPairs();
    case 3: return RunConv();
    case 4: return RunText<ConvertingScan<std::string_view>>();
    default: return RunText<ConvertingScan<std::string>>();
  }
}
}  // namespace
const SimHarness kSimHarness = {"C24", Run, nullptr};
