// C35: JSON values: histories of edits, copies, moves and comparisons under any hash order against a plain value tree,
// serialisation to failing streams, and (THREADS) concurrent readers under a simulated schedule.
#include <cmath>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include "absl/container/flat_hash_map.h"
#include "mbo/json/json.h"
#include "sim/sim.h"
#include "absl_shim/base.h"
#ifdef THREADS
#include "sim/simsched.h"
#endif

namespace {
using mbo::json::Json;

// The value as plain data.
struct M {
  enum K { kNull, kArray, kBool, kInt, kUint, kFloat, kObject, kString } k = kNull;
  bool b = false;
  int64_t i = 0;
  uint64_t u = 0;
  double d = 0;
  std::string s;
  std::vector<M> a;
  std::map<std::string, M> o;
};
bool IsNum(const M& m) { return m.k == M::kInt || m.k == M::kUint || m.k == M::kFloat; }
Json::Kind KindOf(const M& m) {
  switch (m.k) {
    case M::kNull: return Json::Kind::kNull;
    case M::kArray: return Json::Kind::kArray;
    case M::kBool: return Json::Kind::kBool;
    case M::kObject: return Json::Kind::kObject;
    case M::kString: return Json::Kind::kString;
    default: return Json::Kind::kNumber;
  }
}
long double Num(const M& m) { return m.k == M::kInt ? (long double)m.i : m.k == M::kUint ? (long double)m.u : (long double)m.d; }
int Sign(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
int CmpNum(const M& x, const M& y) {
  const long double p = Num(x), q = Num(y);
  if (std::isnan(p) || std::isnan(q)) return int(std::isnan(p)) - int(std::isnan(q));
  return p < q ? -1 : p > q ? 1 : 0;
}
bool Equal(const M& x, const M& y) {
  if (KindOf(x) != KindOf(y)) return false;
  if (IsNum(x)) return CmpNum(x, y) == 0;
  switch (x.k) {
    case M::kBool: return x.b == y.b;
    case M::kString: return x.s == y.s;
    case M::kArray:
      if (x.a.size() != y.a.size()) return false;
      for (size_t n = 0; n < x.a.size(); ++n) if (!Equal(x.a[n], y.a[n])) return false;
      return true;
    case M::kObject: {
      if (x.o.size() != y.o.size()) return false;
      for (auto p = x.o.begin(), q = y.o.begin(); p != x.o.end(); ++p, ++q) if (p->first != q->first || !Equal(p->second, q->second)) return false;
      return true;
    }
    default: return true;
  }
}
size_t Nodes(const M& m) {
  size_t n = 1;
  for (const auto& x : m.a) n += Nodes(x);
  for (const auto& [k, x] : m.o) n += Nodes(x);
  return n;
}
size_t Depth(const M& m) {
  size_t n = 0;
  for (const auto& x : m.a) n = std::max(n, Depth(x));
  for (const auto& [k, x] : m.o) n = std::max(n, Depth(x));
  return n + 1;
}
std::string Show(const M& m) {
  switch (m.k) {
    case M::kNull: return "null";
    case M::kBool: return m.b ? "true" : "false";
    case M::kInt: return std::to_string(m.i);
    case M::kUint: return std::to_string(m.u) + "u";
    case M::kFloat: return std::to_string(m.d);
    case M::kString: return "'" + m.s + "'";
    case M::kArray: {
      std::string r = "[";
      for (const auto& x : m.a) r += (r.size() > 1 ? "," : "") + Show(x);
      return r + "]";
    }
    case M::kObject: {
      std::string r = "{";
      for (const auto& [k, x] : m.o) r += (r.size() > 1 ? "," : "") + k + ":" + Show(x);
      return r + "}";
    }
  }
  return "";
}

// The real value's content through its public read interface.
void Same(const Json& j, const M& m, const char* when) {
  const auto bad = [&](const char* what) { sim::Fail("wrong-value", "%s: %s differs, expected %s", when, what, sim::Quote(Show(m), 300).c_str()); };
  if (j.GetKind() != KindOf(m)) bad("kind");
  if (j.IsNull() != (m.k == M::kNull) || j.IsArray() != (m.k == M::kArray) || j.IsBool() != (m.k == M::kBool) || j.IsObject() != (m.k == M::kObject)
      || j.IsString() != (m.k == M::kString) || j.IsNumber() != IsNum(m) || j.IsFloat() != (m.k == M::kFloat)
      || j.IsSignedInt() != (m.k == M::kInt) || j.IsUnsignedInt() != (m.k == M::kUint) || j.IsInteger() != (m.k == M::kInt || m.k == M::kUint) || bool(j) == (m.k == M::kNull)) bad("classification");
  if (j.IsTrue() != (m.k == M::kBool && m.b) || j.IsFalse() != (m.k == M::kBool && !m.b)) bad("truth");
  if (m.k == M::kArray || m.k == M::kObject) {
    const size_t n = m.k == M::kArray ? m.a.size() : m.o.size();
    const auto v = j.values();
    if (v.size() != n || v.empty() != (n == 0) || size_t(std::distance(v.begin(), v.end())) != n) bad("size of the view of values");
  }
  if (j.size() != (m.k == M::kArray ? m.a.size() : m.o.size()) || j.empty() != (j.size() == 0)) bad("size");
  switch (m.k) {
    case M::kNull: if (!(j == std::nullopt)) bad("null"); break;
    case M::kBool: if (j.IsTrue() != m.b || j.IsFalse() == m.b || !(j == m.b)) bad("bool"); break;
    case M::kInt: if (!(j == m.i)) bad("integer"); break;
    case M::kUint: if (!(j == m.u)) bad("unsigned integer"); break;
    case M::kFloat: if (!(j == m.d)) bad("float"); break;
    case M::kString: if (!(j == m.s)) bad("string"); break;
    case M::kArray: {
      size_t n = 0;
      for (const Json& x : j) if (n < m.a.size()) Same(x, m.a[n++], when); else bad("number of elements");
      if (n != m.a.size()) bad("number of elements");
      if (n && (&j[0] != &*j.begin() || &j.at(n - 1) != &*j.rbegin())) bad("element address");
      break;
    }
    case M::kObject: {
      std::set<std::string> seen;
      for (const auto& [name, x] : j.property_pairs()) {
        if (!seen.insert(name).second) bad("property listed twice:");
        auto it = m.o.find(name);
        if (it == m.o.end()) bad("set of properties");
        if (!j.contains(name) || &j[name] != &x || &j.at(name) != &x) bad("property lookup");
        Same(x, it->second, when);
      }
      if (seen.size() != m.o.size() || j.contains("no such property")) bad("set of properties");
      break;
    }
  }
}
// A moved-from value holds something unspecified, but it is a value: it can be looked at, copied and used again.
M Reuse(Json& j) {
  const Json copy(std::as_const(j));
  SIM_CHECK(copy == j && copy.size() == j.size() && copy.GetKind() == j.GetKind(), "moved-from", "a moved-from value differs from its copy");
  M m;
  switch (sim::Choose(3)) {
    case 0:
      j.clear();
      SIM_CHECK(j.empty(), "moved-from", "a cleared value is not empty");
      m.k = j.IsArray() ? M::kArray : j.IsObject() ? M::kObject : M::kNull;
      break;
    case 1: j = 7; m.k = M::kInt; m.i = 7; break;
    default: j.Reset(); break;
  }
  return m;
}

const char* const kKeys[] = {"a", "b", "c", "key", "another", "z9", "", "A", "key2", "some longer property name that is on the heap"};
std::string Key() { return kKeys[sim::Choose(std::size(kKeys))]; }
std::string Text() {
  static const std::string k[] = {"", "x", "text", "null", "0", "a longer text that does not fit into the string object itself", "A b,c:d[e]{f}", std::string("x\0y", 3), std::string("x\0z", 3), "x\xff"};
  return k[sim::Choose(std::size(k))];
}

// A scalar and how it gets into the real value.
M Scalar(const std::function<void(M&, const std::function<void(Json&)>&, const std::function<Json()>&)>& use) {
  M m;
  const auto go = [&](auto v) { use(m, [v](Json& j) { j = v; }, [v] { return Json(v); }); };
  switch (sim::Choose(14)) {
    case 0: go(std::nullopt); break;
    case 1: m.k = M::kBool; m.b = sim::Choose(2); go(m.b); break;
    case 2: m.k = M::kInt; m.i = int(sim::Choose(5)) - 2; go(int(m.i)); break;
    case 3: {
      static const int64_t k[] = {INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1, 9007199254740991, 9007199254740992, 9007199254740993, -9007199254740993};
      m.k = M::kInt; m.i = sim::Choose(3) ? k[sim::Choose(8)] : int64_t(sim::U64()); go(m.i); break;
    }
    case 4: m.k = M::kInt; m.i = int8_t(sim::Choose(256)); go(int8_t(m.i)); break;
    case 5: m.k = M::kUint; m.u = sim::Choose(5); go(unsigned(m.u)); break;
    case 6: {
      static const uint64_t k[] = {INT64_MAX, uint64_t(INT64_MAX) + 1, UINT64_MAX, UINT64_MAX - 1, 9007199254740992, 9007199254740993};
      m.k = M::kUint; m.u = sim::Choose(3) ? k[sim::Choose(6)] : sim::U64(); go(m.u); break;
    }
    case 7: m.k = M::kUint; m.u = uint16_t(sim::Choose(65536)); go(uint16_t(m.u)); break;
    case 8: m.k = M::kFloat; m.d = (int(sim::Choose(9)) - 4) * 0.25; go(m.d); break;
    case 9: m.k = M::kFloat; m.d = (int(sim::Choose(9)) - 4) * 0.25; go(float(m.d)); break;
    case 10: {
      static const double k[] = {9007199254740993.0, 9223372036854775807.0, 18446744073709551615.0, -9223372036854775808.0, 1e300, -1e300, HUGE_VAL, NAN};
      m.k = M::kFloat; m.d = k[sim::Choose(8)]; go(m.d); break;
    }
    case 11: m.k = M::kString; m.s = Text(); go(m.s); break;
    case 12: { m.k = M::kString; m.s = Text().c_str(); const std::string keep = m.s; use(m, [keep](Json& j) { j = keep.c_str(); }, [keep] { return Json(keep.c_str()); }); break; }
    case 13: { m.k = M::kString; m.s = Text(); const std::string keep = m.s; use(m, [keep](Json& j) { j = std::string_view(keep); }, [keep] { return Json(std::string_view(keep)); }); break; }
  }
  return m;
}

struct At {
  Json* j;
  M* m;
  std::string path;
  int root;
};

// A strict little parser for what is serialised (texts in these runs need no escapes).
struct Parser {
  const std::string& t;
  size_t p = 0;
  bool ok = true;
  void Ws() { while (p < t.size() && std::strchr(" \n", t[p]) != nullptr) ++p; }
  bool Eat(char c) { Ws(); if (p < t.size() && t[p] == c) { ++p; return true; } return false; }
  std::string Str() {
    std::string r;
    if (!Eat('"')) { ok = false; return r; }
    while (p < t.size() && t[p] != '"') { if (t[p] == '\\' || (unsigned char)t[p] < 32) ok = false; r += t[p++]; }
    if (p >= t.size()) ok = false; else ++p;
    return r;
  }
  void Value(const M& m) {
    Ws();
    if (m.k == M::kObject) {
      std::set<std::string> seen;
      if (!Eat('{')) { ok = false; return; }
      if (!Eat('}')) {
        do {
          const std::string k = Str();
          auto it = m.o.find(k);
          if (!ok || !Eat(':') || it == m.o.end() || !seen.insert(k).second) { ok = false; return; }
          Value(it->second);
        } while (ok && Eat(','));
        if (!Eat('}')) ok = false;
      }
      if (seen.size() != m.o.size()) ok = false;
    } else if (m.k == M::kArray) {
      if (!Eat('[')) { ok = false; return; }
      for (size_t n = 0; n < m.a.size() && ok; ++n) { if (n && !Eat(',')) ok = false; Value(m.a[n]); }
      if (!Eat(']')) ok = false;
    } else if (m.k == M::kString) {
      if (Str() != m.s) ok = false;
    } else {
      std::string w;
      while (p < t.size() && std::strchr(",]} \n", t[p]) == nullptr) w += t[p++];
      if (m.k == M::kNull) ok &= w == "null";
      if (m.k == M::kBool) ok &= w == (m.b ? "true" : "false");
      if (m.k == M::kInt) ok &= w == std::to_string(m.i);
      if (m.k == M::kUint) ok &= w == std::to_string(m.u);
      if (m.k == M::kFloat && std::isfinite(m.d)) {  // to the number of digits that are written
        const double v = std::strtod(w.c_str(), nullptr);
        ok &= !w.empty() && std::fabs(v - m.d) <= std::fabs(m.d) * 1e-5;
      }
    }
  }
};
// A device that takes only so much.
struct Device : std::streambuf {
  std::string got;
  size_t room = ~size_t{0};
  int overflow(int c) override {
    if (got.size() >= room) return traits_type::eof();
    got += char(c);
    return c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    const size_t k = std::min<size_t>(n, room - got.size());
    got.append(s, k);
    return k;
  }
};
bool PrettyText(const M& m, std::string ind, std::string& out) {  // documented in the header's tests: properties in order
  switch (m.k) {
    case M::kObject: {
      out += "{";
      const char* sep = "\n";
      for (const auto& [k, x] : m.o) { out += sep + ind + "  \"" + k + "\": "; sep = ",\n"; if (!PrettyText(x, ind + "  ", out)) return false; }
      out += "\n" + ind + "}";
      return true;
    }
    case M::kArray: {
      out += "[";
      const char* sep = "\n";
      for (const auto& x : m.a) { out += sep + ind + "  "; sep = ",\n"; if (!PrettyText(x, ind + "  ", out)) return false; }
      out += "\n" + ind + "]";
      return true;
    }
    case M::kNull: out += "null"; return true;
    case M::kBool: out += m.b ? "true" : "false"; return true;
    case M::kInt: out += std::to_string(m.i); return true;
    case M::kUint: out += std::to_string(m.u); return true;
    case M::kString: out += "\"" + m.s + "\""; return true;
    case M::kFloat: return false;
  }
  return false;
}
bool Keyed(const M& m) {  // an empty key has no name to print (see DESIGN.md)
  for (unsigned char c : m.s) if (c < 32 || c > 126) return false;  // how texts are escaped is left open
  for (const auto& [k, x] : m.o) if (k.empty() || !Keyed(x)) return false;
  for (const auto& x : m.a) if (!Keyed(x)) return false;
  return true;
}
void CheckText(const Json& j, const M& m, int mode, const char* when) {
  using Mode = Json::SerializeMode;
  static const Mode k[] = {Mode::kCompact, Mode::kLine, Mode::kPretty};
  if (!Keyed(m)) return;
  const std::string t = j.Serialize(k[mode]);
  M root = m;
  if (root.k == M::kNull) root.k = M::kObject;
  Parser p{t};
  p.Value(root);
  p.Ws();
  SIM_CHECK(p.ok && p.p == t.size(), "wrong-text", "%s: mode %d gives %s for %s", when, mode, sim::Quote(t, 400).c_str(), sim::Quote(Show(m), 300).c_str());
  SIM_CHECK(mode == 2 || t.find('\n') == t.size() - 1, "wrong-text", "%s: more than one line: %s", when, sim::Quote(t, 300).c_str());
  if (mode == 2 && m.k == M::kObject) {
    std::string want;
    if (PrettyText(m, "", want)) SIM_CHECK(t == want + "\n", "text-depends-on-order", "%s: got %s, want %s", when, sim::Quote(t, 300).c_str(), sim::Quote(want, 300).c_str());
  }
}

// The same value built again, in another order.
void Build(Json& j, const M& m) {
  switch (m.k) {
    case M::kNull: j.Reset(); break;
    case M::kBool: j = m.b; break;
    case M::kInt: j = m.i; break;
    case M::kUint: j = m.u; break;
    case M::kFloat: j = m.d; break;
    case M::kString: j = m.s; break;
    case M::kArray: j.MakeArray(); for (const auto& x : m.a) Build(j.emplace_back(std::nullopt), x); break;
    case M::kObject: {
      j.MakeObject();
      std::vector<std::string> keys;
      for (const auto& [k, x] : m.o) keys.insert(keys.begin() + sim::Choose(keys.size() + 1), k);
      for (const auto& k : keys) Build(j[k], m.o.at(k));
      break;
    }
  }
}
void NewOrder() { shim::hash_seed = sim::Choose(64); }

constexpr int kRoots = 4;

void CheckOrder(const std::vector<const Json*>& js, const std::vector<const M*>& ms) {
  const size_t n = js.size();
  std::vector<std::vector<int>> c(n, std::vector<int>(n));
  for (size_t x = 0; x < n; ++x) {
    for (size_t y = 0; y < n; ++y) {
      const Json &p = *js[x], &q = *js[y];
      c[x][y] = Sign(p <=> q);
      SIM_CHECK((c[x][y] == 0) == Equal(*ms[x], *ms[y]), "wrong-equality", "%s <=> %s gives %d", Show(*ms[x]).c_str(), Show(*ms[y]).c_str(), c[x][y]);
      SIM_CHECK((p == q) == (c[x][y] == 0) && (p < q) == (c[x][y] < 0) && (p != q) == (c[x][y] != 0) && (p > q) == (c[x][y] > 0), "wrong-equality",
                "operators disagree on %s and %s", Show(*ms[x]).c_str(), Show(*ms[y]).c_str());
      if (KindOf(*ms[x]) != KindOf(*ms[y])) SIM_CHECK((c[x][y] < 0) == (KindOf(*ms[x]) < KindOf(*ms[y])), "wrong-order", "%s <=> %s gives %d", Show(*ms[x]).c_str(), Show(*ms[y]).c_str(), c[x][y]);
      if (IsNum(*ms[x]) && IsNum(*ms[y])) SIM_CHECK(c[x][y] == CmpNum(*ms[x], *ms[y]), "wrong-order", "%s <=> %s gives %d", Show(*ms[x]).c_str(), Show(*ms[y]).c_str(), c[x][y]);
      if (ms[x]->k == M::kBool && ms[y]->k == M::kBool) SIM_CHECK(c[x][y] == int(ms[x]->b) - int(ms[y]->b), "wrong-order", "%s <=> %s gives %d", Show(*ms[x]).c_str(), Show(*ms[y]).c_str(), c[x][y]);
      if (ms[x]->k == M::kString && ms[y]->k == M::kString) SIM_CHECK((c[x][y] < 0) == (ms[x]->s < ms[y]->s), "wrong-order", "%s <=> %s gives %d", Show(*ms[x]).c_str(), Show(*ms[y]).c_str(), c[x][y]);
    }
  }
  for (size_t x = 0; x < n; ++x)
    for (size_t y = 0; y < n; ++y) {
      SIM_CHECK(c[x][y] == -c[y][x], "no-total-order", "%s and %s are ordered both ways", Show(*ms[x]).c_str(), Show(*ms[y]).c_str());
      for (size_t z = 0; z < n; ++z)
        SIM_CHECK(!(c[x][y] <= 0 && c[y][z] <= 0) || c[x][z] <= 0, "no-total-order", "%s, %s, %s do not chain", Show(*ms[x]).c_str(), Show(*ms[y]).c_str(), Show(*ms[z]).c_str());
    }
}

const Json* use = nullptr;
std::string text;
// Tried by a copy of this process.
[[maybe_unused]] void Refused(const std::function<void()>& op, const std::string& what) {
  const pid_t pid = fork();
  if (pid == 0) {
    const int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 2);
    signal(SIGABRT, SIG_DFL);
    op();
    _exit(77);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  SIM_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "not-refused", "%s: wait status 0x%x", what.c_str(), st);
  sim::Probe("impossible request refused");
  sim::Fault("impossible request");
}

#ifndef THREADS
struct Run {
  Json j[kRoots];
  M m[kRoots];
  std::ostringstream console;

  At Pick(int root = -1) {
    At at{nullptr, nullptr, "", root >= 0 ? root : int(sim::Choose(kRoots))};
    at.j = &j[at.root];
    at.m = &m[at.root];
    at.path = "r" + std::to_string(at.root);
    while (sim::Choose(3)) {
      if (at.m->k == M::kArray && !at.m->a.empty()) {
        const size_t n = sim::Choose(at.m->a.size());
        at = {sim::Choose(2) ? &(*at.j)[n] : &at.j->at(n), &at.m->a[n], at.path + "[" + std::to_string(n) + "]", at.root};
      } else if (at.m->k == M::kObject && !at.m->o.empty()) {
        auto it = std::next(at.m->o.begin(), sim::Choose(at.m->o.size()));
        at = {sim::Choose(2) ? &(*at.j)[it->first] : &at.j->at(it->first), &it->second, at.path + "." + it->first, at.root};
      } else break;
    }
    return at;
  }
  // A value to put somewhere: scalar, or copied or moved from somewhere. Calls put(json getter) while the sources are alive.
  void Put(const At& to, const std::function<void(Json&, M)>& copy, const std::function<void(Json&&, M)>& move, std::string& what) {
    const At from = Pick();
    if (Nodes(m[to.root]) + Nodes(*from.m) > 120 || Depth(m[to.root]) + Depth(*from.m) > 12) { what = "too big"; return; }
    if (sim::Choose(3) == 1 && from.root != to.root) {
      what = "move " + from.path;
      M v = *from.m;
      move(std::move(*from.j), std::move(v));
      *from.m = Reuse(*from.j);
      sim::Probe("moved-from value used again");
      return;
    }
    what = "copy " + from.path;
    if (from.root == to.root) sim::Probe("copied within one value");
    M v = *from.m;
    copy(*from.j, std::move(v));
  }

  void Edit() {
    NewOrder();
    At at = Pick();
    Json& x = *at.j;
    M& y = *at.m;
    std::string what;
    switch (sim::Choose(20)) {
      case 0: {
        what = "assign scalar";
        if (sim::Choose(8) == 1) {
          const std::unique_ptr<Json> nothing;
          x = nothing;
          y = M{};
          break;
        }
        y = Scalar([&](M&, const auto& assign, const auto&) { assign(x); });
        break;
      }
      case 1:
        if (y.k != M::kNull && y.k != M::kArray) return;
        what = "MakeArray";
        x.MakeArray();
        y.k = M::kArray;
        break;
      case 2:
        if (y.k != M::kNull && y.k != M::kObject) return;
        what = "MakeObject";
        x.MakeObject();
        y.k = M::kObject;
        break;
      case 3:
        if (y.k != M::kNull && y.k != M::kString) return;
        what = "MakeString";
        {
          const std::string t = Text();
          x.MakeString(t);
          if (y.k == M::kNull) y.k = M::kString, y.s = t;
        }
        break;
      case 4: {
        if (y.k != M::kNull && y.k != M::kArray) return;
        const int how = sim::Choose(3);
        what = "push_back ";
        y.k = M::kArray;
        if (how == 0) {
          M v = Scalar([&](M&, const auto&, const auto& make) { if (sim::Choose(2)) x.push_back(make()); else { Json& r = x.emplace_back(make()); SIM_CHECK(&r == &x[x.size() - 1], "wrong-reference", "emplace_back"); } });
          y.a.push_back(std::move(v));
          break;
        }
        x.MakeArray();
        std::string w;
        Put(at, [&](Json& f, M v) {
              if (how == 1) x.push_back(f); else x.emplace_back(std::as_const(f));
              y.a.push_back(std::move(v));
            },
            [&](Json&& f, M v) { x.push_back(std::move(f)); y.a.push_back(std::move(v)); }, w);
        what += w;
        break;
      }
      case 5: {
        if (y.k != M::kNull && y.k != M::kObject) return;
        const std::string key = Key();
        const int how = sim::Choose(2);
        what = "emplace " + key + " ";
        x.MakeObject();
        y.k = M::kObject;
        const bool had = y.o.count(key);
        const auto ref = [&](Json& r) { SIM_CHECK(&r == &std::as_const(x)[key], "wrong-reference", "emplace"); };
        if (how == 0) {
          M v = Scalar([&](M&, const auto&, const auto& make) { ref(x.emplace(key, make())); });
          if (!had) y.o[key] = std::move(v);
          break;
        }
        std::string w;
        Put(at, [&](Json& f, M v) { ref(x.emplace(key, f)); y.o.emplace(key, std::move(v)); },
            [&](Json&& f, M v) { ref(x.emplace(key, std::move(f))); y.o.emplace(key, std::move(v)); }, w);
        what += w;
        break;
      }
      case 6: {
        if (y.k != M::kNull && y.k != M::kObject) return;
        const std::string key = Key();
        what = "[" + key + "]";
        y.k = M::kObject;
        Json& r = x[key];
        M& v = y.o[key];
        Same(r, v, "property just looked up");
        if (sim::Choose(2)) v = Scalar([&](M&, const auto& assign, const auto&) { assign(r); });
        break;
      }
      case 7: {
        const std::string key = Key();
        what = "erase " + key;
        SIM_CHECK(x.erase(key) == (y.k == M::kObject ? y.o.erase(key) : 0), "wrong-value", "number of properties erased");
        break;
      }
      case 8:
        if (y.k != M::kArray || y.a.empty()) return;
        what = "pop_back";
        x.pop_back();
        y.a.pop_back();
        break;
      case 9: {
        if (y.k != M::kArray || y.a.empty()) return;
        const size_t n = sim::Choose(y.a.size()), e = n + sim::Choose(y.a.size() - n + 1);
        what = "erase elements";
        if (sim::Choose(2)) {
          auto it = x.erase(x.begin() + n);
          y.a.erase(y.a.begin() + n);
          SIM_CHECK(size_t(it - x.begin()) == n, "wrong-reference", "erase");
        } else {
          auto it = x.erase(x.begin() + n, x.begin() + e);
          y.a.erase(y.a.begin() + n, y.a.begin() + e);
          SIM_CHECK(size_t(it - x.begin()) == n, "wrong-reference", "erase range");
        }
        break;
      }
      case 10: {
        if (y.k != M::kArray) return;
        const size_t n = sim::Choose(y.a.size() + 4);
        what = "resize " + std::to_string(n);
        if (sim::Choose(2)) {
          x.resize(n);
          y.a.resize(n);
        } else {
          x.resize(n, "filled");
          M v;
          v.k = M::kString;
          v.s = "filled";
          y.a.resize(n, v);
        }
        break;
      }
      case 11:
        what = "clear";
        x.clear();
        if (y.k == M::kArray) y.a.clear(); else if (y.k == M::kObject) y.o.clear(); else y = M{};
        break;
      case 12: what = "Reset"; x.Reset(); y = M{}; break;
      case 13: case 14: {  // assignment
        const int how = sim::Choose(4);
        what = "= ";
        std::string w;
        Put(at, [&](Json& f, M v) {
              if (how == 0) x = f;
              if (how == 1) x = std::as_const(f);
              if (how == 2) { Json t(f); x = std::move(t); }
              if (how == 3) { const auto p = std::make_unique<Json>(std::as_const(f)); x = p; }
              y = std::move(v);
            },
            [&](Json&& f, M v) { x = std::move(f); y = std::move(v); }, w);
        what += w + " how " + std::to_string(how);
        break;
      }
      case 15: {  // element or property by value iterator
        if ((y.k != M::kArray && y.k != M::kObject) || x.empty()) return;
        const size_t n = sim::Choose(x.size());
        Json::value_iterator it = x.values().begin();
        Json::const_value_iterator cit = std::as_const(x).values().begin();
        for (size_t s = 0; s < n; ++s) {
          const Json* const here = &*it;
          if (sim::Choose(2)) SIM_CHECK(&(++it) == &it, "wrong-iteration", "++iterator"); else SIM_CHECK(&*(it++) == here, "wrong-iteration", "iterator++ gives another element");
          ++cit;
        }
        SIM_CHECK(&*it == &*cit && it.operator->() == &*it && Json::const_value_iterator(it) == cit, "wrong-iteration", "value iterators at %zu", n);
        what = "erase by value iterator";
        std::string gone;
        if (y.k == M::kObject) for (const auto& [k, v] : x.property_pairs()) if (&v == &*it) gone = k;
        const size_t size = x.size();
        if (sim::Choose(2)) {
          auto after = cit;
          const Json* const next = n + 1 < size ? &*++after : nullptr;
          const bool object = y.k == M::kObject;
          const Json::value_iterator got = x.erase(cit);
          SIM_CHECK(next == nullptr ? got == x.values().end() : object ? &*got == next : &*got == &x[n], "wrong-reference", "what erase() gives is not what followed");
          if (object) y.o.erase(gone); else y.a.erase(y.a.begin() + n);
        } else {
          Json::const_value_iterator e = cit;
          size_t k = sim::Choose(uint32_t(size - n + 1));
          std::set<std::string> names;
          for (size_t s = 0; s < k; ++s, ++e)
            if (y.k == M::kObject) for (const auto& [p, v] : x.property_pairs()) if (&v == &*e) names.insert(p);
          SIM_CHECK((e == std::as_const(x).values().end()) == (n + k == size), "wrong-iteration", "end of values");
          const bool object = y.k == M::kObject;
          const Json* const next = n + k < size ? &*e : nullptr;
          const Json::value_iterator got = x.erase(cit, e);
          SIM_CHECK(next == nullptr ? got == x.values().end() : object ? &*got == next : &*got == &x[n], "wrong-reference", "what erase(first, last) gives is not what followed");
          if (y.k == M::kObject) for (const auto& p : names) y.o.erase(p); else y.a.erase(y.a.begin() + n, y.a.begin() + n + k);
        }
        break;
      }
      case 16: {  // moved within one value: an element takes its place
        what = "= own element, moved";
        if (y.k == M::kArray && !y.a.empty()) {
          const size_t n = sim::Choose(y.a.size());
          M v = y.a[n];
          x = std::move(x[n]);
          y = std::move(v);
        } else if (y.k == M::kObject && !y.o.empty()) {
          const std::string k = std::next(y.o.begin(), sim::Choose(y.o.size()))->first;
          M v = y.o[k];
          x = std::move(x[k]);
          y = std::move(v);
        } else return;
        sim::Probe("moved from within");
        break;
      }
      case 17: {  // swap
        At o = Pick();
        if (o.root == at.root) return;
        if (Depth(m[o.root]) + Depth(y) > 12 || Depth(m[at.root]) + Depth(*o.m) > 12) return;
        what = "swap with " + o.path;
        std::swap(x, *o.j);
        std::swap(y, *o.m);
        break;
      }
      case 19: {  // a request the value cannot serve ends the program and is not carried out in part
        if (sim::Choose(4)) return;
        what = "refused: ";
        const bool arr = y.k == M::kArray, obj = y.k == M::kObject, null = y.k == M::kNull;
        const size_t far = y.a.size() + sim::Choose(3);
        const std::string key = Key();
        const Json& cx = x;
        switch (sim::Choose(16)) {
          case 0: if (null || arr) return; Refused([&] { x.MakeArray(); }, what += "MakeArray"); break;
          case 1: if (null || obj) return; Refused([&] { x.MakeObject(); }, what += "MakeObject"); break;
          case 2: if (null || y.k == M::kString) return; Refused([&] { x.MakeString("x"); }, what += "MakeString"); break;
          case 3: if (null || arr) return; Refused([&] { x.push_back(1); }, what += "push_back"); break;
          case 4: if (null || arr) return; Refused([&] { x.emplace_back(1); }, what += "emplace_back"); break;
          case 5: if (null || obj) return; Refused([&] { x.emplace(key, 1); }, what += "emplace"); break;
          case 6: Refused([&] { use = &x[far]; }, what += "[index]"); break;
          case 7: Refused([&] { use = &cx[far]; }, what += "const [index]"); break;
          case 8: Refused([&] { use = &(sim::Choose(2) ? x.at(far) : cx.at(far)); }, what += "at(index)"); break;
          case 9: if (null || obj) return; Refused([&] { use = &x[key]; }, what += "[name]"); break;
          case 10: if (y.o.count(key)) return; Refused([&] { use = &cx[key]; }, what += "const [name]"); break;
          case 11: if (arr) return; Refused([&] { x.pop_back(); }, what += "pop_back"); break;
          case 12: if (arr) return; Refused([&] { x.resize(1); }, what += "resize"); break;
          case 13: if (arr) return; Refused([&] { use = &*x.begin(); }, what += "begin"); break;
          case 14: if (arr || obj) return; Refused([&] { use = &*x.values().begin(); }, what += "values"); break;
          case 15: if (null || obj) return; Refused([&] { text = x.Serialize(); }, what += "Serialize"); break;
        }
        break;
      }
      case 18: {  // read from everywhere
        what = "read";
        if (y.k == M::kArray || y.k == M::kObject) {
          std::vector<const Json*> p, q;
          for (Json& v : x.values()) p.push_back(&v);
          for (const Json& v : std::as_const(x).values()) q.push_back(&v);
          SIM_CHECK(p == q && p.size() == x.size(), "wrong-iteration", "values(): %zu and %zu of %zu", p.size(), q.size(), x.size());
          if (y.k == M::kArray) {
            size_t n = 0;
            for (Json& v : x.array_values()) SIM_CHECK(&v == p[n++], "wrong-iteration", "array_values()");
            for (auto it = x.rbegin(); it != x.rend(); ++it) SIM_CHECK(&*it == p[--n], "wrong-iteration", "rbegin()");
          } else {
            std::vector<const Json*> r, s;
            for (Json& v : x.property_values()) r.push_back(&v);
            std::vector<std::string> names;
            for (const auto& k : x.property_names()) { names.push_back(k); s.push_back(&std::as_const(x)[k]); }
            SIM_CHECK(p == r && p == s, "wrong-iteration", "property views disagree");
          }
        }
        break;
      }
    }
    sim::Ev("%s: %s -> %s", at.path.c_str(), what.c_str(), Show(m[at.root]).substr(0, 160).c_str());
    sim::State(sim::Hash64(what.substr(0, 12)) * 31 + y.k * 8 + std::min<size_t>(Nodes(y), 7));
  }
};
#endif
}  // namespace

static void RunOnce() {
#ifndef THREADS
  Run r;
  auto* const old = std::cout.rdbuf(r.console.rdbuf());
  const int ops = 4 + sim::Choose(40);
  for (int n = 0; n < ops; ++n) {
    {
      sim::Span span("op");
      r.Edit();
      for (int k = 0; k < kRoots; ++k) Same(r.j[k], r.m[k], "after the operation");
      const int look = sim::Choose(6);
      if (look == 1) {  // the same value built again in another order compares equal and the same
        const At at = r.Pick();
        NewOrder();
        Json again;
        Build(again, *at.m);
        NewOrder();
        const Json copy(again);
        const At other = r.Pick();
        sim::Ev("compare %s, rebuilt and copied, with %s", at.path.c_str(), other.path.c_str());
        CheckOrder({at.j, &again, &copy, other.j, &r.j[0], &r.j[1]}, {at.m, at.m, at.m, other.m, &r.m[0], &r.m[1]});
        if (at.m->k == M::kObject && at.m->o.size() > 1) { sim::Probe("object compared with its rebuilt self"); sim::NonTrivial(); }
      } else if (look == 2) {
        const At at = r.Pick();
        if (at.m->k == M::kObject || at.m->k == M::kNull) {
          CheckText(*at.j, *at.m, sim::Choose(3), at.path.c_str());
          if (Keyed(*at.m)) {  // a device that takes only a part
            Device dev;
            std::ostream os(&dev);
            const std::string all = at.j->Serialize();
            dev.room = sim::Choose(uint32_t(all.size() + 2));
            at.j->Stream(os);
            const bool whole = dev.room >= all.size();
            if (!whole) { sim::Fault("device full"); sim::Probe("serialised to a full device"); }
            SIM_CHECK(dev.got == all.substr(0, dev.room) && bool(os) == whole, "wrong-text", "device took %zu of %zu bytes, stream %s", dev.got.size(), all.size(), os ? "good" : "bad");
            sim::Ev("serialise %s to %zu of %zu", at.path.c_str(), std::min(dev.room, all.size()), all.size());
          }
        }
      } else if (look == 4) {  // with plain values
        const At at = r.Pick();
        const Json& x = *at.j;
        M v = Scalar([&](M&, const auto&, const auto&) {});
        const M& y = *at.m;
        int got = 0;
        bool eq = false, lt = false;
        const auto cmp = [&](const auto& w) { got = Sign(x <=> w); eq = x == w; lt = x < w; };
        if (!(IsNum(y) && IsNum(v)) && KindOf(y) != KindOf(v)) continue;
        if (v.k == M::kBool) cmp(v.b);
        else if (v.k == M::kInt) { if (v.i == int(v.i) && sim::Choose(2)) cmp(int(v.i)); else cmp(v.i); }
        else if (v.k == M::kUint) { if (v.u == unsigned(v.u) && sim::Choose(2)) cmp(unsigned(v.u)); else cmp(v.u); }
        else if (v.k == M::kFloat) cmp(v.d);
        else if (v.k == M::kString) { if (sim::Choose(2)) cmp(v.s); else cmp(std::string_view(v.s)); }
        else continue;
        const int want = IsNum(y) ? CmpNum(y, v) : y.k == M::kBool ? int(y.b) - int(v.b) : y.s < v.s ? -1 : y.s > v.s;
        SIM_CHECK(got == want && eq == (want == 0) && lt == (want < 0), "wrong-order", "%s compared with the plain value %s: %d, == %d, < %d", Show(y).c_str(), Show(v).c_str(), got, eq, lt);
        sim::Probe("compared with a plain value");
      } else if (look == 3) {
        std::vector<const Json*> js;
        std::vector<const M*> ms;
        for (int k = 0; k < 5; ++k) { const At at = r.Pick(); js.push_back(at.j); ms.push_back(at.m); }
        CheckOrder(js, ms);
      }
      SIM_CHECK(r.console.str().empty(), "stray-output", "written to standard output: %s", sim::Quote(r.console.str()).c_str());
    }
  }
  size_t nodes = 0;
  for (const auto& m : r.m) nodes += Nodes(m);
  if (nodes > 8) sim::NonTrivial();
  std::cout.rdbuf(old);
#else
  // Several threads read one value that nobody changes.
  M m;
  Json j;
  std::function<void(M&, int)> grow = [&](M& x, int depth) {
    const int kind = depth >= 3 ? 2 : sim::Choose(3);
    if (kind == 0) {
      x.k = M::kObject;
      for (int n = sim::Choose(4); n >= 0; --n) grow(x.o[kKeys[sim::Choose(5)]], depth + 1);
    } else if (kind == 1) {
      x.k = M::kArray;
      x.a.resize(1 + sim::Choose(3));
      for (auto& y : x.a) grow(y, depth + 1);
    } else x = Scalar([](M&, const auto&, const auto&) {});
  };
  m.k = M::kObject;
  grow(m.o["root"], 0);
  grow(m.o["a"], 1);
  NewOrder();
  Build(j, m);
  const Json& shared = j;
  Json other;
  Build(other, m);
  const int nt = 2 + sim::Choose(2);
  struct Plan { std::vector<int> ops; };
  std::vector<Plan> plans(nt);
  for (auto& p : plans) for (int n = sim::Choose(3); n >= 0; --n) p.ops.push_back(sim::Choose(5));
  std::vector<std::vector<std::string>> texts(nt);
  std::vector<int> wrong(nt);
  std::vector<std::unique_ptr<Json>> copies(nt);
  sched::Begin();
  for (int t = 0; t < nt; ++t) {
    sched::Spawn([&, t] {
      for (int op : plans[t].ops) {
        if (op < 3) texts[t].push_back(shared.Serialize(op == 0 ? Json::SerializeMode::kCompact : op == 1 ? Json::SerializeMode::kLine : Json::SerializeMode::kPretty));
        if (op == 3) copies[t] = std::make_unique<Json>(shared);
        if (op == 4) wrong[t] += !(shared == other);
      }
    });
  }
  sched::RunAll();
  if (sched::Switches() >= 2) sim::NonTrivial();
  Same(j, m, "after the threads");
  for (int t = 0; t < nt; ++t) {
    size_t n = 0;
    for (int op : plans[t].ops) {
      if (op < 3) {
        const std::string want = shared.Serialize(op == 0 ? Json::SerializeMode::kCompact : op == 1 ? Json::SerializeMode::kLine : Json::SerializeMode::kPretty);
        SIM_CHECK(texts[t][n] == want, "wrong-text", "thread got %s, not %s", sim::Quote(texts[t][n]).c_str(), sim::Quote(want).c_str());
        ++n;
      }
    }
    SIM_CHECK(!wrong[t], "wrong-equality", "equal values compared unequal in a thread");
    if (copies[t]) Same(*copies[t], m, "copy made in a thread");
    sim::Ev("thread %d: %zu operations, %zu texts", t, plans[t].ops.size(), n);
  }
  sim::Probe("several readers");
  sim::State(sim::Hash64("par", std::min<uint64_t>(sched::Switches(), 20) * 8 + nt));
#endif
}

const SimHarness kSimHarness = {"json_value", RunOnce, nullptr};
