#include "re2/re2.h"

#include <map>

namespace {
constexpr int kBad = -1;  // an invalid byte
int Decode(std::string_view t, size_t i, size_t* n) {
  const unsigned char c = t[i];
  *n = 1;
  if (c < 0x80) return c;
  auto k = [&](size_t j) { return i + j < t.size() && (static_cast<unsigned char>(t[i + j]) & 0xC0) == 0x80; };
  auto b = [&](size_t j) { return static_cast<unsigned char>(t[i + j]) & 0x3F; };
  if (c >= 0xC2 && c < 0xE0 && k(1)) { *n = 2; return ((c & 0x1F) << 6) | b(1); }
  if (c >= 0xE0 && c < 0xF0 && k(1) && k(2)) {
    const int r = ((c & 0xF) << 12) | (b(1) << 6) | b(2);
    if (r >= 0x800 && (r < 0xD800 || r > 0xDFFF)) { *n = 3; return r; }
  }
  if (c >= 0xF0 && c < 0xF5 && k(1) && k(2) && k(3)) {
    const int r = ((c & 7) << 18) | (b(1) << 12) | (b(2) << 6) | b(3);
    if (r >= 0x10000 && r <= 0x10FFFF) { *n = 4; return r; }
  }
  return kBad;
}
using Ranges = std::vector<std::pair<int, int>>;
Ranges Negate(Ranges r) {
  std::sort(r.begin(), r.end());
  Ranges out;
  int next = 0;
  for (auto [a, b] : r) { if (a > next) out.emplace_back(next, a - 1); next = std::max(next, b + 1); }
  if (next <= 0x10FFFF) out.emplace_back(next, 0x10FFFF);
  return out;
}
void FoldAscii(Ranges* r) {
  const Ranges in = *r;
  for (auto [a, b] : in) {
    const int l = std::max(a, int('a')), h = std::min(b, int('z'));
    if (l <= h) r->emplace_back(l - 32, h - 32);
    const int L = std::max(a, int('A')), H = std::min(b, int('Z'));
    if (L <= H) r->emplace_back(L + 32, H + 32);
  }
}
const std::map<std::string, Ranges, std::less<>>& Posix() {
  static const auto* m = new std::map<std::string, Ranges, std::less<>>{
      {"alnum", {{'0', '9'}, {'A', 'Z'}, {'a', 'z'}}}, {"alpha", {{'A', 'Z'}, {'a', 'z'}}}, {"ascii", {{0, 127}}}, {"blank", {{'\t', '\t'}, {' ', ' '}}},
      {"cntrl", {{0, 31}, {127, 127}}}, {"digit", {{'0', '9'}}}, {"graph", {{'!', '~'}}}, {"lower", {{'a', 'z'}}}, {"print", {{' ', '~'}}},
      {"punct", {{'!', '/'}, {':', '@'}, {'[', '`'}, {'{', '~'}}}, {"space", {{9, 13}, {' ', ' '}}}, {"upper", {{'A', 'Z'}}},
      {"word", {{'0', '9'}, {'A', 'Z'}, {'a', 'z'}, {'_', '_'}}}, {"xdigit", {{'0', '9'}, {'A', 'F'}, {'a', 'f'}}}};
  return *m;
}
bool IsWord(int c) { return absl::ascii_isalnum(c) || c == '_'; }
}  // namespace

struct RE2::Prog {
  enum Op { kChar, kAny, kByte, kAlt, kSave, kAssert, kJmp, kMatch };
  struct Inst { Op op; int x = 0, y = 0; Ranges r; };
  std::vector<Inst> code;
};
RE2::~RE2() = default;

namespace {
struct Node {
  enum Kind { kEmpty, kSet, kByte, kCat, kAlt, kRep, kGroup, kAssert } kind = kEmpty;
  Ranges r;
  std::vector<Node> kids;
  int min = 0, max = -1, cap = 0;
  bool greedy = true;
};
struct Err { RE2::ErrorCode code; std::string arg; };
struct Parser {
  std::string_view p;
  size_t i = 0;
  int ngroup = 0;
  bool fold, dotnl, multi = false, ungreedy = false;
  std::optional<Err> err;
  bool Fail(RE2::ErrorCode c, std::string_view a) { if (!err) err = Err{c, std::string(a)}; return false; }
  bool More() const { return i < p.size(); }
  Node Set(Ranges r) { if (fold) FoldAscii(&r); Node n; n.kind = Node::kSet; n.r = std::move(r); return n; }
  Node Assert(int c) { Node n; n.kind = Node::kAssert; n.cap = c; return n; }
  int depth = 0;
  Node Alt() {
    Node n;
    n.kind = Node::kAlt;
    if (++depth > 500) { Fail(RE2::ErrorInternal, "deep"); return n; }
    do { n.kids.push_back(Cat()); } while (!err && More() && p[i] == '|' && ++i);
    --depth;
    if (n.kids.size() == 1) return Node(std::move(n.kids[0]));
    return n;
  }
  Node Cat() {
    Node n;
    n.kind = Node::kCat;
    bool last_was_op = false;
    size_t op_at = 0;
    while (!err && More() && p[i] != '|' && p[i] != ')') {
      const char c = p[i];
      int mn = 0, mx = -1;
      const size_t at = i;
      bool rep = false;
      if (c == '*' || c == '+' || c == '?') { mn = c == '+'; mx = c == '?' ? 1 : -1; ++i; rep = true; }
      else if (c == '{' && Braces(&mn, &mx)) rep = true;
      if (rep) {
        bool lazy = false;
        if (More() && p[i] == '?') { lazy = true; ++i; }
        if (n.kids.empty()) { Fail(RE2::ErrorRepeatArgument, p.substr(at, i - at)); break; }
        if (last_was_op) { Fail(RE2::ErrorRepeatOp, p.substr(op_at, i - op_at)); break; }
        if (mn > 1000 || mx > 1000 || (mx >= 0 && mx < mn)) { Fail(RE2::ErrorRepeatSize, p.substr(at, i - at)); break; }
        Node r;
        r.kind = Node::kRep; r.min = mn; r.max = mx; r.greedy = lazy == ungreedy;
        r.kids.push_back(std::move(n.kids.back()));
        n.kids.back() = std::move(r);
        last_was_op = true;
        op_at = at;
        continue;
      }
      last_was_op = false;
      Atom(&n);
    }
    return n;
  }
  bool Braces(int* mn, int* mx) {
    size_t j = i + 1;
    auto num = [&](int* v) { const size_t s = j; *v = 0; while (j < p.size() && absl::ascii_isdigit(p[j])) { *v = std::min(*v * 10 + (p[j] - '0'), 100000); ++j; } return j > s; };
    if (!num(mn)) return false;
    if (j < p.size() && p[j] == ',') { ++j; if (j < p.size() && p[j] == '}') *mx = -1; else if (!num(mx)) return false; }
    else *mx = *mn;
    if (j >= p.size() || p[j] != '}') return false;
    i = j + 1;
    return true;
  }
  void Atom(Node* out) {
    const char c = p[i];
    switch (c) {
      case '(': return Group(out);
      case '[': { Ranges r; if (Class(&r)) { Node n; n.kind = Node::kSet; n.r = std::move(r); out->kids.push_back(std::move(n)); } return; }
      case '.': { ++i; Node n; n.kind = Node::kSet; n.r = dotnl ? Ranges{{0, 0x10FFFF}} : Negate({{'\n', '\n'}}); out->kids.push_back(std::move(n)); return; }
      case '^': ++i; out->kids.push_back(Assert(multi ? '^' : 'A')); return;
      case '$': ++i; out->kids.push_back(Assert(multi ? '$' : 'z')); return;
      case '\\': break;
      default: {
        size_t n = 1;
        const int r = Decode(p, i, &n);
        if (r == kBad) { Fail(RE2::ErrorBadUTF8, ""); return; }
        i += n;
        out->kids.push_back(Set({{r, r}}));
        return;
      }
    }
    if (i + 1 >= p.size()) { Fail(RE2::ErrorTrailingBackslash, "\\"); return; }
    const char e = p[i + 1];
    switch (e) {
      case 'b': case 'B': case 'A': case 'z': i += 2; out->kids.push_back(Assert(e)); return;
      case 'C': { i += 2; Node n; n.kind = Node::kByte; out->kids.push_back(std::move(n)); return; }
      case 'Q': {
        i += 2;
        while (More() && p.substr(i, 2) != "\\E") { size_t n; const int r = Decode(p, i, &n); if (r == kBad) { Fail(RE2::ErrorBadUTF8, ""); return; } i += n; out->kids.push_back(Set({{r, r}})); }
        if (More()) i += 2;
        return;
      }
      default: break;
    }
    Ranges r;
    if (PerlClass(&r)) { Node n; n.kind = Node::kSet; n.r = std::move(r); out->kids.push_back(std::move(n)); return; }
    int ch = 0;
    if (!Escape(&ch)) return;
    out->kids.push_back(Set({{ch, ch}}));
  }
  bool PerlClass(Ranges* r) {
    if (i + 1 >= p.size() || p[i] != '\\') return false;
    const char e = p[i + 1];
    Ranges x;
    switch (e | 32) {
      case 'd': x = {{'0', '9'}}; break;
      case 'w': x = Posix().at("word"); break;
      case 's': x = {{'\t', '\n'}, {'\f', '\r'}, {' ', ' '}}; break;
      default: return false;
    }
    if (absl::ascii_isupper(e)) x = Negate(x);
    r->insert(r->end(), x.begin(), x.end());
    i += 2;
    return true;
  }
  bool Escape(int* out) {
    const size_t at = i;
    if (i + 1 >= p.size()) return Fail(RE2::ErrorTrailingBackslash, "\\");
    ++i;
    const unsigned char c = p[i];
    if (c < 0x80 && !IsWord(c)) { *out = c; ++i; return true; }
    auto oct = [&](int max) { int v = 0; while (max-- > 0 && More() && p[i] >= '0' && p[i] <= '7') v = v * 8 + (p[i++] - '0'); *out = v; return true; };
    switch (c) {
      case '0': return oct(3);
      case '1': case '2': case '3': case '4': case '5': case '6': case '7':
        if (i + 1 < p.size() && p[i + 1] >= '0' && p[i + 1] <= '7') return oct(3);
        break;
      case 'a': *out = 7; ++i; return true;
      case 'f': *out = 12; ++i; return true;
      case 'n': *out = 10; ++i; return true;
      case 'r': *out = 13; ++i; return true;
      case 't': *out = 9; ++i; return true;
      case 'v': *out = 11; ++i; return true;
      case 'x': {
        ++i;
        auto hex = [](char h) { return absl::ascii_isdigit(h) ? h - '0' : (h | 32) - 'a' + 10; };
        if (More() && p[i] == '{') {
          int v = 0, n = 0;
          for (++i; More() && absl::ascii_isxdigit(p[i]); ++i, ++n) v = std::min(v * 16 + hex(p[i]), 0x200000);
          if (!n || !More() || p[i] != '}' || v > 0x10FFFF) break;
          ++i; *out = v; return true;
        }
        if (i + 1 < p.size() && absl::ascii_isxdigit(p[i]) && absl::ascii_isxdigit(p[i + 1])) { *out = hex(p[i]) * 16 + hex(p[i + 1]); i += 2; return true; }
        break;
      }
      default: break;
    }
    return Fail(RE2::ErrorBadEscape, p.substr(at, 2));
  }
  bool Class(Ranges* out) {
    const size_t at = i++;
    bool neg = false;
    if (More() && p[i] == '^') { neg = true; ++i; }
    bool first = true;
    Ranges r;
    while (More() && (p[i] != ']' || first)) {
      if (p[i] == '-' && !first && !(i + 1 < p.size() && p[i + 1] == ']')) {
        // a dash that is neither first nor last and not part of a range
        size_t n = 1;
        if (i + 1 < p.size()) Decode(p, i + 1, &n);
        return Fail(RE2::ErrorBadCharRange, p.substr(i, 1 + n));
      }
      first = false;
      if (p.substr(i, 2) == "[:") {
        const size_t e = p.find(":]", i + 2);
        if (e != p.npos) {
          std::string_view name = p.substr(i + 2, e - i - 2);
          const bool pn = absl::ConsumePrefix(&name, "^");
          auto it = Posix().find(name);
          if (it == Posix().end()) return Fail(RE2::ErrorBadCharRange, p.substr(i, e + 2 - i));
          Ranges x = it->second;
          if (fold) FoldAscii(&x);
          if (pn) x = Negate(x);
          r.insert(r.end(), x.begin(), x.end());
          i = e + 2;
          continue;
        }
      }
      if (PerlClass(&r)) continue;
      const size_t rs = i;
      int lo = 0, hi = 0;
      if (!ClassChar(&lo, at)) return false;
      hi = lo;
      if (i + 1 < p.size() && p[i] == '-' && p[i + 1] != ']') {
        ++i;
        if (!ClassChar(&hi, at)) return false;
        if (hi < lo) return Fail(RE2::ErrorBadCharRange, p.substr(rs, i - rs));
      }
      r.emplace_back(lo, hi);
    }
    if (!More()) return Fail(RE2::ErrorMissingBracket, p.substr(at));
    ++i;
    if (fold) FoldAscii(&r);
    *out = neg ? Negate(r) : r;
    return true;
  }
  bool ClassChar(int* c, size_t at) {
    if (!More()) return Fail(RE2::ErrorMissingBracket, p.substr(at));
    if (p[i] == '\\') return Escape(c);
    size_t n = 1;
    *c = Decode(p, i, &n);
    if (*c == kBad) return Fail(RE2::ErrorBadUTF8, "");
    i += n;
    return true;
  }
  void Group(Node* out) {
    const size_t at = i++;
    const bool f0 = fold, d0 = dotnl, m0 = multi, u0 = ungreedy;
    int cap = 0;
    if (p.substr(i, 2) == "?P" || (p.substr(i, 2) == "?<")) {
      const size_t lt = p.substr(i, 3) == "?P<" ? i + 3 : p.substr(i, 2) == "?<" ? i + 2 : p.npos;
      const size_t gt = lt == p.npos ? lt : p.find('>', lt);
      if (gt == p.npos || gt == lt) { Fail(RE2::ErrorBadNamedCapture, p.substr(at)); return; }
      for (size_t k = lt; k < gt; ++k) if (!IsWord(static_cast<unsigned char>(p[k]))) { Fail(RE2::ErrorBadNamedCapture, p.substr(at, gt + 1 - at)); return; }
      i = gt + 1;
      cap = ++ngroup;
    } else if (More() && p[i] == '?') {
      ++i;
      bool neg = false, any = false;
      for (;; ++i) {
        if (!More()) { Fail(RE2::ErrorMissingParen, p); return; }
        const char c = p[i];
        if (c == 'i') fold = !neg;
        else if (c == 's') dotnl = !neg;
        else if (c == 'm') multi = !neg;
        else if (c == 'U') ungreedy = !neg;
        else if (c == '-' && !neg) { neg = true; any = false; continue; }
        else if (c == ':' || c == ')') break;
        else { Fail(RE2::ErrorBadPerlOp, p.substr(at, i + 1 - at)); return; }
        any = true;
      }
      if (neg && !any) { Fail(RE2::ErrorBadPerlOp, p.substr(at, i + 1 - at)); return; }
      if (p[i++] == ')') return;  // flags for the rest of this group
    } else cap = ++ngroup;
    Node n;
    n.kind = Node::kGroup;
    n.cap = cap;
    n.kids.push_back(Alt());
    if (err) return;
    if (!More()) { Fail(RE2::ErrorMissingParen, p); return; }
    ++i;
    fold = f0; dotnl = d0; multi = m0; ungreedy = u0;
    out->kids.push_back(std::move(n));
  }
};
}  // namespace

void RE2::Init(std::string_view pat, const Options& o) {
  pattern_ = std::string(pat);
  opt_ = o;
  Node root;
  if (o.literal()) {
    Parser ps{.p = pattern_, .fold = !o.case_sensitive(), .dotnl = false};
    root.kind = Node::kCat;
    while (ps.More()) { size_t n; const int r = Decode(ps.p, ps.i, &n); ps.i += n; root.kids.push_back(ps.Set({{r, r}})); }
  } else {
    Parser ps{.p = pattern_, .fold = !o.case_sensitive(), .dotnl = o.dot_nl()};
    root = ps.Alt();
    if (!ps.err && ps.More()) ps.Fail(ErrorUnexpectedParen, pattern_);
    ngroup_ = ps.ngroup;
    if (ps.err) {
      static constexpr const char* kText[] = {"no error", "unexpected error", "invalid escape sequence", "invalid character class", "invalid character class range", "missing ]", "missing )", "unexpected )", "trailing \\", "no argument for repetition operator", "invalid repetition size", "bad repetition operator", "invalid perl operator", "invalid UTF-8", "invalid named capture group", "pattern too large"};
      code_ = ps.err->code;
      error_ = kText[code_];
      if (!ps.err->arg.empty()) error_ += ": " + ps.err->arg;
      return;
    }
  }
  prog_ = std::make_shared<Prog>();
  auto& code = prog_->code;
  auto emit = [&](Prog::Op op, int x = 0, int y = 0) { code.push_back({op, x, y, {}}); return int(code.size()) - 1; };
  bool too_large = false;
  auto gen = [&](auto&& self, const Node& n) -> void {
    if (code.size() > 200000) { too_large = true; return; }
    switch (n.kind) {
      case Node::kEmpty: break;
      case Node::kSet: { const int k = emit(Prog::kChar); code[k].r = n.r; break; }
      case Node::kByte: emit(Prog::kByte); break;
      case Node::kAssert: emit(Prog::kAssert, n.cap); break;
      case Node::kCat: for (auto& k : n.kids) self(self, k); break;
      case Node::kAlt: {
        std::vector<int> ends;
        for (size_t k = 0; k < n.kids.size(); ++k) {
          if (k + 1 == n.kids.size()) { self(self, n.kids[k]); break; }
          const int a = emit(Prog::kAlt);
          code[a].x = a + 1;
          self(self, n.kids[k]);
          ends.push_back(emit(Prog::kJmp));
          code[a].y = int(code.size());
        }
        for (int e : ends) code[e].x = int(code.size());
        break;
      }
      case Node::kGroup:
        if (n.cap) emit(Prog::kSave, 2 * n.cap);
        self(self, n.kids[0]);
        if (n.cap) emit(Prog::kSave, 2 * n.cap + 1);
        break;
      case Node::kRep: {
        for (int k = 0; k < n.min; ++k) self(self, n.kids[0]);
        auto split = [&](int a, int body, int out) { if (n.greedy) { code[a].x = body; code[a].y = out; } else { code[a].x = out; code[a].y = body; } };
        if (n.max < 0) {
          const int a = emit(Prog::kAlt);
          self(self, n.kids[0]);
          emit(Prog::kJmp, a);
          split(a, a + 1, int(code.size()));
        } else {
          std::vector<int> alts;
          for (int k = n.min; k < n.max; ++k) { alts.push_back(emit(Prog::kAlt)); self(self, n.kids[0]); }
          for (int a : alts) split(a, a + 1, int(code.size()));
        }
        break;
      }
    }
  };
  gen(gen, root);
  emit(Prog::kMatch);
  if (too_large) { code_ = ErrorPatternTooLarge; error_ = "pattern too large - compile failed"; prog_.reset(); }
}

bool RE2::Match(std::string_view text, size_t start, size_t end, Anchor anchor, std::string_view* sub, int nsub) const {
  if (!ok() || start > end || end > text.size()) return false;
  const std::string_view t = text.substr(0, end);
  const auto& code = prog_->code;
  const size_t w = t.size() + 1;
  std::vector<bool> seen(code.size() * (w - start));
  std::vector<ptrdiff_t> cap(2 * (ngroup_ + 1), -1), best;
  struct Job { int pc; size_t at; int slot; ptrdiff_t old; };
  std::vector<Job> st;
  auto run = [&](size_t from) {
    std::fill(cap.begin(), cap.end(), -1);
    st.clear();
    st.push_back({0, from, -1, 0});
    while (!st.empty()) {
      const Job j = st.back();
      st.pop_back();
      if (j.slot >= 0) { cap[j.slot] = j.old; continue; }
      int pc = j.pc;
      size_t at = j.at;
      for (;;) {
        const size_t key = size_t(pc) * (w - start) + (at - start);
        if (seen[key]) break;
        seen[key] = true;
        const auto& in = code[pc];
        if (in.op == Prog::kMatch) {
          if (anchor == ANCHOR_BOTH && at != end) break;
          cap[0] = from;
          cap[1] = at;
          best = cap;
          return true;
        }
        if (in.op == Prog::kJmp) { pc = in.x; continue; }
        if (in.op == Prog::kAlt) { st.push_back({in.y, at, -1, 0}); pc = in.x; continue; }
        if (in.op == Prog::kSave) { st.push_back({0, 0, in.x, cap[in.x]}); cap[in.x] = at; ++pc; continue; }
        if (in.op == Prog::kAssert) {
          const bool wb = at > 0 && IsWord(static_cast<unsigned char>(t[at - 1])), wa = at < end && IsWord(static_cast<unsigned char>(t[at]));
          bool ok = false;
          switch (in.x) {
            case 'A': ok = at == 0; break;
            case 'z': ok = at == end; break;
            case '^': ok = at == 0 || t[at - 1] == '\n'; break;
            case '$': ok = at == end || t[at] == '\n'; break;
            case 'b': ok = wb != wa; break;
            case 'B': ok = wb == wa; break;
          }
          if (!ok) break;
          ++pc;
          continue;
        }
        if (at >= end) break;
        size_t n = 1;
        if (in.op != Prog::kByte) {
          const int r = Decode(t, at, &n);
          bool ok = false;
          for (auto [a, b] : in.r) if (r >= a && r <= b) { ok = true; break; }
          if (!ok) break;
        }
        at += n;
        ++pc;
      }
    }
    return false;
  };
  bool hit = false;
  for (size_t s = start; s <= end && !hit; ++s) {
    hit = run(s);
    if (anchor != UNANCHORED) break;
  }
  if (!hit) return false;
  for (int k = 0; k < nsub; ++k) {
    if (k <= ngroup_ && best[2 * k] >= 0 && best[2 * k + 1] >= 0) sub[k] = t.substr(best[2 * k], best[2 * k + 1] - best[2 * k]);
    else sub[k] = std::string_view();
  }
  return true;
}

bool RE2::DoV(std::string_view t, const RE2& re, Anchor an, size_t* used, const std::vector<Arg>& args) {
  if (!re.ok() || re.NumberOfCapturingGroups() < int(args.size())) return false;
  std::vector<std::string_view> v(args.size() + 1);
  if (!re.Match(t, 0, t.size(), an, v.data(), int(v.size()))) return false;
  if (used) *used = v[0].data() + v[0].size() - t.data();
  for (size_t i = 0; i < args.size(); ++i) if (!args[i].Parse(v[i + 1])) return false;
  return true;
}
bool RE2::Rewrite(std::string* out, std::string_view rw, const std::vector<std::string_view>& v) const {
  for (size_t i = 0; i < rw.size(); ++i) {
    if (rw[i] != '\\') { *out += rw[i]; continue; }
    if (++i >= rw.size()) return false;
    if (absl::ascii_isdigit(rw[i])) { const size_t n = rw[i] - '0'; if (n >= v.size()) return false; out->append(v[n]); }
    else if (rw[i] == '\\') *out += '\\';
    else return false;
  }
  return true;
}
static int MaxSub(std::string_view rw) {
  int m = 0;
  for (size_t i = 0; i + 1 < rw.size(); ++i) if (rw[i] == '\\') { ++i; if (absl::ascii_isdigit(rw[i])) m = std::max(m, rw[i] - '0'); }
  return m;
}
bool RE2::Replace(std::string* s, const RE2& re, std::string_view rw) {
  const int n = MaxSub(rw) + 1;
  if (n > 1 + re.NumberOfCapturingGroups()) return false;
  std::vector<std::string_view> v(n);
  if (!re.Match(*s, 0, s->size(), UNANCHORED, v.data(), n)) return false;
  std::string r;
  if (!re.Rewrite(&r, rw, v)) return false;
  s->replace(v[0].data() - s->data(), v[0].size(), r);
  return true;
}
int RE2::GlobalReplace(std::string* s, const RE2& re, std::string_view rw) {
  const int n = MaxSub(rw) + 1;
  if (n > 1 + re.NumberOfCapturingGroups()) return 0;
  std::vector<std::string_view> v(n);
  std::string out;
  size_t pos = 0, last_end = std::string::npos;
  int count = 0;
  while (pos <= s->size()) {
    if (!re.Match(*s, pos, s->size(), UNANCHORED, v.data(), n)) break;
    const size_t b = v[0].data() - s->data(), e = b + v[0].size();
    out.append(*s, pos, b - pos);
    if (b == last_end && v[0].empty()) { if (b < s->size()) out += (*s)[b]; pos = b + 1; continue; }
    re.Rewrite(&out, rw, v);
    pos = e;
    last_end = e;
    ++count;
  }
  if (count == 0) return 0;
  if (pos < s->size()) out.append(*s, pos);
  *s = out;
  return count;
}
std::string RE2::QuoteMeta(std::string_view s) {
  std::string out;
  for (const unsigned char c : s) {
    if (c == 0) { out += "\\x00"; continue; }
    if (!IsWord(c) && !(c & 128)) out += '\\';
    out += char(c);
  }
  return out;
}
