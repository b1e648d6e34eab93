// A small reference model of the template language (see the help text of mope_main.cc): template data, generated
// template texts as syntax trees, and their expansion computed from the tree.
#pragma once
#include <map>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include "sim/sim.h"

namespace mm {
struct Tpl {
  struct Entry {
    bool section = false;
    std::string value;
    std::vector<Tpl> subs;
  };
  std::map<std::string, Entry> m;
  static bool Valid(const std::string& n) {
    if (n.empty() || !(isalpha(static_cast<unsigned char>(n[0])) || n[0] == '_')) return false;
    for (char c : n)
      if (!isalnum(static_cast<unsigned char>(c)) && c != '_') return false;
    return true;
  }
  bool Set(const std::string& n, const std::string& v, bool update = false) {
    if (!Valid(n)) return false;
    auto it = m.find(n);
    if (it == m.end()) {
      m[n].value = v;
      return true;
    }
    if (!update || it->second.section) return false;
    it->second.value = v;
    return true;
  }
  Tpl* Add(const std::string& n) {
    if (!Valid(n)) return nullptr;
    auto it = m.find(n);
    if (it == m.end()) m[n].section = true;
    else if (!it->second.section) return nullptr;
    m[n].subs.emplace_back();
    return &m[n].subs.back();
  }
};
struct Val {
  std::string value;
  bool range = false;
  int curr = 0;
};
using Ctx = std::map<std::string, Val>;

enum Kind { kText, kValue, kSet, kDrop, kSection, kComment, kRange, kList };
struct Node {
  Kind kind = kText;
  std::string name, open, close, text;  // text: literal text or the value to set
  std::vector<Node> body;
  std::string join_lit, join_ref;       // joiner as a literal or by reference
  std::string start, end, step;         // range operands as written
  std::vector<std::string> items;
};
inline std::string Render(const std::vector<Node>& v) {
  std::string s;
  for (auto& n : v) {
    if (n.kind == kText) {
      s += n.text;
      continue;
    }
    s += n.open;
    if (n.kind >= kSection) s += Render(n.body) + n.close;
  }
  return s;
}
inline bool Nl(char c) { return c == '\n' || c == '\r'; }
inline bool Ws(char c) { return c == ' ' || c == '\t'; }
inline size_t BeforeWs(const std::string& s) {
  size_t p = s.size();
  while (p > 0 && Ws(s[p - 1])) --p;
  return p;
}

class Expansion {
 public:
  Expansion(Ctx ctx) : ctx_(std::move(ctx)) {}
  // nullopt: an error.
  std::optional<std::string> Run(const Tpl& t, const std::vector<Node>& nodes) {
    std::string out;
    bool skip = false;  // the first character after a tag that has its line to itself
    for (size_t i = 0; i < nodes.size(); ++i) {
      const Node& n = nodes[i];
      if (n.kind == kText) {
        out += n.text.substr(skip ? 1 : 0);
        skip = false;
        continue;
      }
      if (n.kind == kValue) {
        std::string v;
        if (!Value(t, n, v)) return std::nullopt;
        out += v;
        continue;
      }
      const std::string after = Render({nodes.begin() + static_cast<long>(i) + 1, nodes.end()});
      if (n.kind == kSet || n.kind == kDrop) {
        if (n.kind == kSet) {
          skip = OwnLine(out, after);
          if (!Set(t, n.name, n.text)) return std::nullopt;
        }
        continue;
      }
      std::vector<Node> body = n.body;
      const std::string raw = Render(body);
      if (OwnLine(out, raw + n.close)) {
        body[0].text.erase(0, 1);
      }
      // The closing tag: has it a line of its own?
      if (!after.empty() && Nl(after[0])) {
        const size_t p = BeforeWs(raw);
        if (p > 0 && Nl(raw[p - 1])) {
          skip = true;
          if (p < raw.size()) {
            std::string& last = body.back().text;
            last.erase(last.size() - (raw.size() - p));
          }
        }
      }
      if (body.size() > 0 && body[0].kind == kText && body[0].text.empty()) body.erase(body.begin());
      std::string v;
      if (!Block(t, n, body, v)) return std::nullopt;
      out += v;
    }
    return out;
  }
  Ctx& ctx() { return ctx_; }

 private:
  static bool OwnLine(std::string& out, const std::string& after) {
    if (after.empty() || !Nl(after[0])) return false;
    const size_t p = BeforeWs(out);
    if (p > 0 && !Nl(out[p - 1])) return false;
    out.resize(p);
    return true;
  }
  struct Found {
    enum { kNone, kString, kRangeVal, kDict } what = kNone;
    std::string value;
    int curr = 0;
    const Tpl::Entry* entry = nullptr;
  };
  Found Lookup(const Tpl& t, const std::string& n) {
    Found f;
    if (auto it = t.m.find(n); it != t.m.end()) {
      f.what = it->second.section ? Found::kDict : Found::kString;
      f.value = it->second.value;
      f.entry = &it->second;
    } else if (auto c = ctx_.find(n); c != ctx_.end()) {
      f.what = c->second.range ? Found::kRangeVal : Found::kString;
      f.value = c->second.value;
      f.curr = c->second.curr;
    }
    return f;
  }
  bool Value(const Tpl& t, const Node& n, std::string& v) {
    const Found f = Lookup(t, n.name);
    switch (f.what) {
      case Found::kNone: v = n.open; return true;
      case Found::kString: v = f.value; return true;
      case Found::kRangeVal: v = std::to_string(f.curr); return true;
      default: return false;
    }
  }
  bool Set(const Tpl& t, const std::string& n, const std::string& v) {
    if (t.m.count(n)) return false;
    return SetCtx(n, v);
  }
  bool SetCtx(const std::string& n, const std::string& v) {
    auto it = ctx_.find(n);
    if (it != ctx_.end() && it->second.range) return false;
    ctx_[n].value = v;
    return true;
  }
  static bool Number(const std::string& s, int& v) {
    if (s.empty() || s.size() > 6) return false;
    for (size_t i = s[0] == '-' ? 1 : 0; i < s.size(); ++i)
      if (!isdigit(static_cast<unsigned char>(s[i]))) return false;
    if (s == "-") return false;
    v = atoi(s.c_str());
    return true;
  }
  bool Operand(const Tpl& t, const std::string& s, int& v) {
    if (s.empty() || Number(s, v)) return true;
    const Found f = Lookup(t, s);
    if (f.what == Found::kString) return Number(f.value, v);
    if (f.what == Found::kRangeVal) {
      v = f.curr;
      return true;
    }
    return false;
  }
  bool Join(const Tpl& t, const Node& n, std::string& j) {
    j = n.join_lit;
    if (n.join_ref.empty()) return true;
    const Found f = Lookup(t, n.join_ref);
    j = f.value;
    return f.what == Found::kString;
  }
  bool Block(const Tpl& t, const Node& n, const std::vector<Node>& body, std::string& out) {
    switch (n.kind) {
      case kComment: return true;
      case kSection: {
        const Found f = Lookup(t, n.name);
        if (f.what == Found::kNone) return true;
        if (f.what != Found::kDict) return false;
        bool first = true;
        for (const Tpl& sub : f.entry->subs) {
          auto r = Run(sub, body);
          if (!r) return false;
          out += (first ? "" : n.join_lit) + *r;
          first = false;
        }
        return true;
      }
      case kRange: {
        int start = 0, end = 0, step = 1;
        std::string join;
        if (!Operand(t, n.start, start) || !Operand(t, n.end, end) || !Operand(t, n.step, step) || !Join(t, n, join) || step == 0) return false;
        if (ctx_.count(n.name)) return false;
        ctx_[n.name].range = true;
        for (int c = start; step > 0 ? c <= end : c >= end; c += step) {
          ctx_[n.name].curr = c;
          auto r = Run(t, body);
          if (!r) return false;
          out += (c != start ? join : "") + *r;
        }
        ctx_.erase(n.name);
        return true;
      }
      case kList: {
        std::string join;
        if (!Join(t, n, join)) return false;
        if (t.m.count(n.name) || ctx_.count(n.name)) return false;
        bool first = true;
        for (auto& item : n.items) {
          if (!SetCtx(n.name, item)) return false;
          auto r = Run(t, body);
          if (!r) return false;
          out += (first ? "" : join) + *r;
          first = false;
        }
        ctx_.erase(n.name);
        return true;
      }
      default: return true;
    }
  }
  Ctx ctx_;
};

// --- generation
inline const char* kNames[] = {"a", "b", "n", "m", "_x", "name_2", "s", "t", "u1", "Sec", "glob", "c"};
inline std::string Name() { return kNames[sim::Choose(12)]; }
inline std::string ValueText() {
  static const char* w[] = {"v", "", "3", "-2", "12", "x y", "{{a}}", "a\nb", "  ", "{{#s}}", "}}", "\xc3\xa4", "0", "{{/s}}", "line\n"};
  std::string s = w[sim::Choose(15)];
  if (sim::Chance(1, 40)) s += std::string(sim::SizeNear(4096, 9000), 'V');
  return s;
}
inline void Fill(Tpl& t, int depth) {
  for (uint32_t n = sim::Choose(depth == 0 ? 5 : 3); n > 0; --n) t.Set(Name(), ValueText());
  if (depth < 3)
    for (uint32_t n = sim::Choose(depth == 0 ? 5 : 3); n > 0; --n) {
      const std::string name = Name();
      for (uint32_t k = 1 + sim::Choose(3); k > 0; --k)
        if (Tpl* s = t.Add(name)) Fill(*s, depth + 1);
    }
}
inline std::string Quote(const std::string& s) { return sim::Choose(2) ? "'" + s + "'" : "\"" + s + "\""; }
inline void AddText(std::vector<Node>& v, const std::string& s) {
  if (s.empty()) return;
  if (!v.empty() && v.back().kind == kText) v.back().text += s;
  else {
    v.emplace_back();
    v.back().text = s;
  }
}
// A name the data knows: a section of `cur` or a value, so that nesting reaches deep into the data.
inline std::string Known(const Tpl* cur, bool section) {
  std::vector<std::string> k;
  if (cur)
    for (auto& [n, e] : cur->m)
      if (e.section == section) k.push_back(n);
  return k.empty() ? "" : k[sim::Choose(static_cast<uint32_t>(k.size()))];
}
inline std::vector<Node> Gen(int depth, std::vector<std::string>& open, int& budget, const Tpl* cur = nullptr) {
  std::vector<Node> v;
  static const char* words[] = {"text", " ", "\n", "x", "  ", "{", "}", "{ {", "\t", "\r\n", "{{ no }}", "{{1}}", "[", ";", "\n\n", ".", "{{}}", "{{/none}}"};
  static const char* joins[] = {"", ",", ", ", "-", "\n", "+|+", "}"};
  for (uint32_t n = sim::Choose(depth == 0 ? 8 : 5); n > 0 && budget > 0; --n) {
    --budget;
    if (sim::Choose(3) == 0) {
      const std::string w = words[sim::Choose(18)];
      AddText(v, sim::Chance(1, 50) ? w + std::string(sim::SizeNear(8191, 9000), 'T') : w);
      continue;
    }
    Node x;
    const bool own = sim::Chance(1, 4);  // give the tags a line of their own
    x.kind = static_cast<Kind>(1 + sim::Choose(depth >= 4 ? 3 : 7));
    x.name = Name();
    const Tpl* inner = cur;
    if (cur && (x.kind == kSection || x.kind == kValue) && sim::Choose(3)) {
      if (const std::string known = Known(cur, x.kind == kSection); !known.empty()) x.name = known;
    } else if (!v.empty() && !v.back().name.empty() && sim::Choose(4) == 0) {
      x.name = v.back().name;  // what an earlier tag has left behind
    } else if (v.size() > 1 && !v[v.size() - 2].name.empty() && sim::Choose(4) == 0) {
      x.name = v[v.size() - 2].name;
    }
    if (x.kind == kSection && cur) {
      auto it = cur->m.find(x.name);
      inner = it != cur->m.end() && it->second.section && !it->second.subs.empty() ? &it->second.subs[sim::Choose(static_cast<uint32_t>(it->second.subs.size()))] : nullptr;
    }
    if (x.kind >= kSection) {
      for (auto& o : open)
        if (o == x.name) x.kind = kValue;  // nesting equal names is not supported by the language
    }
    static const char* nums[] = {"1", "3", "0", "-1", "5", "-3", "2"};
    switch (x.kind) {
      case kValue: x.open = "{{" + x.name + "}}"; break;
      case kSet:
        x.text = std::vector<std::string>{"w", "7", "two words", "'q'", "{", "a=b", "{{a"}[sim::Choose(7)];
        x.open = "{{" + x.name + "=" + x.text + "}}";
        break;
      case kDrop: x.open = "{{" + x.name + ":note}}"; break;
      case kSection: {
        x.open = "{{#" + x.name;
        if (sim::Choose(2)) {
          x.join_lit = joins[1 + sim::Choose(5)];
          x.open += ":" + Quote(x.join_lit);
        }
        x.open += "}}";
        break;
      }
      case kComment: x.open = "{{#" + x.name + "=}}"; break;
      case kRange: {
        auto operand = [&] { return sim::Chance(1, 4) ? Name() : std::string(nums[sim::Choose(7)]); };
        x.start = operand();
        x.end = operand();
        x.open = "{{#" + x.name + "=" + x.start + ";" + x.end;
        const uint32_t more = sim::Choose(4);
        if (more > 0) {
          x.step = sim::Chance(1, 3) ? "" : operand();
          if (sim::Chance(1, 12)) x.step = "0";
          x.open += ";" + x.step;
        }
        if (more > 1) {
          if (sim::Chance(1, 4)) x.join_ref = Name(), x.open += ";" + x.join_ref;
          else x.join_lit = joins[sim::Choose(6)], x.open += ";" + Quote(x.join_lit);
        }
        x.open += "}}";
        break;
      }
      case kList: {
        static const char* raw[] = {"one", "2", "'1,2'", "3\\,4", "x y", "\\]", "\\{"};
        static const char* val[] = {"one", "2", "1,2", "3,4", "x y", "]", "{"};
        x.open = "{{#" + x.name + "=[";
        for (uint32_t k = 0, e = 1 + sim::Choose(sim::Choose(4) ? 4 : 12); k < e; ++k) {
          const uint32_t w = sim::Choose(7);
          x.open += (k ? "," : "") + std::string(raw[w]);
          x.items.push_back(val[w]);
        }
        x.open += "]";
        if (sim::Choose(2)) {
          if (sim::Chance(1, 4)) x.join_ref = Name(), x.open += ";" + x.join_ref;
          else x.join_lit = joins[sim::Choose(6)], x.open += ";" + Quote(x.join_lit);
        }
        x.open += "}}";
        break;
      }
      default: break;
    }
    if (own) AddText(v, sim::Choose(2) ? "\n  " : "\n");
    if (x.kind >= kSection) {
      x.close = "{{/" + x.name + "}}";
      open.push_back(x.name);
      if (own) AddText(x.body, "\n");
      for (auto& b : Gen(depth + 1, open, budget, inner)) {
        if (b.kind == kText) AddText(x.body, b.text);
        else x.body.push_back(b);
      }
      if (own && sim::Choose(2)) AddText(x.body, "\n \t");
      open.pop_back();
    }
    v.push_back(std::move(x));
    if (own) AddText(v, "\n");
  }
  return v;
}
inline std::vector<Node> GenText(const Tpl* data = nullptr) {
  std::vector<std::string> open;
  int budget = 14;
  return Gen(0, open, budget, data);
}
}  // namespace mm
