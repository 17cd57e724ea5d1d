// Small backtracking regular expression engine used by the std::regex and icu::Regex models.
#pragma once
#include <cstdint>
#include <vector>

#include "sym_rt.h"
namespace minire {
struct Item { int kind; uint32_t lo, hi; bool neg; };  // 0 range, 1 class (lo = class id)
struct Set { std::vector<Item> items; bool neg = false; };
enum Op { CHARSET, ANY, SPLIT, JMP, SAVE, BOL, EOL, LOOK, NLOOK, ATOMIC, WORDB, NWORDB, MATCH, EMPTYMARK, EMPTYCHK, FAILOP };
struct Ins { int op; int a, b; };
enum Flavor { ICU16, STDCHAR, STDWCHAR };
// class ids: 's','d','w','L','N','P','M' ('n' = Mn)
struct Prog {
  std::vector<Ins> code;
  std::vector<Set> sets;
  int ngroups = 1, nmarks = 0;
  bool ok = true;
};
inline bool classTest(int cls, uint32_t c, Flavor f) {
  if (f == ICU16) {
    switch (cls) {
      case 's': return __sym_icu(SI_SET_S, c);
      case 'd': return __sym_icu(SI_SET_D, c);
      case 'w': return __sym_icu(SI_SET_W, c);
      case 'L': return __sym_icu(SI_SET_L, c);
      case 'N': return __sym_icu(SI_SET_N, c);
      case 'P': return __sym_icu(SI_SET_P, c);
      case 'M': return __sym_icu(SI_SET_M, c);
      case 'n': return __sym_icu(SI_SET_MN, c);
    }
  }
  switch (cls) {
    case 's': return (c == 32) | ((c >= 9) & (c <= 13));
    case 'd': return (c >= '0') & (c <= '9');
    case 'w': return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_');
  }
  __sym_unsupported("regex class");
}
inline bool setTest(const Set &s, uint32_t c, Flavor f) {
  unsigned m = 0;
  for (const Item &it : s.items) {
    unsigned t = it.kind == 0 ? (unsigned)((c >= it.lo) & (c <= it.hi)) : (unsigned)classTest((int)it.lo, c, f);
    m |= t ^ (unsigned)it.neg;
  }
  return m ^ (unsigned)s.neg;
}
struct Parser {
  const std::vector<uint32_t> &p;
  size_t i = 0;
  Flavor f;
  Prog &g;
  Parser(const std::vector<uint32_t> &p, Flavor f, Prog &g) : p(p), f(f), g(g) {}
  bool more() const { return i < p.size(); }
  int emit(int op, int a = 0, int b = 0) { g.code.push_back({op, a, b}); return (int)g.code.size() - 1; }
  int newSet(const Set &s) { g.sets.push_back(s); return (int)g.sets.size() - 1; }
  void bad() { g.ok = false; i = p.size(); }
  bool escClass(uint32_t c, Item &it) {
    switch (c) {
      case 's': case 'd': case 'w': it = {1, c, 0, false}; return true;
      case 'S': it = {1, 's', 0, true}; return true;
      case 'D': it = {1, 'd', 0, true}; return true;
      case 'W': it = {1, 'w', 0, true}; return true;
      case 'p': case 'P': {
        if (f != ICU16) return false;
        std::vector<uint32_t> nm;
        if (more() && p[i] == '{') {
          i++;
          while (more() && p[i] != '}') nm.push_back(p[i++]);
          if (!more()) { bad(); return false; }
          i++;
        } else { bad(); return false; }
        uint32_t cls = 0;
        if (nm.size() == 1 && (nm[0] == 'L' || nm[0] == 'N' || nm[0] == 'P' || nm[0] == 'M')) cls = nm[0];
        else if (nm.size() == 2 && nm[0] == 'M' && nm[1] == 'n') cls = 'n';
        else __sym_unsupported("regex property");
        it = {1, cls, 0, c == 'P'};
        return true;
      }
    }
    return false;
  }
  uint32_t escChar(uint32_t c) {
    switch (c) {
      case 'n': return '\n';
      case 't': return '\t';
      case 'r': return '\r';
      case 'f': return '\f';
      case 'v': return '\v';
      case '0': return 0;
      case 'x': case 'u': {
        int n = c == 'x' ? 2 : 4;
        uint32_t v = 0;
        for (int k = 0; k < n && more(); k++) {
          uint32_t h = p[i++];
          v = v * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10);
        }
        return v;
      }
    }
    return c;
  }
  Set cls() {
    Set s;
    if (more() && p[i] == '^') { s.neg = true; i++; }
    bool first = true;
    while (more() && (p[i] != ']' || (first && f == ICU16 && 0))) {
      first = false;
      uint32_t c = p[i++];
      Item it{0, 0, 0, false};
      if (c == '[') {
        if (more() && p[i] == ':') __sym_unsupported("posix class");
        if (f == ICU16) __sym_unsupported("nested set");
      }
      if (c == '\\') {
        if (!more()) { bad(); return s; }
        uint32_t e = p[i++];
        if (escClass(e, it)) { s.items.push_back(it); continue; }
        if (!g.ok) return s;
        c = escChar(e);
      }
      uint32_t hi = c;
      if (i + 1 < p.size() && p[i] == '-' && p[i + 1] != ']') {
        i++;
        hi = p[i++];
        if (hi == '\\') { if (!more()) { bad(); return s; } hi = escChar(p[i++]); }
        if (hi < c) { bad(); return s; }
      }
      s.items.push_back({0, c, hi, false});
    }
    if (!more()) { bad(); return s; }
    i++;
    return s;
  }
  void alt() {
    int start = (int)g.code.size();
    seq();
    while (g.ok && more() && p[i] == '|') {
      i++;
      g.code.insert(g.code.begin() + start, Ins{SPLIT, start + 1, 0});
      for (size_t k = start + 1; k < g.code.size(); k++) fixup(g.code[k], start, 1);
      int j = emit(JMP, 0);
      g.code[start].b = (int)g.code.size();
      int rs = (int)g.code.size();
      (void)rs;
      alt();
      g.code[j].a = (int)g.code.size();
    }
  }
  static void fixup(Ins &x, int from, int d) {
    if (x.op == SPLIT) { if (x.a >= from) x.a += d; if (x.b >= from) x.b += d; }
    if (x.op == JMP || x.op == LOOK || x.op == NLOOK || x.op == ATOMIC) { if (x.a >= from) x.a += d; }
  }
  void seq() {
    while (g.ok && more() && p[i] != '|' && p[i] != ')') {
      int s = (int)g.code.size();
      int gsave = g.ngroups;
      atom();
      if (!g.ok) return;
      quant(s, gsave);
    }
  }
  void quant(int s, int) {
    if (!more()) return;
    int mn, mx;
    uint32_t c = p[i];
    if (c == '*') { mn = 0; mx = -1; i++; }
    else if (c == '+') { mn = 1; mx = -1; i++; }
    else if (c == '?') { mn = 0; mx = 1; i++; }
    else if (c == '{') {
      size_t k = i + 1;
      int a = 0, b = -1;
      bool dig = false;
      while (k < p.size() && p[k] >= '0' && p[k] <= '9') { a = a * 10 + (p[k++] - '0'); dig = true; }
      if (!dig) { bad(); return; }
      if (k < p.size() && p[k] == ',') {
        k++;
        if (k < p.size() && p[k] >= '0' && p[k] <= '9') { b = 0; while (k < p.size() && p[k] >= '0' && p[k] <= '9') b = b * 10 + (p[k++] - '0'); }
      } else b = a;
      if (k >= p.size() || p[k] != '}') { bad(); return; }
      i = k + 1;
      mn = a; mx = b;
    } else return;
    bool lazy = false;
    if (more() && p[i] == '?') { lazy = true; i++; }
    else if (more() && p[i] == '+' && f == ICU16) __sym_unsupported("possessive");
    std::vector<Ins> body(g.code.begin() + s, g.code.end());
    g.code.resize(s);
    auto copy = [&]() {
      int d = (int)g.code.size() - s;
      for (Ins x : body) { fixup(x, s, d); g.code.push_back(x); }
    };
    for (int k = 0; k < mn; k++) copy();
    if (mx < 0) {
      int mark = g.nmarks++;
      int L = emit(SPLIT, 0, 0);
      emit(EMPTYMARK, mark);
      copy();
      emit(EMPTYCHK, mark);
      emit(JMP, L);
      int e = (int)g.code.size();
      if (lazy) { g.code[L].a = e; g.code[L].b = L + 1; } else { g.code[L].a = L + 1; g.code[L].b = e; }
    } else {
      std::vector<int> sp;
      for (int k = mn; k < mx; k++) { sp.push_back(emit(SPLIT, 0, 0)); copy(); }
      int e = (int)g.code.size();
      for (int L : sp) { if (lazy) { g.code[L].a = e; g.code[L].b = L + 1; } else { g.code[L].a = L + 1; g.code[L].b = e; } }
    }
  }
  void atom() {
    uint32_t c = p[i++];
    switch (c) {
      case '(': {
        int look = 0;
        bool cap = true;
        if (more() && p[i] == '?') {
          if (i + 1 >= p.size()) { bad(); return; }
          uint32_t k = p[i + 1];
          if (k == ':') { cap = false; i += 2; }
          else if (k == '=') { look = LOOK; i += 2; }
          else if (k == '!') { look = NLOOK; i += 2; }
          else if (k == '>') { look = ATOMIC; i += 2; }
          else __sym_unsupported("regex group");
        }
        if (look) {
          int L = emit(look, 0);
          alt();
          emit(MATCH);
          g.code[L].a = (int)g.code.size();
        } else {
          int n = cap ? g.ngroups++ : 0;
          if (cap) emit(SAVE, 2 * n);
          alt();
          if (cap) emit(SAVE, 2 * n + 1);
        }
        if (!more() || p[i] != ')') { bad(); return; }
        i++;
        return;
      }
      case '[': emit(CHARSET, newSet(cls())); return;
      case '.': emit(ANY); return;
      case '^': emit(BOL); return;
      case '$': emit(EOL); return;
      case '*': case '+': case '?': bad(); return;
      case '{': if (f != ICU16) { bad(); return; } bad(); return;
      case '\\': {
        if (!more()) { bad(); return; }
        uint32_t e = p[i++];
        if (e == 'b') { emit(WORDB); return; }
        if (e == 'B') { emit(NWORDB); return; }
        if (e >= '1' && e <= '9') __sym_unsupported("back reference");
        Item it;
        Set s;
        if (escClass(e, it)) s.items.push_back(it);
        else { if (!g.ok) return; uint32_t x = escChar(e); s.items.push_back({0, x, x, false}); }
        emit(CHARSET, newSet(s));
        return;
      }
      default: {
        Set s;
        s.items.push_back({0, c, c, false});
        emit(CHARSET, newSet(s));
      }
    }
  }
};
inline Prog compile(const std::vector<uint32_t> &pat, Flavor f) {
  Prog g;
  Parser ps(pat, f, g);
  g.code.push_back({SAVE, 0, 0});
  ps.alt();
  if (g.ok && ps.more()) g.ok = false;  // unbalanced )
  g.code.push_back({SAVE, 1, 0});
  g.code.push_back({MATCH, 0, 0});
  return g;
}
struct Matcher {
  const Prog &g;
  const uint32_t *in;
  size_t n;
  Flavor f;
  std::vector<int> caps, marks;
  long fuel = 20000;
  bool whole = false;
  Matcher(const Prog &g, const uint32_t *in, size_t n, Flavor f) : g(g), in(in), n(n), f(f) { caps.assign(2 * g.ngroups, -1); marks.assign(g.nmarks + 1, -1); }
  bool wordAt(size_t k) { return k < n && classTest('w', in[k], f); }
  bool run(size_t pc, size_t pos) {
    for (;;) {
      if (--fuel < 0) __sym_unsupported("regex too long");
      const Ins &x = g.code[pc];
      switch (x.op) {
        case MATCH: if (whole && pos != n) return false; endpos = pos; return true;
        case CHARSET:
          if (pos >= n || !setTest(g.sets[x.a], in[pos], f)) return false;
          pos++; pc++;
          break;
        case ANY: {
          if (pos >= n) return false;
          uint32_t c = in[pos];
          bool nl = (c == '\n') | (c == '\r');
          if (f != STDCHAR) nl = nl | (c == 0x2028) | (c == 0x2029);
          if (f == ICU16) nl = nl | (c == 0x85) | (c == 0xC) | (c == 0xB);
          if (nl) return false;
          pos++; pc++;
          break;
        }
        case JMP: pc = x.a; break;
        case SPLIT: {
          std::vector<int> c0 = caps, m0 = marks;
          if (run(x.a, pos)) return true;
          caps = c0; marks = m0;
          pc = x.b;
          break;
        }
        case SAVE: caps[x.a] = (int)pos; pc++; break;
        case BOL: if (pos != 0) return false; pc++; break;
        case EOL: {
          bool at = pos == n;
          if (!at && f == ICU16) {
            if (pos + 1 == n) { uint32_t c = in[pos]; at = ((c >= 10) & (c <= 13)) | (c == 0x85) | (c == 0x2028) | (c == 0x2029); }
            else if (pos + 2 == n) at = in[pos] == '\r' && in[pos + 1] == '\n';
          }
          if (!at) return false;
          pc++;
          break;
        }
        case LOOK: case NLOOK: {
          Matcher m(g, in, n, f);
          m.caps = caps;
          bool r = m.run(pc + 1, pos);
          if (r != (x.op == LOOK)) return false;
          pc = x.a;
          break;
        }
        case ATOMIC: {
          Matcher m(g, in, n, f);
          m.caps = caps;
          if (!m.run(pc + 1, pos)) return false;
          pos = m.endpos;
          caps = m.caps;
          pc = x.a;
          break;
        }
        case WORDB: case NWORDB: {
          bool b = (pos > 0 && wordAt(pos - 1)) != wordAt(pos);
          if (b != (x.op == WORDB)) return false;
          pc++;
          break;
        }
        case EMPTYMARK: marks[x.a] = (int)pos; pc++; break;
        case EMPTYCHK: if (marks[x.a] == (int)pos) return false; pc++; break;
        default: return false;
      }
    }
  }
  size_t endpos = 0;
  bool searchFrom(size_t s) {
    for (; s <= n; s++) {
      caps.assign(2 * g.ngroups, -1);
      if (run(0, s)) return true;
    }
    return false;
  }
};
}  // namespace minire
