// Exact decision of conditions over symbols with large domains (Unicode scalar values, say):
// branch and prune on their intervals, splitting where a comparison with a constant is undecided.
// Symbols that are not part of the box have one value left (g_model).
#pragma once
#include "expr.h"
struct Iv { u64 lo, hi; int ls = -1; u64 d = 0; };  // ls: the value is this symbol + d (modulo the width of the expression) throughout
static u32 g_ivgen = 1;
static u64 g_bm0 = 0, g_bm1 = 0;        // the symbols of the box
static u64 g_blo[128], g_bhi[128];      // their intervals
static u64 g_ivsplit;                   // where to cut (0: nowhere in particular)
static int g_ivsplitsym;
static u64 g_ivwork = 0, g_ivstart = 0;
static std::vector<u32> g_ivg;          // by expression id
static std::vector<Iv> g_ivv;
// a follows a symbol at width w: without wrapping? d then as a difference at full width
static bool ivNoWrap(const Iv &a, unsigned w, u64 &d) {
  if (a.ls < 0) return false;
  u64 v0 = (g_blo[a.ls] + a.d) & maskw(w), n = g_bhi[a.ls] - g_blo[a.ls];
  d = v0 - g_blo[a.ls];
  return v0 + n >= v0 && v0 + n <= maskw(w);
}
static Iv ivEval(const Expr *e) {
  if (e->op == E_CONST) return {e->c, e->c};
  if (!((e->s0 & g_bm0) | (e->s1 & g_bm1))) { u64 v = evalE(e); return {v, v}; }
  if (e->id >= g_ivg.size()) { g_ivg.resize(g_nexpr + 1024, 0); g_ivv.resize(g_nexpr + 1024); }
  if (g_ivg[e->id] == g_ivgen) return g_ivv[e->id];
  g_ivwork++;
  u64 m = maskw(e->w);
  Iv r = {0, m}, a, b;
  u64 nd;
  switch (e->op) {
    case E_SYM: r = {g_blo[e->c], g_bhi[e->c], (int)e->c, 0}; break;
    case E_ITE: {
      a = ivEval(e->a);
      if (a.lo == a.hi) r = ivEval(a.lo ? e->b : e->k);
      else if (g_ivsplit && g_ivwork > g_ivstart + 40) r = {e->lo, e->hi};  // it will be cut anyway
      else {
        a = ivEval(e->b); b = ivEval(e->k);
        r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi), a.ls == b.ls && a.d == b.d ? a.ls : -1, a.d};
      }
      break;
    }
    case E_CONCAT: a = ivEval(e->a); b = ivEval(e->b);
      if (a.lo == a.hi) r = {(a.lo << e->b->w) | b.lo, (a.lo << e->b->w) | b.hi};
      else r = {a.lo << e->b->w, (a.hi << e->b->w) | maskw(e->b->w)};
      if (a.lo == a.hi && ivNoWrap(b, e->b->w, nd)) { r.ls = b.ls; r.d = ((a.lo << e->b->w) + nd) & m; }
      break;
    case E_EXTRACT: {
      a = ivEval(e->a);
      u64 l = a.lo >> e->c, h = a.hi >> e->c;
      if (e->w >= 64 || (l >> e->w) == (h >> e->w)) r = {l & m, h & m};
      if (e->c == 0 && a.ls >= 0) { r.ls = a.ls; r.d = a.d & m; }
      break;
    }
    case E_ZEXT: a = ivEval(e->a); r = {a.lo, a.hi};
      if (ivNoWrap(a, e->a->w, nd)) { r.ls = a.ls; r.d = nd & m; }
      break;
    case E_SEXT: {
      a = ivEval(e->a);
      u64 s = 1ull << (e->a->w - 1);
      if ((a.lo & s) == (a.hi & s)) r = {(u64)sx(a.lo, e->a->w) & m, (u64)sx(a.hi, e->a->w) & m};
      if (!(a.lo & s) && !(a.hi & s) && ivNoWrap(a, e->a->w, nd)) { r.ls = a.ls; r.d = nd & m; }
      break;
    }
    default: {
      a = ivEval(e->a); b = ivEval(e->b);
      unsigned w = e->a->w;
      u64 wm = maskw(w);
      if (a.lo == a.hi && b.lo == b.hi) { u64 v = foldbin(e->op, w, a.lo, b.lo); r = {v, v}; break; }
      if (a.ls >= 0 && a.ls == b.ls) {  // both follow one symbol: their difference is known
        bool eq = a.d == b.d;
        if (e->op == E_EQ) { r = {eq, eq}; break; }
        if (e->op == E_XOR && eq) { r = {0, 0}; break; }
        if (e->op == E_SUB) { u64 v = (a.d - b.d) & wm; r = {v, v}; break; }
        if (e->op == E_ULT && eq) { r = {0, 0}; break; }
        if (e->op == E_ULE && eq) { r = {1, 1}; break; }
        if (e->op == E_SLT && eq) { r = {0, 0}; break; }
        if (e->op == E_SLE && eq) { r = {1, 1}; break; }
        if ((e->op == E_AND || e->op == E_OR) && eq) { r = a; break; }
      }
      switch (e->op) {
        case E_ADD: {
          unsigned __int128 l = (unsigned __int128)a.lo + b.lo, h = (unsigned __int128)a.hi + b.hi;
          if (h <= wm) r = {(u64)l, (u64)h};
          else if (l > wm && w < 64 && h - l <= wm && (l >> w) == (h >> w)) r = {(u64)l & wm, (u64)h & wm};
          else if (w == 64 && l > wm) r = {(u64)l, (u64)h};
          if (a.ls >= 0 && b.lo == b.hi) { r.ls = a.ls; r.d = (a.d + b.lo) & wm; }
          else if (b.ls >= 0 && a.lo == a.hi) { r.ls = b.ls; r.d = (b.d + a.lo) & wm; }
          break;
        }
        case E_SUB:
          if (a.lo >= b.hi) r = {a.lo - b.hi, a.hi - b.lo};
          else if (a.hi < b.lo) r = {(a.lo - b.hi) & wm, (a.hi - b.lo) & wm};
          if (a.ls >= 0 && b.lo == b.hi) { r.ls = a.ls; r.d = (a.d - b.lo) & wm; }
          break;
        case E_MUL: if ((unsigned __int128)a.hi * b.hi <= wm) r = {a.lo * b.lo, a.hi * b.hi}; break;
        case E_UDIV: if (b.lo) r = {a.lo / b.hi, a.hi / b.lo}; break;
        case E_UREM: if (b.lo == b.hi && b.lo && a.lo / b.lo == a.hi / b.lo) r = {a.lo % b.lo, a.hi % b.lo}; else if (b.lo) r = {0, std::min(a.hi, b.hi - 1)}; break;
        case E_AND: case E_OR: case E_XOR: {  // bits above the highest differing one are known
          u64 va = a.lo ^ a.hi, vb = b.lo ^ b.hi;
          auto fill = [](u64 v) { v |= v >> 1; v |= v >> 2; v |= v >> 4; v |= v >> 8; v |= v >> 16; v |= v >> 32; return v; };
          va = fill(va); vb = fill(vb);
          u64 a0 = a.lo & ~va, b0 = b.lo & ~vb;  // unknown bits cleared
          if (e->op == E_AND) {
            r = {a0 & b0, (a0 | va) & (b0 | vb)};
            if (vb == 0 && ((b.lo + 1) & b.lo) == 0 && (va & ~b.lo) == 0) r = {a.lo & b.lo, a.hi & b.lo};
            else r.hi = std::min(r.hi, std::min(a.hi, b.hi));
          } else if (e->op == E_OR) {
            r = {std::max(a0 | b0, std::max(a.lo, b.lo)), a0 | va | b0 | vb};
            if (vb == 0 && (b.lo & va) == 0) r = {a.lo | b.lo, a.hi | b.lo};
          } else {
            u64 k = a0 ^ b0, v = va | vb;
            r = {k & ~v, k | v};
          }
          const Iv *x = a.ls >= 0 && vb == 0 ? &a : b.ls >= 0 && va == 0 ? &b : nullptr;  // the other one is a constant
          if (x) {
            u64 vx = x == &a ? va : vb, k = x == &a ? b.lo : a.lo;
            if (e->op == E_AND) { if (!(vx & ~k)) { r.ls = x->ls; r.d = (x->d - (x->lo & ~k)) & wm; } }
            else if (!(k & (x->lo | vx))) { r.ls = x->ls; r.d = (x->d + k) & wm; }
          }
          break;
        }
        case E_SHL: if (b.lo == b.hi && b.lo < w && (a.hi << b.lo) >> b.lo == a.hi && (a.hi << b.lo) <= wm) r = {a.lo << b.lo, a.hi << b.lo}; break;
        case E_LSHR: if (b.lo == b.hi) r = b.lo < w ? Iv{a.lo >> b.lo, a.hi >> b.lo} : Iv{0, 0}; break;
        case E_EQ: r = {0, 1}; if (a.hi < b.lo || b.hi < a.lo) r = {0, 0}; break;
        case E_ULT: r = {0, 1}; if (a.hi < b.lo) r = {1, 1}; else if (a.lo >= b.hi) r = {0, 0}; break;
        case E_ULE: r = {0, 1}; if (a.hi <= b.lo) r = {1, 1}; else if (a.lo > b.hi) r = {0, 0}; break;
        case E_SLT: case E_SLE: {
          u64 s = 1ull << (w - 1);
          r = {0, 1};
          if ((a.lo & s) != (a.hi & s) || (b.lo & s) != (b.hi & s)) break;
          Iv x = {a.lo ^ s, a.hi ^ s}, y = {b.lo ^ s, b.hi ^ s};
          if (e->op == E_SLT) { if (x.hi < y.lo) r = {1, 1}; else if (x.lo >= y.hi) r = {0, 0}; }
          else { if (x.hi <= y.lo) r = {1, 1}; else if (x.lo > y.hi) r = {0, 0}; }
          break;
        }
        default: break;
      }
      // an undecided comparison with a constant says where to cut
      if (r.lo != r.hi && e->w == 1 && (e->op == E_ULT || e->op == E_ULE || e->op == E_EQ) && !g_ivsplit) {
        auto cut = [&](int y, u64 t) {
          if (e->op == E_EQ && t == g_blo[y]) t++;
          if (t > g_blo[y] && t <= g_bhi[y]) { g_ivsplit = t; g_ivsplitsym = y; }
        };
        if (a.ls >= 0 && b.lo == b.hi) cut(a.ls, (b.lo + (e->op == E_ULE) - a.d) & wm);
        else if (b.ls >= 0 && a.lo == a.hi) cut(b.ls, (a.lo + (e->op == E_ULT) - b.d) & wm);
      }
    }
  }
  g_ivg[e->id] = g_ivgen;
  g_ivv[e->id] = r;
  return r;
}
static bool ivBox(const Expr *e, Iv &r) {  // e over the box; false: undecided
  g_ivsplit = 0;
  g_ivgen++;
  g_ivstart = g_ivwork;
  r = ivEval(e);
  return r.lo == r.hi;
}
// ---- one symbol
static int g_ivsym = -1;
static bool ivTruth(const Expr *e, u64 lo, u64 hi, Iv &r) {
  g_bm0 = g_ivsym < 64 ? 1ull << g_ivsym : 0;
  g_bm1 = g_ivsym < 64 ? 0 : 1ull << (g_ivsym - 64);
  g_blo[g_ivsym] = lo; g_bhi[g_ivsym] = hi;
  return ivBox(e, r);
}
// values of [lo,hi] where e is true, appended to out; false when the work limit is reached
static bool ivFilter(const Expr *e, u64 lo, u64 hi, std::vector<Iv> &out, u64 limit) {
  std::vector<Iv> st = {{lo, hi}};
  while (!st.empty()) {
    Iv x = st.back();
    st.pop_back();
    if (g_ivwork > limit || out.size() > 4096) return false;
    Iv r;
    if (ivTruth(e, x.lo, x.hi, r)) {
      if (r.lo) { if (!out.empty() && out.back().hi + 1 == x.lo) out.back().hi = x.hi; else out.push_back(x); }
      continue;
    }
    u64 c = g_ivsplit ? g_ivsplit : x.lo + (x.hi - x.lo) / 2 + 1;
    st.push_back({c, x.hi});
    st.push_back({x.lo, c - 1});
  }
  return true;
}
// 1: e is true at at, 0: nowhere in [lo,hi], -1: work limit
static int ivFind(const Expr *e, u64 lo, u64 hi, u64 &at, u64 limit) {
  std::vector<Iv> st = {{lo, hi}};
  while (!st.empty()) {
    Iv x = st.back();
    st.pop_back();
    if (g_ivwork > limit) return -1;
    Iv r;
    if (ivTruth(e, x.lo, x.hi, r)) {
      if (r.lo) { at = x.lo; return 1; }
      continue;
    }
    u64 c = g_ivsplit ? g_ivsplit : x.lo + (x.hi - x.lo) / 2 + 1;
    st.push_back({c, x.hi});
    st.push_back({x.lo, c - 1});
  }
  return 0;
}
// ---- several symbols: a point that satisfies every condition of cs, each symbol within its list of intervals
// 1: found (the intervals of the box are points), 0: none, -1: work limit
static int ivSolve(const std::vector<const Expr *> &cs, const std::vector<u32> &syms, const std::vector<const std::vector<Iv> *> &dom, u64 limit) {
  size_t n = syms.size();
  typedef std::vector<std::pair<u64, u64>> Box;
  Box top(n);
  for (size_t i = 0; i < n; i++) { if (dom[i]->empty()) return 0; top[i] = {dom[i]->front().lo, dom[i]->back().hi}; }
  std::vector<Box> st = {top};
  g_ivwork = 0;
  while (!st.empty()) {
    Box b = st.back();
    st.pop_back();
    if (g_ivwork > limit) return -1;
    bool empty = false;
    for (size_t i = 0; i < n && !empty; i++) {  // shrink to the intervals left
      auto &d = *dom[i];
      size_t l = 0, h = d.size();
      while (l < h) { size_t m = (l + h) / 2; if (d[m].hi < b[i].first) l = m + 1; else h = m; }
      if (l == d.size() || d[l].lo > b[i].second) { empty = true; break; }
      b[i].first = std::max(b[i].first, d[l].lo);
      size_t k = l;
      h = d.size();
      while (k + 1 < h) { size_t m = (k + h) / 2; if (d[m].lo <= b[i].second) k = m; else h = m; }
      b[i].second = std::min(b[i].second, d[k].hi);
    }
    if (empty) continue;
    g_bm0 = g_bm1 = 0;
    for (size_t i = 0; i < n; i++) {
      if (syms[i] < 64) g_bm0 |= 1ull << syms[i]; else g_bm1 |= 1ull << (syms[i] - 64);
      g_blo[syms[i]] = b[i].first; g_bhi[syms[i]] = b[i].second;
    }
    const Expr *open = nullptr;
    u64 at = 0;
    int as = -1;
    bool no = false;
    for (auto c : cs) {
      Iv r;
      if (ivBox(c, r)) { if (!r.lo) { no = true; break; } continue; }
      if (!open || (!at && g_ivsplit)) { open = c; at = g_ivsplit; as = g_ivsplitsym; }
    }
    if (no) continue;
    if (!open) {
      for (size_t i = 0; i < n; i++) g_blo[syms[i]] = g_bhi[syms[i]] = b[i].first;  // a value of its list
      return 1;
    }
    size_t w = n;
    if (at) { for (size_t i = 0; i < n; i++) if ((int)syms[i] == as) w = i; }
    if (w == n) {
      u64 best = 0;
      for (size_t i = 0; i < n; i++) {
        bool in = syms[i] < 64 ? open->s0 >> syms[i] & 1 : open->s1 >> (syms[i] - 64) & 1;
        if (in && b[i].second - b[i].first >= best && b[i].second > b[i].first) { best = b[i].second - b[i].first; w = i; }
      }
      if (w == n) return -1;
      at = b[w].first + best / 2 + 1;
    }
    Box l = b, r = b;
    l[w].second = at - 1; r[w].first = at;
    st.push_back(r);
    st.push_back(l);
  }
  return 0;
}
