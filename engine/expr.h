// Hash-consed bit-vector expressions (width <= 64), simplifier, interval analysis,
// evaluation under a model, and translation to Z3.
#pragma once
#include <z3.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unordered_map>
#include <vector>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uint16_t u16;

enum EOp : u8 {
  E_SYM, E_CONST, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_CONCAT, E_EXTRACT,
  E_ZEXT, E_SEXT
};

struct Expr {
  EOp op;
  u8 w;
  u8 tab;  // constant, or a tree of ITEs with constant leaves
  u32 id;
  u32 depth;
  u64 c;  // const value / symbol index / extract low bit
  const Expr *a, *b, *k;
  u64 s0, s1;    // symbol mask
  u64 lo, hi;    // unsigned interval given the symbols' declared domains
  mutable u64 ev;
  mutable u32 evgen;
  mutable Z3_ast z;
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) {
  if (w >= 64) return (i64)v;
  u64 m = 1ull << (w - 1);
  v &= maskw(w);
  return (i64)((v ^ m) - m);
}

struct Symbol {
  char name[48];
  unsigned w;
  u64 lo;   // value offset reported to the replay file: reported = base + value
  u64 base;
  u64 hi;   // inclusive upper bound on the raw symbol
};

static std::vector<Symbol> g_syms;
static std::vector<u64> g_model;  // current path model, one value per symbol
static u32 g_modelgen = 1;
static u32 g_nexpr = 0;

// ---------------------------------------------------------------- interning
static const Expr **g_tab;
static u64 g_tabcap = 0;
static u8 *g_ebuf = nullptr;
static size_t g_ebufleft = 0;

static inline u64 hmix(u64 h, u64 v) {
  v *= 0xc2b2ae3d27d4eb4full;
  v ^= v >> 29;
  v *= 0x165667b19e3779f9ull;
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}
static u64 ehash(EOp op, unsigned w, u64 c, const Expr *a, const Expr *b, const Expr *k) {
  u64 h = hmix(op * 131 + w, c);
  h = hmix(h, a ? a->id + 1 : 0);
  h = hmix(h, b ? b->id + 1 : 0);
  h = hmix(h, k ? k->id + 1 : 0);
  return h;
}
static void intervals(Expr *e);
static const Expr *intern(EOp op, unsigned w, u64 c, const Expr *a = nullptr,
                          const Expr *b = nullptr, const Expr *k = nullptr) {
  if (g_nexpr * 2 >= g_tabcap) {
    u64 ncap = g_tabcap ? g_tabcap * 2 : 1 << 16;
    const Expr **nt = (const Expr **)calloc(ncap, sizeof(void *));
    for (u64 i = 0; i < g_tabcap; i++)
      if (g_tab[i]) {
        const Expr *x = g_tab[i];
        u64 h = ehash(x->op, x->w, x->c, x->a, x->b, x->k) & (ncap - 1);
        while (nt[h]) h = (h + 1) & (ncap - 1);
        nt[h] = x;
      }
    free(g_tab);
    g_tab = nt;
    g_tabcap = ncap;
  }
  u64 h = ehash(op, w, c, a, b, k) & (g_tabcap - 1);
  while (g_tab[h]) {
    const Expr *x = g_tab[h];
    if (x->op == op && x->w == w && x->c == c && x->a == a && x->b == b && x->k == k) return x;
    h = (h + 1) & (g_tabcap - 1);
  }
  if (g_ebufleft < sizeof(Expr)) {
    g_ebufleft = sizeof(Expr) * 4096;
    g_ebuf = (u8 *)malloc(g_ebufleft);
  }
  Expr *e = (Expr *)g_ebuf;
  g_ebuf += sizeof(Expr);
  g_ebufleft -= sizeof(Expr);
  memset(e, 0, sizeof(Expr));
  e->op = op;
  e->w = w;
  e->c = c;
  e->a = a;
  e->b = b;
  e->k = k;
  e->id = g_nexpr++;
  e->depth = 1;
  e->tab = op == E_CONST ? 1 : (op == E_ITE && b->tab && k->tab && a->depth < 60) ? 1 : 0;
  const Expr *ch[3] = {a, b, k};
  for (auto x : ch)
    if (x) {
      e->s0 |= x->s0;
      e->s1 |= x->s1;
      if (x->depth + 1 > e->depth) e->depth = x->depth + 1;
    }
  if (op == E_SYM) {
    unsigned m = c & 127;
    if (m < 64) e->s0 = 1ull << m; else e->s1 = 1ull << (m - 64);
  }
  intervals(e);
  g_tab[h] = e;
  return e;
}

static inline const Expr *mkC(unsigned w, u64 v) { return intern(E_CONST, w, v & maskw(w)); }
static inline bool isC(const Expr *e) { return e->op == E_CONST; }
static const Expr *mkEq(const Expr *a, const Expr *b);
static const Expr *mkIte(const Expr *c, const Expr *a, const Expr *b);
static const Expr *mkExtract(const Expr *a, unsigned lo, unsigned w);
static const Expr *mkZext(const Expr *a, unsigned w);

static u64 foldbin(EOp op, unsigned w, u64 x, u64 y) {
  u64 m = maskw(w);
  switch (op) {
    case E_ADD: return (x + y) & m;
    case E_SUB: return (x - y) & m;
    case E_MUL: return (x * y) & m;
    case E_UDIV: return y ? (x / y) & m : m;
    case E_UREM: return y ? (x % y) & m : x;
    case E_SDIV: {
      i64 a = sx(x, w), b = sx(y, w);
      if (b == 0) return a < 0 ? 1 : m;
      if (b == -1) return (0 - x) & m;
      return (u64)(a / b) & m;
    }
    case E_SREM: {
      i64 a = sx(x, w), b = sx(y, w);
      if (b == 0) return x;
      if (b == -1) return 0;
      return (u64)(a % b) & m;
    }
    case E_AND: return x & y;
    case E_OR: return x | y;
    case E_XOR: return x ^ y;
    case E_SHL: return y >= w ? 0 : (x << y) & m;
    case E_LSHR: return y >= w ? 0 : x >> y;
    case E_ASHR: return y >= w ? ((sx(x, w) < 0) ? m : 0) : (u64)(sx(x, w) >> y) & m;
    case E_EQ: return x == y;
    case E_ULT: return x < y;
    case E_ULE: return x <= y;
    case E_SLT: return sx(x, w) < sx(y, w);
    case E_SLE: return sx(x, w) <= sx(y, w);
    default: abort();
  }
}

static u64 pow2up(u64 v) {  // smallest 2^k-1 >= v
  v |= v >> 1; v |= v >> 2; v |= v >> 4; v |= v >> 8; v |= v >> 16; v |= v >> 32;
  return v;
}
static void intervals(Expr *e) {
  u64 m = maskw(e->w);
  e->lo = 0;
  e->hi = m;
  const Expr *a = e->a, *b = e->b;
  switch (e->op) {
    case E_SYM: e->lo = 0; e->hi = g_syms[e->c].hi; break;
    case E_CONST: e->lo = e->hi = e->c; break;
    case E_ADD:
      if (a->hi <= m - b->hi) { e->lo = a->lo + b->lo; e->hi = a->hi + b->hi; }
      else if (b->lo == b->hi) {  // a + const with full wrap
        u64 l = (a->lo + b->lo) & m, h = (a->hi + b->hi) & m;
        bool wl = a->lo > m - b->lo, wh = a->hi > m - b->lo;
        if (wl == wh) { e->lo = l; e->hi = h; }
      }
      break;
    case E_SUB:
      if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; }
      break;
    case E_MUL: {
      unsigned __int128 p = (unsigned __int128)a->hi * b->hi;
      if (p <= m) { e->lo = a->lo * b->lo; e->hi = (u64)p; }
      break;
    }
    case E_UDIV: if (b->lo > 0) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
    case E_UREM: if (b->lo > 0) { e->hi = b->hi - 1; if (a->hi < e->hi) e->hi = a->hi; } break;
    case E_AND: e->hi = a->hi < b->hi ? a->hi : b->hi; break;
    case E_OR: e->lo = a->lo > b->lo ? a->lo : b->lo; e->hi = pow2up(a->hi | b->hi); break;
    case E_XOR: e->hi = pow2up(a->hi | b->hi); break;
    case E_LSHR: if (isC(b) && b->c < e->w) { e->lo = a->lo >> b->c; e->hi = a->hi >> b->c; } break;
    case E_SHL:
      if (isC(b) && b->c < e->w && (a->hi << b->c >> b->c) == a->hi && (a->hi << b->c) <= m) {
        e->lo = a->lo << b->c; e->hi = a->hi << b->c;
      }
      break;
    case E_ITE:
      e->lo = e->b->lo < e->k->lo ? e->b->lo : e->k->lo;
      e->hi = e->b->hi > e->k->hi ? e->b->hi : e->k->hi;
      break;
    case E_CONCAT: e->lo = (a->lo << b->w) | b->lo; e->hi = (a->hi << b->w) | b->hi; break;
    case E_EXTRACT:
      if (e->c == 0) { if (a->hi <= m) { e->lo = a->lo; e->hi = a->hi; } }
      else { u64 h = a->hi >> e->c; if (h <= m) { e->lo = a->lo >> e->c; e->hi = h; } }
      break;
    case E_ZEXT: e->lo = a->lo; e->hi = a->hi; break;
    case E_SEXT:
      if (a->hi <= maskw(a->w - 1)) { e->lo = a->lo; e->hi = a->hi; }
      break;
    default: break;
  }
}

static const Expr *mkNot(const Expr *a);
// An operation with a constant applied to a tree of ITEs with constant leaves is applied to the leaves.
struct TabTag { u32 kind, w; u64 c; };
struct TabKey {
  TabTag t; u64 id;
  bool operator==(const TabKey &o) const { return t.kind == o.t.kind && t.w == o.t.w && t.c == o.t.c && id == o.id; }
};
struct TabHash { size_t operator()(const TabKey &k) const { return hmix(hmix(hmix(k.t.kind, k.t.w), k.t.c), k.id); } };
static std::unordered_map<TabKey, const Expr *, TabHash> g_tabcache;
template <class F>
static const Expr *mapTab(const Expr *e, TabTag tag, F f) {
  if (isC(e)) return f(e);
  TabKey key{tag, e->id};
  auto it = g_tabcache.find(key);
  if (it != g_tabcache.end()) return it->second;
  const Expr *r = mkIte(e->a, mapTab(e->b, tag, f), mapTab(e->k, tag, f));
  g_tabcache[key] = r;
  return r;
}
static const Expr *mkBin(EOp op, const Expr *a, const Expr *b) {
  unsigned w = a->w;
  if (w > 1 && (a->tab ? (isC(b) && !isC(a)) : (isC(a) && b->tab))) {
    bool left = !isC(a);
    const Expr *t = left ? a : b, *c = left ? b : a;
    TabTag tag{(u32)op * 2 + left, w, c->c};
    return mapTab(t, tag, [=](const Expr *l) {
      return left ? mkC((op >= E_EQ && op <= E_SLE) ? 1 : w, foldbin(op, w, l->c, c->c))
                  : mkC((op >= E_EQ && op <= E_SLE) ? 1 : w, foldbin(op, w, c->c, l->c));
    });
  }
  if (w > 1 && isC(a) && b->op == E_ITE && b->tab) {
    TabTag tag{(u32)op * 2, w, a->c};
    return mapTab(b, tag, [=](const Expr *l) { return mkC((op >= E_EQ && op <= E_SLE) ? 1 : w, foldbin(op, w, a->c, l->c)); });
  }
  if (isC(a) && isC(b)) {
    unsigned rw = (op >= E_EQ && op <= E_SLE) ? 1 : w;
    return mkC(rw, foldbin(op, w, a->c, b->c));
  }
  u64 m = maskw(w);
  bool comm = op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR;
  if (comm && isC(a)) { const Expr *t = a; a = b; b = t; }
  else if (comm && !isC(b) && a->id > b->id) { const Expr *t = a; a = b; b = t; }
  switch (op) {
    case E_ADD:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (a->op == E_ADD && isC(a->b)) return mkBin(E_ADD, a->a, mkC(w, a->b->c + b->c));
        if (a->op == E_ITE && isC(a->b) && isC(a->k))
          return mkIte(a->a, mkC(w, a->b->c + b->c), mkC(w, a->k->c + b->c));
      }
      break;
    case E_SUB:
      if (isC(b)) return mkBin(E_ADD, a, mkC(w, 0 - b->c));
      if (a == b) return mkC(w, 0);
      if (a->op == E_ADD && a->a == b) return a->b;
      if (a->op == E_ADD && a->b == b) return a->a;
      if (a->op == E_ADD && b->op == E_ADD && a->a == b->a) return mkBin(E_SUB, a->b, b->b);
      break;
    case E_MUL:
      if (isC(b)) {
        if (b->c == 0) return b;
        if (b->c == 1) return a;
        if ((b->c & (b->c - 1)) == 0) return mkBin(E_SHL, a, mkC(w, __builtin_ctzll(b->c)));
      }
      break;
    case E_AND:
      if (a == b) return a;
      if (isC(b)) {
        if (b->c == 0) return b;
        if (b->c == m) return a;
        if (a->op == E_AND && isC(a->b)) return mkBin(E_AND, a->a, mkC(w, a->b->c & b->c));
        if ((b->c & (b->c + 1)) == 0) {
          if (a->hi <= b->c) return a;
          unsigned n = __builtin_popcountll(b->c);
          return mkZext(mkExtract(a, 0, n), w);
        }
      }
      if (w == 1) { if (a == mkNot(b)) return mkC(1, 0); }
      break;
    case E_OR:
      if (a == b) return a;
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c == m) return b;
      }
      if (w == 1) { if (a == mkNot(b)) return mkC(1, 1); }
      // zext(x) | (y << n) with n >= width(x): concat
      break;
    case E_XOR:
      if (a == b) return mkC(w, 0);
      if (isC(b)) {
        if (b->c == 0) return a;
        if (a->op == E_XOR && isC(a->b)) return mkBin(E_XOR, a->a, mkC(w, a->b->c ^ b->c));
        if (w == 1 && a->op == E_ITE && isC(a->b) && isC(a->k))
          return mkIte(a->a, mkC(1, a->b->c ^ 1), mkC(1, a->k->c ^ 1));
      }
      break;
    case E_SHL:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkC(w, 0);
      }
      break;
    case E_LSHR:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkC(w, 0);
        return mkZext(mkExtract(a, b->c, w - b->c), w);
      }
      break;
    case E_ASHR:
      if (isC(b) && b->c == 0) return a;
      if (a->hi <= maskw(w - 1)) return mkBin(E_LSHR, a, b);
      break;
    case E_UDIV:
      if (isC(b) && b->c == 1) return a;
      if (isC(b) && b->c && (b->c & (b->c - 1)) == 0)
        return mkBin(E_LSHR, a, mkC(w, __builtin_ctzll(b->c)));
      break;
    case E_SDIV: case E_SREM:
      if (a->hi <= maskw(w - 1) && b->hi <= maskw(w - 1) && b->lo > 0)
        return mkBin(op == E_SDIV ? E_UDIV : E_UREM, a, b);
      break;
    case E_UREM:
      if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mkBin(E_AND, a, mkC(w, b->c - 1));
      if (b->lo > 0 && a->hi < b->lo) return a;
      break;
    case E_EQ: return mkEq(a, b);
    case E_ULT:
      if (a == b) return mkC(1, 0);
      if (a->hi < b->lo) return mkC(1, 1);
      if (a->lo >= b->hi) return mkC(1, 0);
      if (isC(b) && b->c == 1) return mkEq(a, mkC(w, 0));
      if (a->op == E_ZEXT && isC(b)) return mkBin(E_ULT, a->a, mkC(a->a->w, b->c));
      if (b->op == E_ZEXT && isC(a)) return mkBin(E_ULT, mkC(b->a->w, a->c), b->a);
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkBin(E_ULT, a->a, b->a);
      break;
    case E_ULE:
      if (a == b) return mkC(1, 1);
      if (a->hi <= b->lo) return mkC(1, 1);
      if (a->lo > b->hi) return mkC(1, 0);
      return mkNot(mkBin(E_ULT, b, a));
    case E_SLT:
      if (a == b) return mkC(1, 0);
      if (a->hi <= maskw(w - 1) && b->hi <= maskw(w - 1)) return mkBin(E_ULT, a, b);
      if (a->hi <= maskw(w - 1) && b->lo > maskw(w - 1)) return mkC(1, 0);
      if (b->hi <= maskw(w - 1) && a->lo > maskw(w - 1)) return mkC(1, 1);
      if (a->lo > maskw(w - 1) && b->lo > maskw(w - 1)) return mkBin(E_ULT, a, b);
      if (a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return mkBin(E_SLT, a->a, b->a);
      break;
    case E_SLE:
      if (a == b) return mkC(1, 1);
      return mkNot(mkBin(E_SLT, b, a));
    default: break;
  }
  unsigned rw = (op >= E_EQ && op <= E_SLE) ? 1 : w;
  return intern(op, rw, 0, a, b);
}

static const Expr *mkNot(const Expr *a) {
  if (isC(a)) return mkC(1, !a->c);
  if (a->op == E_XOR && isC(a->b)) return a->a;
  return intern(E_XOR, 1, 0, a, mkC(1, 1));
}

static const Expr *mkEq(const Expr *a, const Expr *b) {
  if (a == b) return mkC(1, 1);
  if (isC(a)) { const Expr *t = a; a = b; b = t; }
  if (isC(a) && isC(b)) return mkC(1, a->c == b->c);
  if (a->w > 1 && isC(b) && a->tab) {
    u64 v = b->c;
    return mapTab(a, TabTag{E_EQ * 2 + 1, a->w, v}, [=](const Expr *l) { return mkC(1, l->c == v); });
  }
  if (a->hi < b->lo || b->hi < a->lo) return mkC(1, 0);
  unsigned w = a->w;
  if (w == 1) {
    if (isC(b)) return b->c ? a : mkNot(a);
    if (a == mkNot(b)) return mkC(1, 0);
  }
  if (isC(b)) {
    u64 v = b->c;
    switch (a->op) {
      case E_ZEXT:
        if (v > maskw(a->a->w)) return mkC(1, 0);
        return mkEq(a->a, mkC(a->a->w, v));
      case E_SEXT: {
        u64 t = v & maskw(a->a->w);
        if ((u64)(sx(t, a->a->w)) != (u64)sx(v, w)) return mkC(1, 0);
        return mkEq(a->a, mkC(a->a->w, t));
      }
      case E_ADD: if (isC(a->b)) return mkEq(a->a, mkC(w, v - a->b->c)); break;
      case E_XOR: if (isC(a->b)) return mkEq(a->a, mkC(w, v ^ a->b->c)); break;
      case E_ITE:
        if (isC(a->b) || isC(a->k)) {
          bool bc = isC(a->b), kc = isC(a->k);
          if (bc && kc) {
            bool x = a->b->c == v, y = a->k->c == v;
            if (x && y) return mkC(1, 1);
            if (!x && !y) return mkC(1, 0);
            return x ? a->a : mkNot(a->a);
          }
          if (bc && a->b->c != v) return mkBin(E_AND, mkNot(a->a), mkEq(a->k, b));
          if (kc && a->k->c != v) return mkBin(E_AND, a->a, mkEq(a->b, b));
          if (bc) return mkBin(E_OR, a->a, mkEq(a->k, b));
          return mkBin(E_OR, mkNot(a->a), mkEq(a->b, b));
        }
        break;
      case E_CONCAT:
        return mkBin(E_AND, mkEq(a->a, mkC(a->a->w, v >> a->b->w)), mkEq(a->b, mkC(a->b->w, v)));
      case E_SHL:
        if (isC(a->b)) {
          u64 s = a->b->c;
          if (v & maskw(s)) return mkC(1, 0);
          return mkEq(mkExtract(a->a, 0, w - s), mkC(w - s, v >> s));
        }
        break;
      default: break;
    }
  } else {
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->op == E_ADD && b->op == E_ADD && isC(a->b) && a->b == b->b) return mkEq(a->a, b->a);
    if (a->op == E_CONCAT && b->op == E_CONCAT && a->b->w == b->b->w)
      return mkBin(E_AND, mkEq(a->a, b->a), mkEq(a->b, b->b));
    if (a->op == E_ADD && a->a == b && isC(a->b)) return mkC(1, a->b->c == 0);
    if (b->op == E_ADD && b->a == a && isC(b->b)) return mkC(1, b->b->c == 0);
    if (a->id > b->id) { const Expr *t = a; a = b; b = t; }
  }
  return intern(E_EQ, 1, 0, a, b);
}

static const Expr *mkIte(const Expr *c, const Expr *a, const Expr *b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == E_XOR && isC(c->b)) return mkIte(c->a, b, a);  // not
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (isC(a)) return a->c ? mkBin(E_OR, c, b) : mkBin(E_AND, mkNot(c), b);
    if (isC(b)) return b->c ? mkBin(E_OR, mkNot(c), a) : mkBin(E_AND, c, a);
  }
  if (a->op == E_ITE && a->a == c) a = a->b;
  if (b->op == E_ITE && b->a == c) b = b->k;
  if (a == b) return a;
  return intern(E_ITE, a->w, 0, c, a, b);
}

static const Expr *mkExtract(const Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkC(w, a->c >> lo);
  if (a->tab) return mapTab(a, TabTag{1000 + lo, w, 0}, [=](const Expr *l) { return mkC(w, l->c >> lo); });
  switch (a->op) {
    case E_EXTRACT: return mkExtract(a->a, a->c + lo, w);
    case E_ZEXT:
      if (lo >= a->a->w) return mkC(w, 0);
      if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      return mkZext(mkExtract(a->a, lo, a->a->w - lo), w);
    case E_SEXT:
      if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      break;
    case E_CONCAT:
      if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
      if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
      break;
    case E_ITE:
      if ((isC(a->b) || isC(a->k)))
        return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->k, lo, w));
      break;
    case E_AND: case E_OR: case E_XOR:
      return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case E_ADD: case E_SUB: case E_MUL:
      if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    case E_SHL:
      if (isC(a->b)) {
        u64 s = a->b->c;
        if (lo >= s) return mkExtract(a->a, lo - s, w);
        if (lo + w <= s) return mkC(w, 0);
        if (lo == 0) return mkBin(E_SHL, mkExtract(a->a, 0, w), mkC(w, s));
      }
      break;
    default: break;
  }
  return intern(E_EXTRACT, w, lo, a);
}
static const Expr *mkZext(const Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkC(w, a->c);
  if (a->tab && a->w > 1) return mapTab(a, TabTag{2000, w, 0}, [=](const Expr *l) { return mkC(w, l->c); });
  if (a->op == E_ZEXT) return mkZext(a->a, w);
  // zext(extract(x,0,n)) where x's interval fits in n bits
  if (a->op == E_EXTRACT && a->c == 0 && a->a->hi <= maskw(a->w)) {
    if (a->a->w == w) return a->a;
    if (a->a->w < w) return mkZext(a->a, w);
    return mkExtract(a->a, 0, w);
  }
  return intern(E_ZEXT, w, 0, a);
}
static const Expr *mkSext(const Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkC(w, (u64)sx(a->c, a->w));
  if (a->tab && a->w > 1) return mapTab(a, TabTag{3000, w, a->w}, [=](const Expr *l) { return mkC(w, (u64)sx(l->c, l->w)); });
  if (a->hi <= maskw(a->w - 1)) return mkZext(a, w);
  if (a->op == E_SEXT) return mkSext(a->a, w);
  if (a->w == 1) return mkIte(a, mkC(w, ~0ull), mkC(w, 0));
  return intern(E_SEXT, w, 0, a);
}
static const Expr *mkConcat(const Expr *a, const Expr *b) {  // a high, b low
  unsigned w = a->w + b->w;
  if (isC(a) && isC(b)) return mkC(w, (a->c << b->w) | b->c);
  if (isC(a) && a->c == 0) return mkZext(b, w);
  if (a->op == E_EXTRACT && b->op == E_EXTRACT && a->a == b->a && a->c == b->c + b->w)
    return mkExtract(a->a, b->c, w);
  if (a->op == E_EXTRACT && a->a == b && a->c == b->w && b->w + a->w <= a->a->w)
    return mkExtract(a->a, 0, w);
  // (zext x)'s pieces: concat(0.., x) handled above; concat(extract(x..),concat?)
  return intern(E_CONCAT, w, 0, a, b);
}

// ---------------------------------------------------------------- evaluation
static u64 evalE(const Expr *e) {
  if (e->op == E_CONST) return e->c;
  if (e->evgen == g_modelgen) return e->ev;
  u64 r;
  switch (e->op) {
    case E_SYM: r = g_model[e->c] & maskw(e->w); break;
    case E_ITE: r = evalE(e->a) ? evalE(e->b) : evalE(e->k); break;
    case E_CONCAT: r = (evalE(e->a) << e->b->w) | evalE(e->b); break;
    case E_EXTRACT: r = (evalE(e->a) >> e->c) & maskw(e->w); break;
    case E_ZEXT: r = evalE(e->a); break;
    case E_SEXT: r = (u64)sx(evalE(e->a), e->a->w) & maskw(e->w); break;
    default: r = foldbin(e->op, e->a->w, evalE(e->a), evalE(e->b)); break;
  }
  e->ev = r;
  e->evgen = g_modelgen;
  return r;
}

// ---------------------------------------------------------------- Z3
static Z3_context g_z3;
static Z3_ast toZ3b(const Expr *e);
static Z3_ast toZ3(const Expr *e) {  // bit-vector term (width 1 as 1-bit vector)
  if (e->z) return e->z;
  Z3_ast r;
  switch (e->op) {
    case E_CONST: r = Z3_mk_unsigned_int64(g_z3, e->c, Z3_mk_bv_sort(g_z3, e->w)); break;
    case E_SYM:
      r = Z3_mk_const(g_z3, Z3_mk_int_symbol(g_z3, (int)e->c), Z3_mk_bv_sort(g_z3, e->w));
      break;
    case E_ADD: r = Z3_mk_bvadd(g_z3, toZ3(e->a), toZ3(e->b)); break;
    case E_SUB: r = Z3_mk_bvsub(g_z3, toZ3(e->a), toZ3(e->b)); break;
    case E_MUL: r = Z3_mk_bvmul(g_z3, toZ3(e->a), toZ3(e->b)); break;
    case E_UDIV: r = Z3_mk_bvudiv(g_z3, toZ3(e->a), toZ3(e->b)); break;
    case E_SDIV: r = Z3_mk_bvsdiv(g_z3, toZ3(e->a), toZ3(e->b)); break;
    case E_UREM: r = Z3_mk_bvurem(g_z3, toZ3(e->a), toZ3(e->b)); break;
    case E_SREM: r = Z3_mk_bvsrem(g_z3, toZ3(e->a), toZ3(e->b)); break;
    case E_AND: r = Z3_mk_bvand(g_z3, toZ3(e->a), toZ3(e->b)); break;
    case E_OR: r = Z3_mk_bvor(g_z3, toZ3(e->a), toZ3(e->b)); break;
    case E_XOR: r = Z3_mk_bvxor(g_z3, toZ3(e->a), toZ3(e->b)); break;
    case E_SHL: r = Z3_mk_bvshl(g_z3, toZ3(e->a), toZ3(e->b)); break;
    case E_LSHR: r = Z3_mk_bvlshr(g_z3, toZ3(e->a), toZ3(e->b)); break;
    case E_ASHR: r = Z3_mk_bvashr(g_z3, toZ3(e->a), toZ3(e->b)); break;
    case E_ITE: r = Z3_mk_ite(g_z3, toZ3b(e->a), toZ3(e->b), toZ3(e->k)); break;
    case E_CONCAT: r = Z3_mk_concat(g_z3, toZ3(e->a), toZ3(e->b)); break;
    case E_EXTRACT: r = Z3_mk_extract(g_z3, e->c + e->w - 1, e->c, toZ3(e->a)); break;
    case E_ZEXT: r = Z3_mk_zero_ext(g_z3, e->w - e->a->w, toZ3(e->a)); break;
    case E_SEXT: r = Z3_mk_sign_ext(g_z3, e->w - e->a->w, toZ3(e->a)); break;
    default: {
      Z3_ast one = Z3_mk_unsigned_int64(g_z3, 1, Z3_mk_bv_sort(g_z3, 1));
      Z3_ast zero = Z3_mk_unsigned_int64(g_z3, 0, Z3_mk_bv_sort(g_z3, 1));
      r = Z3_mk_ite(g_z3, toZ3b(e), one, zero);
    }
  }
  e->z = r;
  return r;
}
static std::unordered_map<const Expr *, Z3_ast> g_z3bool;
static Z3_ast toZ3b(const Expr *e) {  // boolean formula
  auto it = g_z3bool.find(e);
  if (it != g_z3bool.end()) return it->second;
  Z3_ast r;
  switch (e->op) {
    case E_CONST: r = e->c ? Z3_mk_true(g_z3) : Z3_mk_false(g_z3); break;
    case E_EQ: r = Z3_mk_eq(g_z3, toZ3(e->a), toZ3(e->b)); break;
    case E_ULT: r = Z3_mk_bvult(g_z3, toZ3(e->a), toZ3(e->b)); break;
    case E_ULE: r = Z3_mk_bvule(g_z3, toZ3(e->a), toZ3(e->b)); break;
    case E_SLT: r = Z3_mk_bvslt(g_z3, toZ3(e->a), toZ3(e->b)); break;
    case E_SLE: r = Z3_mk_bvsle(g_z3, toZ3(e->a), toZ3(e->b)); break;
    case E_AND: { Z3_ast x[2] = {toZ3b(e->a), toZ3b(e->b)}; r = Z3_mk_and(g_z3, 2, x); break; }
    case E_OR: { Z3_ast x[2] = {toZ3b(e->a), toZ3b(e->b)}; r = Z3_mk_or(g_z3, 2, x); break; }
    case E_XOR:
      if (isC(e->b)) r = e->b->c ? Z3_mk_not(g_z3, toZ3b(e->a)) : toZ3b(e->a);
      else r = Z3_mk_xor(g_z3, toZ3b(e->a), toZ3b(e->b));
      break;
    case E_ITE: r = Z3_mk_ite(g_z3, toZ3b(e->a), toZ3b(e->b), toZ3b(e->k)); break;
    default:
      r = Z3_mk_eq(g_z3, toZ3(e), Z3_mk_unsigned_int64(g_z3, 1, Z3_mk_bv_sort(g_z3, 1)));
  }
  g_z3bool[e] = r;
  return r;
}
