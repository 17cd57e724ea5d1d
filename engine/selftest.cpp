// The simplifier against plain evaluation: random expressions over small-domain and wide symbols.
#include "expr.h"
#include <algorithm>
#include "ranges.h"
#include <random>
static std::mt19937_64 R(1);
static const int M = 8;  // models
struct T { const Expr *e; u64 v[M]; };
int main(int argc, char **argv) {
  u64 rounds = argc > 1 ? atoll(argv[1]) : 2000, bad = 0, n = 0;
  for (u64 k = 0; k < rounds && bad < 5; k++) {
    g_syms.clear(); g_model.clear(); g_tabcache.clear();
    free(g_tab); g_tab = nullptr; g_tabcap = 0;  // symbols change meaning between rounds
    std::vector<std::vector<u64>> model(M);
    std::vector<T> pool;
    for (int i = 0; i < 6; i++) {
      Symbol s{}; s.w = (unsigned[]){1, 8, 8, 32, 32, 64}[i]; s.hi = (i == 1 || i == 3) ? R() % 6 : maskw(s.w);
      g_syms.push_back(s); g_model.push_back(0);
      T t; for (int m = 0; m < M; m++) { u64 v = s.hi == ~0ull ? R() : R() % (s.hi + 1); if (R() % 4 == 0) v = 0; model[m].push_back(v); t.v[m] = v; }
      t.e = intern(E_SYM, s.w, i); pool.push_back(t);
    }
    for (int i = 0; i < 12; i++) {
      unsigned w = (unsigned[]){1, 8, 32, 64, 16}[R() % 5];
      u64 c = R() % 3 ? R() % 300 : R() % 2 ? R() : 0 - (R() % 5); c &= maskw(w);
      T t; t.e = mkC(w, c); for (auto &x : t.v) x = c; pool.push_back(t);
    }
    // trees of constants, as table lookups give
    for (int i = 0; i < 4; i++) {
      unsigned w = (unsigned[]){8, 32, 64}[R() % 3]; int s = (R() % 2) ? 1 : 3;
      u64 last = R() % 256; T t; t.e = mkC(w, last); for (auto &x : t.v) x = last;
      for (int j = 0; j < 5; j++) {
        u64 c = R() % 3 ? R() % 256 : R(); c &= maskw(w); u64 at = R() % 6;
        t.e = mkIte(mkEq(pool[s].e, mkC(pool[s].e->w, at)), mkC(w, c), t.e);
        for (int m = 0; m < M; m++) if (pool[s].v[m] == at) t.v[m] = c;
      }
      pool.push_back(t);
    }
    auto pick = [&](unsigned w) -> T { for (int i = 0; i < 60; i++) { T &t = pool[R() % pool.size()]; if (!w || t.e->w == w) return t; } T t; u64 c = R() & maskw(w); t.e = mkC(w, c); for (auto &x : t.v) x = c; return t; };
    for (int i = 0; i < 150; i++) {
      T a = pick(0), b, c, r; unsigned w = a.e->w; int op = R() % 12;
      std::string what;
      if (op < 6) {
        EOp o = (EOp)(E_ADD + R() % (E_SLE - E_ADD + 1)); b = pick(w);
        if ((o >= E_SHL && o <= E_ASHR) && R() % 2) { u64 s = R() % (w + 1); b.e = mkC(w, s); s &= maskw(w); for (auto &x : b.v) x = s; }
        r.e = o == E_EQ ? mkEq(a.e, b.e) : mkBin(o, a.e, b.e); for (int m = 0; m < M; m++) r.v[m] = foldbin(o, w, a.v[m], b.v[m]); what = "bin" + std::to_string(o);
      } else if (op == 6) { c = pick(1); b = pick(w); r.e = mkIte(c.e, a.e, b.e); for (int m = 0; m < M; m++) r.v[m] = c.v[m] ? a.v[m] : b.v[m]; what = "ite"; }
      else if (op == 7) { if (w > 32) continue; unsigned t = w < 8 ? 8 : w * 2; r.e = mkZext(a.e, t); for (int m = 0; m < M; m++) r.v[m] = a.v[m]; what = "zext"; }
      else if (op == 8) { if (w > 32) continue; unsigned t = w < 8 ? 8 : w * 2; r.e = mkSext(a.e, t); for (int m = 0; m < M; m++) r.v[m] = (u64)sx(a.v[m], w) & maskw(t); what = "sext"; }
      else if (op == 9) { b = pick(0); if (w + b.e->w > 64) continue; r.e = mkConcat(a.e, b.e); for (int m = 0; m < M; m++) r.v[m] = a.v[m] << b.e->w | b.v[m]; what = "concat"; }
      else if (op == 10) { if (w < 8) continue; unsigned t = R() % 2 ? 8 : 1 + R() % w; unsigned lo = R() % (w - t + 1); r.e = mkExtract(a.e, lo, t); for (int m = 0; m < M; m++) r.v[m] = a.v[m] >> lo & maskw(t); what = "extract"; }
      else { if (w != 1) continue; r.e = mkNot(a.e); for (int m = 0; m < M; m++) r.v[m] = !a.v[m]; what = "not"; }
      if (r.e->depth > 40) continue;
      for (int m = 0; m < M; m++) {
        g_model = model[m]; g_modelgen++; n++;
        u64 v = evalE(r.e);
        if (v != r.v[m] || v < r.e->lo || v > r.e->hi) {
          bad++; fprintf(stderr, "round %llu: %s at width %u gives %llx, expected %llx (interval %llx..%llx)\n", (unsigned long long)k, what.c_str(), w, (unsigned long long)v, (unsigned long long)r.v[m], (unsigned long long)r.e->lo, (unsigned long long)r.e->hi);
          break;
        }
      }
      pool.push_back(r);
    }
  }
  // conditions over one symbol: interval search against trying every value
  for (u64 k = 0; k < rounds / 4 && bad < 5; k++) {
    g_syms.clear(); g_model.clear(); g_tabcache.clear();
    free(g_tab); g_tab = nullptr; g_tabcap = 0; g_ivg.clear(); g_ivv.clear(); g_nexpr = 0;
    Symbol s{}; s.w = 32; s.hi = 100 + R() % 900; g_syms.push_back(s); g_model.push_back(0);
    Symbol o{}; o.w = 32; o.hi = ~0u; g_syms.push_back(o); g_model.push_back(R() % 50);
    std::vector<const Expr *> pool = {intern(E_SYM, 32, 0), intern(E_SYM, 32, 0), intern(E_SYM, 32, 0), intern(E_SYM, 32, 1)};
    for (int i = 0; i < 10; i++) { unsigned w = (unsigned[]){1, 8, 32, 64, 16}[R() % 5]; pool.push_back(mkC(w, R() % 3 ? R() % 1000 : 0 - R() % 3)); }
    const Expr *t = mkC(32, 5);
    for (int i = 0; i < 6; i++) t = mkIte(mkBin(E_ULT, pool[0], mkC(32, R() % 1000)), R() % 2 ? mkC(32, R() % 300) : mkBin(E_ADD, pool[0], mkC(32, R() % 70)), t);
    pool.push_back(t);
    auto pick = [&](unsigned w) -> const Expr * { for (int i = 0; i < 60; i++) { const Expr *x = pool[R() % pool.size()]; if (!w || x->w == w) return x; } return mkC(w, R() % 300); };
    for (int i = 0; i < 60; i++) {
      const Expr *a = pick(0), *r; unsigned w = a->w; int op = R() % 10;
      if (op < 6) { EOp q = (EOp)(E_ADD + R() % (E_SLE - E_ADD + 1)); const Expr *b = pick(w); r = q == E_EQ ? mkEq(a, b) : mkBin(q, a, b); }
      else if (op == 6) r = mkIte(pick(1), a, pick(w));
      else if (op == 7) { if (w > 32) continue; unsigned v = w < 8 ? 8 : w * 2; r = R() % 2 ? mkZext(a, v) : mkSext(a, v); }
      else if (op == 8) { if (w < 8) continue; unsigned v = 1 + R() % w; r = mkExtract(a, R() % (w - v + 1), v); }
      else { const Expr *b = pick(0); if (w + b->w > 64) continue; r = mkConcat(a, b); }
      if (r->depth < 30) pool.push_back(r);
    }
    for (auto e : pool) {
      if (e->w != 1 || isC(e)) continue;
      std::vector<Iv> out; std::vector<bool> got(s.hi + 1);
      g_ivsym = 0; g_ivwork = 0;
      if (!ivFilter(e, 0, s.hi, out, 1u << 30)) continue;
      for (auto &x : out) for (u64 v = x.lo; v <= x.hi; v++) got[v] = true;
      u64 at = 0; bool any = false, wrong = false;
      for (u64 v = 0; v <= s.hi; v++) { g_model[0] = v; g_modelgen++; n++; bool b = evalE(e); any |= b; wrong |= b != got[v]; }
      g_modelgen++;
      int f = ivFind(e, 0, s.hi, at, 1u << 30);
      wrong |= f != (any ? 1 : 0) || (f == 1 && !got[at]);
      if (wrong) { bad++; fprintf(stderr, "round %llu: interval search is wrong\n", (unsigned long long)k); break; }
    }
  }
  // conditions over three symbols, each left with some intervals
  for (u64 k = 0; k < rounds / 4 && bad < 5; k++) {
    g_syms.clear(); g_model.clear(); g_tabcache.clear();
    free(g_tab); g_tab = nullptr; g_tabcap = 0; g_ivg.clear(); g_ivv.clear(); g_nexpr = 0;
    std::vector<const Expr *> pool;
    std::vector<std::vector<Iv>> doms;
    for (int i = 0; i < 3; i++) {
      Symbol s{}; s.w = 32; s.hi = 5 + R() % 25; g_syms.push_back(s); g_model.push_back(0);
      pool.push_back(intern(E_SYM, 32, i)); pool.push_back(pool.back());
      std::vector<Iv> d;
      for (u64 v = 0; v <= s.hi; v++) if (R() % 3) { if (!d.empty() && d.back().hi + 1 == v) d.back().hi = v; else d.push_back({v, v}); }
      doms.push_back(d);
    }
    for (int i = 0; i < 8; i++) { unsigned w = (unsigned[]){1, 8, 32, 64, 16}[R() % 5]; pool.push_back(mkC(w, R() % 3 ? R() % 30 : 0 - R() % 3)); }
    for (int q = 0; q < 3; q++) {
      const Expr *t = mkC(32, 5);
      for (int i = 0; i < 4; i++) t = mkIte(mkBin(E_ULT, pool[q * 2], mkC(32, R() % 30)), R() % 2 ? mkC(32, R() % 9) : mkBin(E_ADD, pool[q * 2], mkC(32, R() % 7)), t);
      pool.push_back(t);
    }
    auto pick = [&](unsigned w) -> const Expr * { for (int i = 0; i < 60; i++) { const Expr *x = pool[R() % pool.size()]; if (!w || x->w == w) return x; } return mkC(w, R() % 30); };
    for (int i = 0; i < 60; i++) {
      const Expr *a = pick(0), *r; unsigned w = a->w; int op = R() % 10;
      if (op < 6) { EOp q = (EOp)(E_ADD + R() % (E_SLE - E_ADD + 1)); const Expr *b = pick(w); r = q == E_EQ ? mkEq(a, b) : mkBin(q, a, b); }
      else if (op == 6) r = mkIte(pick(1), a, pick(w));
      else if (op == 7) { if (w > 32) continue; unsigned v = w < 8 ? 8 : w * 2; r = R() % 2 ? mkZext(a, v) : mkSext(a, v); }
      else if (op == 8) { if (w < 8) continue; unsigned v = 1 + R() % w; r = mkExtract(a, R() % (w - v + 1), v); }
      else { const Expr *b = pick(0); if (w + b->w > 64) continue; r = mkConcat(a, b); }
      if (r->depth < 30) pool.push_back(r);
    }
    std::vector<const Expr *> conds;
    for (auto e : pool) if (e->w == 1 && !isC(e)) conds.push_back(e);
    for (size_t c = 0; c + 1 < conds.size() && c < 6; c++) {
      std::vector<const Expr *> cs = {conds[c], conds[R() % conds.size()]};
      int f = ivSolve(cs, {0, 1, 2}, {&doms[0], &doms[1], &doms[2]}, 1u << 30);
      u64 x[3] = {g_blo[0], g_blo[1], g_blo[2]};
      bool any = false, got = false;
      for (auto &a : doms[0]) for (u64 i = a.lo; i <= a.hi; i++) for (auto &b : doms[1]) for (u64 j = b.lo; j <= b.hi; j++) for (auto &d : doms[2]) for (u64 l = d.lo; l <= d.hi; l++) {
        g_model = {i, j, l}; g_modelgen++; n++;
        bool t = evalE(cs[0]) && evalE(cs[1]);
        any |= t;
        if (t && i == x[0] && j == x[1] && l == x[2]) got = true;
      }
      if (f != (any ? 1 : 0) || (f == 1 && !got)) { bad++; fprintf(stderr, "round %llu: box search is wrong\n", (unsigned long long)k); break; }
    }
  }
  printf("%llu evaluations, %llu wrong\n", (unsigned long long)n, (unsigned long long)bad);
  return bad != 0;
}
