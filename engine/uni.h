// Unicode character functions for symbolic code points, tabulated from the real ICU.
// The function value over the argument's range is split into runs on which it is either constant
// or argument + constant; the result is a balanced tree of comparisons, exact for every value.
#pragma once
#include <unicode/locid.h>
#include <unicode/normalizer2.h>
#include <unicode/uchar.h>
#include <unicode/uniset.h>
#include <unicode/unistr.h>

static icu::UnicodeSet *g_usets[8];
static const char *USETPAT[] = {"[\\p{L}]", "[\\p{N}]", "[\\p{P}]", "[\\p{White_Space}]",
                                "[\\p{Alphabetic}\\p{M}\\p{Nd}\\p{Pc}\\u200c\\u200d]", "[\\p{Nd}]", "[\\p{M}]", "[\\p{Mn}]"};
static const icu::Normalizer2 *normInst(int kind) {  // 0 NFD 1 NFKD(through NFKC data)
  UErrorCode st = U_ZERO_ERROR;
  return kind == 0 ? icu::Normalizer2::getNFCInstance(st) : icu::Normalizer2::getNFKCInstance(st);
}
static u32 decompAt(int kind, u32 c, int idx) {  // idx -1: length; full decomposition (recursive)
  UErrorCode st = U_ZERO_ERROR;
  const icu::Normalizer2 *n = kind == 0 ? icu::Normalizer2::getNFDInstance(st) : icu::Normalizer2::getNFKDInstance(st);
  icu::UnicodeString s;
  if (!n->getDecomposition((UChar32)c, s)) return idx < 0 ? 1 : (idx == 0 ? c : 0);
  int k = 0;
  for (int i = 0; i < s.length(); k++) {
    UChar32 x = s.char32At(i);
    if (k == idx) return x;
    i += U16_LENGTH(x);
  }
  return idx < 0 ? k : 0;
}
// function numbers are shared with model/sym_icu.h
static u32 icuFn(unsigned fn, u32 c0) {
  UChar32 c = (UChar32)c0;
  switch (fn) {
    case 0: return (u32)u_charType(c);
    case 1: return (u32)u_tolower(c);
    case 2: return u_isUWhiteSpace(c) != 0;
    case 3: return u_getCombiningClass(c);
    case 4: return (u32)u_toupper(c);
    case 5: return (u32)u_foldCase(c, U_FOLD_CASE_DEFAULT);
    case 6: return u_isspace(c) != 0;
    case 7: return u_isWhitespace(c) != 0;
    case 8: return u_iscntrl(c) != 0;
    case 9: return u_ispunct(c) != 0;
    case 10: return u_isalpha(c) != 0;
    case 11: return u_isalnum(c) != 0;
    case 12: return u_isdigit(c) != 0;
    case 13: return u_isupper(c) != 0;
    case 14: return u_islower(c) != 0;
    case 15: return u_isISOControl(c) != 0;
    case 16: return u_isUAlphabetic(c) != 0;
    case 17: return u_isprint(c) != 0;
    case 18: return u_isgraph(c) != 0;
    case 19: return u_isblank(c) != 0;
    case 20: return (u32)u_totitle(c);
    case 21: return u_isJavaSpaceChar(c) != 0;
    case 22: return u_isxdigit(c) != 0;
    case 23: return u_istitle(c) != 0;
    case 24: return u_isbase(c) != 0;
    case 25: return u_isdefined(c) != 0;
    case 26: return u_isIDPart(c) != 0;
    case 27: return u_isIDStart(c) != 0;
    case 28: return (u32)u_charDigitValue(c);
    case 29: return u_isULowercase(c) != 0;
    case 30: return u_isUUppercase(c) != 0;
    default: break;
  }
  if (fn >= 0x1000 && fn < 0x2000) return u_hasBinaryProperty(c, (UProperty)(fn - 0x1000)) != 0;
  if (fn >= 0x2000 && fn < 0x4000) return (u32)u_getIntPropertyValue(c, (UProperty)(fn - 0x2000));
  if (fn >= 128 && fn < 224) {  // full case mapping of one character: its length, then its code units
    icu::UnicodeString s(c);
    if (fn < 160) s.toLower(icu::Locale::getRoot());
    else if (fn < 192) s.toUpper(icu::Locale::getRoot());
    else s.foldCase();
    unsigned k = fn & 31;
    return k ? (k <= (unsigned)s.length() ? s[k - 1] : 0) : (u32)s.length();
  }
  if (fn >= 32 && fn < 40) {
    unsigned i = fn - 32;
    if (!g_usets[i]) {
      UErrorCode st = U_ZERO_ERROR;
      g_usets[i] = new icu::UnicodeSet(icu::UnicodeString::fromUTF8(USETPAT[i]), st);
      g_usets[i]->freeze();
    }
    return g_usets[i]->contains(c);
  }
  if (fn >= 64 && fn < 96) return decompAt(0, c0, (int)fn - 65);
  if (fn >= 96 && fn < 128) return decompAt(1, c0, (int)fn - 97);
  if (fn == 40) {  // compose pair is handled elsewhere
    return 0;
  }
  return 0;
}
static std::unordered_map<u64, const Expr *> g_unicache;
struct URun { u32 lo; bool delta; u32 v; };
static const Expr *uniTree(const Expr *c, const std::vector<URun> &r, size_t a, size_t b) {
  if (b - a == 1) return r[a].delta ? mkBin(E_ADD, c, mkC(32, r[a].v)) : mkC(32, r[a].v);
  size_t m = (a + b) / 2;
  const Expr *L = uniTree(c, r, a, m), *R = uniTree(c, r, m, b);
  return mkIte(mkBin(E_ULT, c, mkC(32, r[m].lo)), L, R);
}
static std::unordered_map<unsigned, std::vector<URun>> g_uniruns;
// c is a function of one symbol with a large domain: tabulate the composition over what the path leaves of the symbol
static const Expr *uniCompose(unsigned fn, const Expr *c) {
  int m = wideSym(c);
  if (m < 0 || g_syms[m].w > 32 || c->w != 32) return nullptr;
  g_ivsym = m;
  g_ivwork = 0;
  struct Piece { u64 lo, hi; bool lin; u64 d; };
  std::vector<Piece> ps;
  std::vector<Iv> st(g_ivdom[m].rbegin(), g_ivdom[m].rend());
  while (!st.empty()) {
    Iv x = st.back(), r;
    st.pop_back();
    if (g_ivwork > 5 * IVLIMIT || ps.size() > 40000) return nullptr;
    bool point = ivTruth(c, x.lo, x.hi, r);
    if (point || r.ls == m) { ps.push_back({x.lo, x.hi, !point, point ? r.lo : r.d}); continue; }
    u64 t = g_ivsplit ? g_ivsplit : x.lo + (x.hi - x.lo) / 2 + 1;
    st.push_back({t, x.hi});
    st.push_back({x.lo, t - 1});
  }
  if (ps.empty()) return nullptr;
  std::vector<URun> runs;
  for (auto &p : ps) {
    u32 k = p.lin ? 0 : icuFn(fn, (u32)p.d);
    for (u64 x = p.lo; x <= p.hi; x++) {
      u32 v = p.lin ? icuFn(fn, (u32)(x + p.d)) : k;
      if (!runs.empty()) {
        URun &q = runs.back();
        if (q.delta ? v - (u32)x == q.v : v == q.v) continue;
        if (!q.delta && q.lo + 1 == x && v - (u32)x == q.v - q.lo) { q.delta = true; q.v = q.v - q.lo; continue; }
      }
      runs.push_back({(u32)x, false, v});
    }
  }
  const Expr *s = intern(E_SYM, g_syms[m].w, m);
  return uniTree(g_syms[m].w < 32 ? mkZext(s, 32) : s, runs, 0, runs.size());
}
static const Expr *uniExpr(unsigned fn, const Expr *c) {  // c has width 32
  if (isC(c)) return mkC(32, icuFn(fn, (u32)c->c));
  if (pinned(c)) return mkC(32, icuFn(fn, (u32)evalE(c)));
  u64 key = ((u64)fn << 40) ^ c->id;
  auto it = g_unicache.find(key);
  if (it != g_unicache.end()) return it->second;
  const Expr *r = uniCompose(fn, c);
  if (r) {
  } else if (c->op == E_ITE) {
    r = mkIte(c->a, uniExpr(fn, c->b), uniExpr(fn, c->k));
  } else if (c->op == E_ZEXT && c->a->op == E_ITE) {
    r = mkIte(c->a->a, uniExpr(fn, mkZext(c->a->b, 32)), uniExpr(fn, mkZext(c->a->k, 32)));
  } else {
    u64 lo = c->lo, hi = c->hi;
    u64 top = std::min<u64>(hi, 0x110000);
    std::vector<URun> runs;
    for (u64 x = lo; x <= top; x++) {
      u32 v = icuFn(fn, (u32)x);
      if (!runs.empty()) {
        URun &p = runs.back();
        if (p.delta ? v - (u32)x == p.v : v == p.v) continue;
        // a run of length one may still become a delta run
        if (!p.delta && p.lo + 1 == x && v - (u32)x == p.v - p.lo) { p.delta = true; p.v = p.v - p.lo; continue; }
      }
      runs.push_back({(u32)x, false, v});
    }
    r = uniTree(c, runs, 0, runs.size());
  }
  g_unicache[key] = r;
  return r;
}
