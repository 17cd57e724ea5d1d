// Reference definitions of the pre-tokenizers.
#pragma once
#include <functional>
#include "refuni.h"
struct RPiece { int a, b; bool done; };
typedef std::vector<RPiece> RPieces;
typedef std::function<int(const Text &, int, int)> Match;  // length of a match at i within [.,end), or 0
enum { REM, ISO, PREV, NEXT, CONT };
// the definition of splitting: matches cut pieces that carry no tokens
static RPieces refSplit(const Text &t, const RPieces &in, Match m, int beh, bool invert) {
  RPieces out;
  for (auto &p : in) {
    if (p.done) { out.push_back(p); continue; }
    struct Seg { int a, b; bool m; };
    std::vector<Seg> segs;
    int open = p.a;
    for (int i = p.a; i < p.b;) {
      int l = m(t, i, p.b);
      if (l) {
        if (open < i) segs.push_back({open, i, false});
        segs.push_back({i, i + l, true});
        i += l;
        open = i;
      } else i++;
    }
    if (open < p.b) segs.push_back({open, p.b, false});
    if (invert) for (auto &s : segs) s.m = !s.m;
    RPieces q;
    for (size_t k = 0; k < segs.size(); k++) {
      if (beh == REM && segs[k].m) continue;
      bool join = k > 0 && ((beh == CONT && segs[k].m == segs[k - 1].m) || (beh == PREV && segs[k].m && !segs[k - 1].m) || (beh == NEXT && !segs[k].m && segs[k - 1].m));
      if (join) q.back().b = segs[k].b;
      else q.push_back({segs[k].a, segs[k].b, false});
    }
    out.insert(out.end(), q.begin(), q.end());
  }
  return out;
}
static int one(bool b) { return b ? 1 : 0; }
static int runOf(const Text &t, int i, int e, bool (*f)(uint32_t)) { int n = 0; while (i + n < e && f(t[i + n])) n++; return n; }
static bool otherCh(uint32_t c) { return !ws(c) && !letter(c) && !number(c); }
static int gpt2(const Text &t, int i, int e) {
  auto at = [&](int k) { return i + k < e ? t[i + k] : 0; };
  if (at(0) == '\'') {
    uint32_t x = at(1), y = at(2);
    if ((x == 's') | (x == 't')) return 2;
    if (((x == 'r') | (x == 'v')) & (y == 'e')) return 3;
    if (x == 'm') return 2;
    if ((x == 'l') & (y == 'l')) return 3;
    if (x == 'd') return 2;
  }
  bool (*cls[])(uint32_t) = {letter, number, otherCh};
  for (auto f : cls) {
    int s = at(0) == ' ' ? 1 : 0;
    int n = runOf(t, i + s, e, f);
    if (n) return s + n;
  }
  int l = runOf(t, i, e, ws);
  if (l > 1 && i + l < e) return l - 1;
  return l;
}
static RPieces refBertPre(const Text &t, const RPieces &in) {
  RPieces p = refSplit(t, in, [](const Text &t, int i, int) { return one(ws(t[i])); }, REM, false);
  return refSplit(t, p, [](const Text &t, int i, int) { return one(punct(t[i])); }, ISO, false);
}
