// Reference definition of added-token extraction.
#pragma once
#include <functional>
#include "refnorm.h"
struct ATok { Text content; bool single, lstrip, rstrip, norm, special; int id; };
typedef std::vector<ATok> ATokens;
struct Cut { int a, b, id; };  // id -1: ordinary text
typedef std::function<RT(const RT &)> NormFn;
static Text textOf(const RT &r) { Text t; for (auto &x : r) t.push_back(x.c); return t; }
// leftmost first, longest first; what a token takes is not looked at again
static std::vector<Cut> refCuts(const Text &t, const ATokens &ts) {
  std::vector<Cut> out;
  int n = (int)t.size(), open = 0;
  for (int p = 0; p < n;) {
    const ATok *hit = nullptr;
    for (auto &k : ts) {
      int l = (int)k.content.size();
      if (!l || p + l > n || (hit && l <= (int)hit->content.size())) continue;
      bool m = true;
      for (int i = 0; m && i < l; i++) m = t[p + i] == k.content[i];
      if (m) hit = &k;
    }
    if (!hit) { p++; continue; }
    int a = p, b = p + (int)hit->content.size();
    p = b;
    if (hit->single && ((a > 0 && wordCh(t[a - 1])) || (b < n && wordCh(t[b])))) continue;
    if (hit->lstrip) while (a > open && ws(t[a - 1])) a--;
    if (hit->rstrip) while (b < n && ws(t[b])) b++;
    if (open < a) out.push_back({open, a, -1});
    out.push_back({a, b, hit->id});
    open = p = b;
  }
  if (open < n) out.push_back({open, n, -1});
  return out;
}
struct XPiece { int a, b, id; };  // in characters of the normalized text
struct Extract { RT text; std::vector<XPiece> pieces; };
static Extract refExtract(const Text &t, const ATokens &all, NormFn nf) {
  ATokens raw, norm;
  for (auto k : all) {
    if (!k.norm) { raw.push_back(k); continue; }
    k.content = textOf(nf(ident(k.content)));
    norm.push_back(k);
  }
  Extract o;
  RT id = ident(t);
  for (auto &c : refCuts(t, raw)) {
    RT part(id.begin() + c.a, id.begin() + c.b);
    int at = (int)o.text.size();
    if (c.id >= 0) {
      o.text.insert(o.text.end(), part.begin(), part.end());
      o.pieces.push_back({at, (int)o.text.size(), c.id});
      continue;
    }
    part = nf(part);
    o.text.insert(o.text.end(), part.begin(), part.end());
    for (auto &d : refCuts(textOf(part), norm)) o.pieces.push_back({at + d.a, at + d.b, d.id});
  }
  return o;
}
