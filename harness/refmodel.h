// Reference definitions of the models.
#pragma once
#include <unordered_map>
#include "refuni.h"
typedef std::unordered_map<std::string, int> Vocab;
struct Tok { int id; std::string v; int a, b; };
typedef std::vector<Tok> Toks;
typedef std::vector<std::pair<std::string, int>> Entries;
static const std::pair<std::string, int> *look(const Entries &e, const std::string &k) {
  for (auto &p : e) if (p.first.size() == k.size() && sameStr(p.first, k)) return &p;
  return nullptr;
}
static Toks refWordPiece(const Text &t, const Entries &e, const std::string &unk, int unkId, int maxChars, const std::string &pre, bool ascii = false) {
  int n = (int)t.size();
  Toks r;
  bool bad = n > maxChars;
  for (int s = 0; s < n && !bad;) {
    int k = n;
    const std::pair<std::string, int> *hit = nullptr;
    for (; k > s; k--) {
      if (ascii) {  // (one byte each: only entries of this length can match)
        bool any = false;
        for (auto &p : e) any = any || p.first.size() == (s ? pre.size() : 0) + (size_t)(k - s);
        if (!any) continue;
      }
      hit = look(e, (s ? pre : std::string()) + sub(t, s, k));
      if (hit) break;
    }
    if (!hit) bad = true;
    else { r.push_back({hit->second, hit->first, s, k}); s = k; }
  }
  if (bad) r = {{unkId, unk, 0, n}};
  return r;
}
struct Rule { std::string a, b; };
// the algorithm as defined: repeatedly the pair of lowest rank, leftmost first
static Toks refBpe(const std::vector<std::string> &chars, const std::vector<int> &lens, const std::vector<Rule> &rules, const Vocab &v, int prefixLen) {
  std::vector<std::string> names;  // strings by number
  auto num = [&](const std::string &x) {
    for (size_t i = 0; i < names.size(); i++) if (names[i] == x) return (int)i;
    names.push_back(x);
    return (int)names.size() - 1;
  };
  struct N { int a, b, ab; };
  std::vector<N> rs;
  for (auto &q : rules) { int a = num(q.a), b = num(q.b); rs.push_back({a, b, num(q.a + q.b.substr(prefixLen))}); }
  std::vector<int> s, l = lens;
  for (auto &c : chars) s.push_back(num(c));
  for (;;) {
    size_t best = rs.size(), at = 0;
    for (size_t i = 0; i + 1 < s.size(); i++)
      for (size_t k = 0; k < best; k++)
        if (rs[k].a == s[i] && rs[k].b == s[i + 1]) { best = k; at = i; }
    if (best == rs.size()) break;
    s[at] = rs[best].ab;
    l[at] += l[at + 1];
    s.erase(s.begin() + at + 1);
    l.erase(l.begin() + at + 1);
  }
  Toks r;
  int p = 0;
  for (size_t i = 0; i < s.size(); i++) { r.push_back({v.at(names[s[i]]), names[s[i]], p, p + l[i]}); p += l[i]; }
  return r;
}
