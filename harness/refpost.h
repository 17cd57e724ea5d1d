// What truncation, post-processing and padding should make of an encoding
#pragma once
#include "enc.h"
// windows of the truncation algorithm as the property states them
static std::vector<std::pair<int, int>> windows(int n, int m, int s, bool left) {
  std::vector<std::pair<int, int>> w;
  for (int k = 0;; k++) {
    int a = k * (m - s), b = a + m < n ? a + m : n;
    if (left) w.push_back({n - b, n - a});
    else w.push_back({a, b});
    if (b == n) return w;
  }
}
static Encoding slice(const Encoding &e, int a, int b) {
  Encoding r;
  for (int i = a; i < b; i++) {
    r.ids.push_back(e.ids[i]); r.type_ids.push_back(e.type_ids[i]); r.tokens.push_back(e.tokens[i]); r.words.push_back(e.words[i]);
    r.offsets.push_back(e.offsets[i]); r.special_tokens_mask.push_back(e.special_tokens_mask[i]); r.attention_mask.push_back(e.attention_mask[i]);
  }
  return r;
}
static Encoding refTruncate(const Encoding &e, int m, int s, bool left) {
  int n = (int)e.ids.size();
  if (n <= m) return e;
  if (m == 0) { Encoding r; r.overflowing.push_back(e); return r; }
  auto w = windows(n, m, s, left);
  Encoding r = slice(e, w[0].first, w[0].second);
  for (size_t i = 1; i < w.size(); i++) r.overflowing.push_back(slice(e, w[i].first, w[i].second));
  return r;
}
static Encoding refPad(Encoding e, int target, bool left, int id, int type, const std::string &tok) {
  Encoding r;
  int n = (int)e.ids.size(), k = target > n ? target - n : 0;
  auto fill = [&] { for (int i = 0; i < k; i++) { r.ids.push_back(id); r.type_ids.push_back(type); r.tokens.push_back(tok); r.words.push_back(0); r.offsets.push_back({0, 0}); r.special_tokens_mask.push_back(1); r.attention_mask.push_back(0); } };
  if (left) fill();
  for (int i = 0; i < n; i++) {
    r.ids.push_back(e.ids[i]); r.type_ids.push_back(e.type_ids[i]); r.tokens.push_back(e.tokens[i]); r.words.push_back(e.words[i]);
    r.offsets.push_back(e.offsets[i]); r.special_tokens_mask.push_back(e.special_tokens_mask[i]); r.attention_mask.push_back(e.attention_mask[i]);
  }
  if (!left) fill();
  for (auto &o : e.overflowing) r.overflowing.push_back(refPad(o, target, left, id, type, tok));
  return r;
}
static Encoding concat(const std::vector<Encoding> &v) {
  Encoding r;
  for (auto &e : v) {
    for (int x : e.ids) r.ids.push_back(x);
    for (int x : e.type_ids) r.type_ids.push_back(x);
    for (auto &x : e.tokens) r.tokens.push_back(x);
    for (auto &x : e.words) r.words.push_back(x);
    for (auto &x : e.offsets) r.offsets.push_back(x);
    for (int x : e.special_tokens_mask) r.special_tokens_mask.push_back(x);
    for (int x : e.attention_mask) r.attention_mask.push_back(x);
  }
  return r;
}
struct Tpl { int kind; int type; };  // kind 0: sequence A, k>0: special token k-1
struct Spec { std::string id; std::vector<int> ids; std::vector<std::string> toks; };
static Encoding refTemplate(const std::vector<Tpl> &t, const std::vector<Spec> &sp, const Encoding &e, bool add) {
  std::vector<Encoding> parts;
  for (auto &p : t) {
    if (p.kind == 0) {
      Encoding c = e;
      c.overflowing.clear();
      for (int &x : c.type_ids) x = p.type;
      parts.push_back(c);
    } else if (add) {
      const Spec &s = sp[p.kind - 1];
      Encoding c;
      for (size_t i = 0; i < s.ids.size(); i++) {
        c.ids.push_back(s.ids[i]);
        c.tokens.push_back(s.toks[i]);
        c.type_ids.push_back(p.type);
        c.words.push_back(std::nullopt);
        c.offsets.push_back({0, 0});
        c.special_tokens_mask.push_back(1);
        c.attention_mask.push_back(1);
      }
      parts.push_back(c);
    }
  }
  Encoding r = concat(parts);
  for (auto &o : e.overflowing) r.overflowing.push_back(refTemplate(t, sp, o, add));
  return r;
}
static const std::string SP = "\xc4\xa0";
static Encoding refTrim(Encoding e, bool prefix) {
  for (size_t i = 0; i < e.ids.size(); i++) {
    std::vector<int> sp;
    for (size_t k = 0; k < e.tokens[i].size();) {
      if (e.tokens[i].compare(k, 2, SP) == 0) { sp.push_back(1); k += 2; }
      else { sp.push_back(0); k += (unsigned char)e.tokens[i][k] < 0x80 ? 1 : 2; }
    }
    int lead = 0, trail = 0, n = (int)sp.size();
    while (lead < n && sp[lead]) lead++;
    while (trail < n && sp[n - 1 - trail]) trail++;
    int a = e.offsets[i].first, b = e.offsets[i].second;
    if (prefix && lead == 1 && (i == 0 || a == 0)) lead = 0;
    int na = a + lead < b ? a + lead : b;
    int nb = b - trail > na ? b - trail : na;
    e.offsets[i] = {na, nb};
  }
  for (auto &o : e.overflowing) o = refTrim(o, prefix);
  return e;
}
