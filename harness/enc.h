#pragma once
#include "tokenizers/common.h"

#include "sym.h"
// an encoding with n entries, every field different at every position; ids and type ids symbolic
inline Encoding someEncoding(int n, int base) {
  Encoding e;
  for (int i = 0; i < n; i++) {
    int k = base + i;
    e.ids.push_back(symInt("id", -0x80000000, 0x7fffffff));
    e.type_ids.push_back(1000 + k);
    e.tokens.push_back("t" + std::to_string(k));
    if (k % 3 == 2) e.words.push_back(std::nullopt);
    else e.words.push_back(2000 + k);
    e.offsets.push_back({10 * k, 10 * k + 7});
    e.special_tokens_mask.push_back(k % 2);
    e.attention_mask.push_back((k / 2) % 2);
  }
  return e;
}
inline bool lengthsAgree(const Encoding &e) {
  size_t n = e.ids.size();
  return e.type_ids.size() == n && e.tokens.size() == n && e.words.size() == n && e.offsets.size() == n && e.special_tokens_mask.size() == n && e.attention_mask.size() == n;
}
// a[from..from+len) equals b[bfrom..)
inline bool sameSlice(const Encoding &a, int from, const Encoding &b, int bfrom, int len, bool types = true) {
  if ((int)a.ids.size() < from + len || (int)b.ids.size() < bfrom + len) return false;
  for (int i = 0; i < len; i++) {
    int x = from + i, y = bfrom + i;
    if (!((a.ids[x] == b.ids[y]) & (a.offsets[x].first == b.offsets[y].first) & (a.offsets[x].second == b.offsets[y].second) & (a.special_tokens_mask[x] == b.special_tokens_mask[y]) & (a.attention_mask[x] == b.attention_mask[y]))) return false;
    if (types && a.type_ids[x] != b.type_ids[y]) return false;
    if (!(a.words[x] == b.words[y])) return false;
    if (a.tokens[x] != b.tokens[y]) return false;
  }
  return true;
}
// r is exactly e[a..b)
inline bool sameEnc(const Encoding &r, const Encoding &e, int a, int b) { return lengthsAgree(r) && (int)r.ids.size() == b - a && sameSlice(r, 0, e, a, b - a); }
inline void obsEnc(const Encoding &e) {
  obs(e.ids); obs(e.type_ids); obs(e.tokens); obs(e.offsets); obs(e.special_tokens_mask); obs(e.attention_mask);
  obs((uint64_t)e.words.size());
  for (auto &w : e.words) obs(w.has_value() ? (uint64_t)(uint32_t)*w : 0xffffffffffull);
  obs((uint64_t)e.overflowing.size());
  for (auto &o : e.overflowing) obsEnc(o);
}
// many entries, nothing symbolic
inline Encoding longEncoding(int n, int base) {
  Encoding e;
  for (int i = 0; i < n; i++) {
    int k = base + i;
    e.ids.push_back(65530 + 3 * k); e.type_ids.push_back(k); e.tokens.push_back("t" + std::to_string(k));
    if (k % 3 == 2) e.words.push_back(std::nullopt);
    else e.words.push_back(k);
    e.offsets.push_back({300 * k, 300 * k + 290}); e.special_tokens_mask.push_back(k % 2); e.attention_mask.push_back((k / 2) % 2);
  }
  return e;
}
