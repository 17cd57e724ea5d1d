// Reference definitions of the normalizers: characters with the part of the original text they stand for.
#pragma once
#include <unicode/normalizer2.h>
#include <unicode/uchar.h>
#include <unicode/unistr.h>
#include "refuni.h"
#include "tokenizers/normalizer.h"
struct RC { uint32_t c; int a, b; };  // a character and the part of the original text it stands for
typedef std::vector<RC> RT;
static RT ident(const Text &t) { RT r; for (size_t i = 0; i < t.size(); i++) r.push_back({t[i], (int)i, (int)i + 1}); return r; }
static icu::UnicodeString form(const icu::UnicodeString &s, int f) {
  UErrorCode st = U_ZERO_ERROR;
  const icu::Normalizer2 *n = f == 0 ? icu::Normalizer2::getNFCInstance(st) : f == 1 ? icu::Normalizer2::getNFDInstance(st) : f == 2 ? icu::Normalizer2::getNFKCInstance(st) : icu::Normalizer2::getNFKDInstance(st);
  return n->normalize(s, st);
}
static Text points(const icu::UnicodeString &s) {
  Text t;
  for (int i = 0; i < s.length();) { UChar32 c = s.char32At(i); t.push_back(c); i += c > 0xFFFF ? 2 : 1; }
  return t;
}
static icu::UnicodeString uni(uint32_t c) { icu::UnicodeString s; s.append((UChar32)c); return s; }
// f: 0 NFC 1 NFD 2 NFKC 3 NFKD. Text and form have one common full decomposition; a character of the
// form stands for the originals of its share of it.
static RT refForm(const RT &in, int f) {
  icu::UnicodeString s;
  RT dec;
  for (auto &x : in) {
    s.append((UChar32)x.c);
    size_t n = points(form(uni(x.c), f < 2 ? 1 : 3)).size();
    for (size_t k = 0; k < n; k++) dec.push_back(x);
  }
  RT out;
  size_t p = 0;
  for (uint32_t c : points(form(s, f))) {
    size_t n = f % 2 ? 1 : points(form(uni(c), 1)).size();
    out.push_back({c, dec[p].a, dec[p + n - 1].b});
    p += n;
  }
  return out;
}
static RT refBert(RT t, bool clean, bool cjk, bool strip, bool lower) {
  RT o;
  if (clean) {
    for (auto x : t) {
      uint32_t c = x.c;
      int ty = u_charType((UChar32)c);
      bool keepctl = (c == 9) | (c == 10) | (c == 13);
      bool drop = (c == 0) | (c == 0xFFFD) | ((!keepctl) & ((ty == 15) | (ty == 16)));
      if (drop) continue;
      if (ws(c)) x.c = ' ';
      o.push_back(x);
    }
    t = o; o.clear();
  }
  if (cjk) {
    for (auto x : t) {
      uint32_t c = x.c;
      bool k = ((c >= 0x4E00) & (c <= 0x9FFF)) | ((c >= 0x3400) & (c <= 0x4DBF)) | ((c >= 0x20000) & (c <= 0x2A6DF)) | ((c >= 0x2A700) & (c <= 0x2B73F)) |
               ((c >= 0x2B740) & (c <= 0x2B81F)) | ((c >= 0x2B820) & (c <= 0x2CEAF)) | ((c >= 0xF900) & (c <= 0xFAFF)) | ((c >= 0x2F800) & (c <= 0x2FA1F));
      if (k) o.push_back({' ', x.a, x.b});
      o.push_back(x);
      if (k) o.push_back({' ', x.a, x.b});
    }
    t = o; o.clear();
  }
  if (strip || lower) {
    for (auto &x : refForm(t, 1)) if (u_charType((UChar32)x.c) != 6) o.push_back(x);
    t = o;
  }
  if (lower) for (auto &x : t) x.c = (uint32_t)u_tolower((UChar32)x.c);
  return t;
}
static RT refStrip(const RT &t, bool l, bool r) {
  size_t a = 0, b = t.size();
  if (l) while (a < b && ws(t[a].c)) a++;
  if (r) while (b > a && ws(t[b - 1].c)) b--;
  return RT(t.begin() + a, t.begin() + b);
}
static RT refAccents(const RT &t) { RT o; for (auto &x : t) if ((x.c < 0x300) | (x.c > 0x36F)) o.push_back(x); return o; }
static RT refPrepend(const RT &t, const Text &p) {
  if (t.empty()) return t;
  RT o;
  for (uint32_t c : p) o.push_back({c, t[0].a, t[0].b});
  o.insert(o.end(), t.begin(), t.end());
  return o;
}
static RT refReplaceText(const RT &t, const Text &pat, const Text &con) {
  if (pat.empty()) return t;
  RT o;
  for (size_t i = 0; i < t.size();) {
    bool m = i + pat.size() <= t.size();
    for (size_t k = 0; m && k < pat.size(); k++) m = t[i + k].c == pat[k];
    if (!m) { o.push_back(t[i++]); continue; }
    for (uint32_t c : con) o.push_back({c, t[i].a, t[i + pat.size() - 1].b});
    i += pat.size();
  }
  return o;
}
static bool sameText(const NormalizedString &n, const RT &r) {
  Text t;
  for (auto &x : r) t.push_back(x.c);
  return sameW(n.normalized, toW(t));
}
// entries per character and per byte, contiguous byte ranges, origins as in r
static bool sameAlign(const NormalizedString &n, const RT &r) {
  if (n.offset_ranges.size() != r.size()) return false;
  size_t at = 0;
  uint32_t d = 0;
  for (size_t i = 0; i < r.size(); i++) {
    int len = u8len(r[i].c);
    d |= (uint32_t)n.offset_ranges[i].first ^ (uint32_t)at;
    d |= (uint32_t)n.offset_ranges[i].second ^ (uint32_t)len;
    if (d) return false;
    if (at + len > n.offsets.size()) return false;
    for (int k = 0; k < len; k++) d |= ((uint32_t)n.offsets[at + k].first ^ (uint32_t)r[i].a) | ((uint32_t)n.offsets[at + k].second ^ (uint32_t)r[i].b);
    at += len;
  }
  return (d == 0) & (n.offsets.size() == at);
}
