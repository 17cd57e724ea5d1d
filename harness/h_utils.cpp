// C02 truncation, C03 padding
#include "tokenizers/utils.h"

#include "refpost.h"
#ifndef TIER
#define TIER 0
#endif
static std::string dirName(int d) { return d ? "Left" : "Right"; }

static void truncateCase(int maxN, bool viaJson) {
  int n = choose("n", 0, maxN);
  int left = choose("left", 0, 1);
  int strat = choose("strategy", 0, 1);
  Encoding e = someEncoding(n, 0);
  int m, s;
  std::unique_ptr<Truncation> t;
  std::string sn = strat ? "OnlyFirst" : "LongestFirst";
  m = symInt("max_length", 0, viaJson ? maxN + 1 : 0x7fffffff);
  s = symInt("stride", 0, viaJson ? maxN + 1 : 0x7fffffff);
  ASSUME((s < m) | (m == 0));
  if (viaJson) {
    m = (int)__sym_concretize(m);
    s = (int)__sym_concretize(s);
    simdjson::ondemand::parser p;
    std::string js = "{\"direction\":\"" + dirName(left) + "\",\"max_length\":" + std::to_string(m) + ",\"strategy\":\"" + sn + "\",\"stride\":" + std::to_string(s) + "}";
    simdjson::padded_string ps(js);
    simdjson::ondemand::document d = p.iterate(ps);
    simdjson::ondemand::object o = d.get_object();
    t = with_truncation(o);
  } else {
    if ((m < n) & (m > 0)) {  // (else max_length and stride stay symbolic over their whole range)
      m = (int)__sym_concretize(m);
      s = (int)__sym_concretize(s);
    }
    t = std::make_unique<Truncation>(dirName(left), sn, m, s);
  }
  Encoding r;
  noThrow("truncation threw", [&] { r = t->truncate_encoding(e); });
  obsEnc(r);
  if (m == 0) {
    REACH("zero");
    CHECK(r.ids.empty() && lengthsAgree(r), "max_length 0 must leave no tokens in the main encoding");
    if (n > 0) CHECK(r.overflowing.size() == 1 && sameEnc(r.overflowing[0], e, 0, n), "max_length 0 must leave every token in the overflowing part");
    return;
  }
  if (m >= n) {
    REACH("fits");
    CHECK(sameEnc(r, e, 0, n) && r.overflowing.empty(), "an encoding that fits must be returned unchanged");
    return;
  }
  REACH("truncated");
  m = (int)__sym_concretize(m);
  s = (int)__sym_concretize(s);
  auto w = windows(n, m, s, left);
  CHECK(r.overflowing.size() + 1 == w.size(), "wrong number of overflowing parts");
  CHECK(sameEnc(r, e, w[0].first, w[0].second), "main part is not the first window");
  for (size_t i = 1; i < w.size(); i++) {
    CHECK(sameEnc(r.overflowing[i - 1], e, w[i].first, w[i].second), "overflowing part is not the expected window");
    CHECK(r.overflowing[i - 1].overflowing.empty(), "nested overflowing parts");
  }
}
ENTRY(c02_truncate) { truncateCase(TIER ? 14 : 9, false); }
ENTRY(c02_truncate_json) { truncateCase(TIER ? 5 : 3, true); }

ENTRY(c02_long) {  // many tokens, many parts
  static const int N[] = {17, 130, 300}, M[] = {1, 7, 16, 127, 128, 129, 255, 256, 257, 299, 300};
  int n = N[choose("n", 0, 2)], m = M[choose("max_length", 0, 10)], left = choose("left", 0, 1);
  if (m > n) return;
  static const int S[] = {0, 1, 5, 120};
  int s = S[choose("stride", 0, 3)];
  if (s >= m || (s > 5 && m < 127)) return;
  Encoding e = longEncoding(n, 0), r;
  e.ids[n / 2] = symInt("id", -0x80000000, 0x7fffffff);
  noThrow("truncation threw", [&] { r = Truncation(dirName(left), "LongestFirst", m, s).truncate_encoding(e); });
  Encoding w = refTruncate(e, m, s, left);
  obs((uint64_t)r.overflowing.size());
  CHECK(sameEnc(r, w, 0, (int)w.ids.size()), "main part is not the first window");
  CHECK(r.overflowing.size() == w.overflowing.size(), "wrong number of overflowing parts");
  if (r.overflowing.size() != w.overflowing.size()) return;
  for (size_t i = 0; i < w.overflowing.size(); i++) CHECK(sameEnc(r.overflowing[i], w.overflowing[i], 0, (int)w.overflowing[i].ids.size()) && r.overflowing[i].overflowing.empty(), "overflowing part is not the expected window");
  REACH(w.overflowing.empty() ? "fits" : "parts");
}
static void padCase(bool viaJson) {
  int n = choose("n", 0, viaJson ? 2 : TIER ? 6 : 4);
  int nov = viaJson ? 0 : choose("overflowing", 0, 2);
  int left = choose("left", 0, 1);
  int fixedS = choose("fixed", 0, 1);
  Encoding e = someEncoding(n, 0);
  for (int k = 0; k < nov; k++) e.overflowing.push_back(someEncoding(k == 0 ? choose("ov_n", 0, TIER ? 6 : 4) : 2, 50 * (k + 1)));
  int size = fixedS ? choose("fixed_size", 0, viaJson ? 4 : TIER ? 12 : 8) : -1;
  int mult = choose("multiple", 0, viaJson ? 3 : TIER ? 9 : 5);
  int padId = symInt("pad_id", viaJson ? 7 : -0x80000000, viaJson ? 8 : 0x7fffffff), padType = symInt("pad_type_id", viaJson ? 1 : 0, viaJson ? 2 : 0x7fffffff);
  std::unique_ptr<Padding> p;
  static const char *TOK[] = {"[PAD]", "", "\xC3\xA9"};
  const char *tok = TOK[(n + mult) % 3];
  if (viaJson) {
    padId = (int)__sym_concretize(padId);
    padType = (int)__sym_concretize(padType);
    simdjson::ondemand::parser ps;
    std::string js = std::string("{\"strategy\":") + (fixedS ? "{\"Fixed\":" + std::to_string(size) + "}" : std::string("\"BatchLongest\"")) + ",\"direction\":\"" + dirName(left) +
                     "\",\"pad_to_multiple_of\":" + (mult == 0 ? std::string("null") : std::to_string(mult)) + ",\"pad_id\":" + std::to_string(padId) + ",\"pad_type_id\":" + std::to_string(padType) + ",\"pad_token\":\"" + tok + "\"}";
    simdjson::padded_string str(js);
    simdjson::ondemand::document d = ps.iterate(str);
    simdjson::ondemand::object o = d.get_object();
    p = with_padding(o);
  } else {
    p = std::make_unique<Padding>(dirName(left), fixedS ? "Fixed" : "BatchLongest", size, padId, padType, tok, mult);
  }
  Encoding r;
  noThrow("padding threw", [&] { r = p->pad_encoding(e); });
  obsEnc(r);
  int target = fixedS ? size : n;
  if (mult > 0) target = (target + mult - 1) / mult * mult;
  REACH(target > n ? "padded" : "unpadded");
  CHECK(r.overflowing.size() == e.overflowing.size(), "number of overflowing encodings changed");
  for (int k = -1; k < (int)e.overflowing.size(); k++) {
    const Encoding &a = k < 0 ? e : e.overflowing[k];
    const Encoding &b = k < 0 ? r : r.overflowing[k];
    int len = (int)a.ids.size();
    int want = target > len ? target : len, extra = want - len;
    CHECK(lengthsAgree(b) && (int)b.ids.size() == want, "padded length is wrong");
    int from = left ? extra : 0;
    CHECK(sameSlice(b, from, a, 0, len), "original entries changed");
    for (int i = 0; i < want; i++) {
      if (i >= from && i < from + len) continue;
      CHECK((b.ids[i] == padId) & (b.type_ids[i] == padType) & (b.offsets[i].first == 0) & (b.offsets[i].second == 0) & (b.attention_mask[i] == 0) & (b.special_tokens_mask[i] == 1), "pad entry has wrong fields");
      CHECK(b.tokens[i] == tok, "pad entry has the wrong token");
    }
  }
}
ENTRY(c03_pad) { padCase(false); }
ENTRY(c03_pad_json) { padCase(true); }
ENTRY(c03_long) {  // many tokens
  static const int N[] = {0, 100, 127, 128, 130, 255, 256, 257}, F[] = {-1, 127, 128, 129, 255, 256, 300, 520}, M[] = {0, 7, 64, 128, 200};
  int n = N[choose("n", 0, 7)], f = F[choose("size", 0, 7)], m = M[choose("multiple", 0, 4)], left = choose("left", 0, 1);
  Encoding e = longEncoding(n, 0), r;
  e.overflowing.push_back(longEncoding(135, 7));
  int id = symInt("pad_id", -0x80000000, 0x7fffffff), type = symInt("pad_type_id", 0, 0x7fffffff), target = f < 0 ? n : f;
  if (m) target = (target + m - 1) / m * m;
  noThrow("padding threw", [&] { r = Padding(dirName(left), f < 0 ? "BatchLongest" : "Fixed", f, id, type, "[PAD]", m).pad_encoding(e); });
  Encoding w = refPad(e, target, left, id, type, "[PAD]");
  obs((uint64_t)r.ids.size());
  CHECK(sameEnc(r, w, 0, (int)w.ids.size()) && r.overflowing.size() == 1 && sameEnc(r.overflowing[0], w.overflowing[0], 0, (int)w.overflowing[0].ids.size()), "an encoding is not padded as configured");
  REACH(target > n ? "padded" : "unpadded");
}
