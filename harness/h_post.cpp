// C04 template post-processing and processor sequences, C20 byte-level offset trimming
#include <memory>

#include "enc.h"
#include "refpost.h"
#include "tokenizers/post_processor.h"
#ifndef TIER
#define TIER 0
#endif
static void checkSame(const Encoding &r, const Encoding &w, const char *msg) {
  CHECK(sameEnc(r, w, 0, (int)w.ids.size()), msg);
  CHECK(r.overflowing.size() == w.overflowing.size(), "overflowing encodings were lost or added");
  for (size_t i = 0; i < w.overflowing.size(); i++) checkSame(r.overflowing[i], w.overflowing[i], "an overflowing encoding is processed differently");
}
static std::vector<Spec> specials(bool small) {
  std::vector<Spec> v(2);
  v[0] = {"[CLS]", {small ? 101 : symInt("cls", -0x80000000, 0x7fffffff)}, {"[CLS]"}};
  v[1].id = "[SEP]";
  int n = choose("sep_n", 0, 2);
  for (int i = 0; i < n; i++) {
    v[1].ids.push_back(small ? 102 + i : symInt("sep", -0x80000000, 0x7fffffff));
    v[1].toks.push_back(i ? "[SEP2]" : "[SEP]");
  }
  return v;
}
static std::vector<SpecialToken> toSpec(const std::vector<Spec> &v) {
  std::vector<SpecialToken> r;
  for (auto &s : v) r.push_back(SpecialToken(s.id, s.ids, s.toks));
  return r;
}
static std::vector<Tpl> someTemplate(int maxp, bool small) {
  int np = choose("pieces", 1, maxp), at = choose("sequence_at", 0, np - 1);
  std::vector<Tpl> t;
  for (int i = 0; i < np; i++) t.push_back({i == at ? 0 : choose("piece", 1, 2), small ? choose("type", 0, 1) : symInt("type", 0, 0x7fffffff)});
  return t;
}
static std::vector<std::pair<std::string, Piece>> toPieces(const std::vector<Tpl> &t, const std::vector<Spec> &sp) {
  std::vector<std::pair<std::string, Piece>> r;
  for (auto &p : t) {
    if (p.kind == 0) r.push_back({"Sequence", Piece("A", p.type)});
    else r.push_back({"SpecialToken", Piece(sp[p.kind - 1].id, p.type)});
  }
  return r;
}
static Encoding someWithOverflow(int maxn, int maxov) {
  int n = choose("n", 0, maxn), nov = choose("overflowing", 0, maxov);
  Encoding e = someEncoding(n, 0);
  for (int k = 0; k < nov; k++) e.overflowing.push_back(someEncoding(k + 1, 50 * (k + 1)));
  return e;
}
ENTRY(c04_template) {
  auto sp = specials(false);
  auto t = someTemplate(TIER ? 4 : 3, false);
  Encoding e = someWithOverflow(TIER ? 4 : 3, 2);
  bool add = choose("add_special_tokens", 0, 1);
  TemplateProcessing p(toPieces(t, sp), {{"Sequence", Piece("A", 0)}, {"Sequence", Piece("B", 1)}}, toSpec(sp));
  Encoding r;
  noThrow("post-processing threw", [&] { r = p.process(e, add); });
  obsEnc(r);
  REACH(add ? "with special tokens" : "without special tokens");
  checkSame(r, refTemplate(t, sp, e, add), "processed encoding is not the template applied to the sequence");
}
static std::string q(const std::string &s) { return "\"" + s + "\""; }
static std::string pieceJson(const Tpl &p, const std::vector<Spec> &sp) {
  return std::string("{") + (p.kind ? q("SpecialToken") : q("Sequence")) + ":{\"id\":" + q(p.kind ? sp[p.kind - 1].id : "A") + ",\"type_id\":" + std::to_string(p.type) + "}}";
}
ENTRY(c04_template_json) {
  auto sp = specials(true);
  auto t = someTemplate(TIER ? 3 : 2, true);
  Encoding e = someWithOverflow(2, 1);
  bool add = choose("add_special_tokens", 0, 1);
  int inSeq = choose("in_sequence", 0, 2);
  std::string single, specs;
  for (auto &p : t) single += (single.empty() ? "" : ",") + pieceJson(p, sp);
  for (auto &s : sp) {
    std::string ids, toks;
    for (int x : s.ids) ids += (ids.empty() ? "" : ",") + std::to_string(x);
    for (auto &x : s.toks) toks += (toks.empty() ? "" : ",") + q(x);
    specs += (specs.empty() ? "" : ",") + q(s.id) + ":{\"id\":" + q(s.id) + ",\"ids\":[" + ids + "],\"tokens\":[" + toks + "]}";
  }
  std::string js = "{\"type\":\"TemplateProcessing\",\"single\":[" + single + "],\"pair\":[" + single + "],\"special_tokens\":{" + specs + "}}";
  if (inSeq == 1) js = "{\"type\":\"Sequence\",\"processors\":[{\"type\":\"ByteLevel\",\"add_prefix_space\":true,\"trim_offsets\":false,\"use_regex\":true}," + js + "]}";
  if (inSeq == 2) js = "{\"type\":\"Sequence\",\"processors\":[" + js + ",{\"type\":\"SomethingNew\"},{\"type\":\"ByteLevel\",\"add_prefix_space\":true,\"trim_offsets\":false,\"use_regex\":true}]}";
  Encoding r;
  bool got = false;
  noThrow("building or applying the post-processor threw", [&] {
    simdjson::ondemand::parser ps;
    simdjson::padded_string str(js);
    simdjson::ondemand::document d = ps.iterate(str);
    simdjson::ondemand::object o = d.get_object();
    auto p = with_post_processor(o);
    got = p != nullptr;
    if (got) r = p->process(e, add);
  });
  CHECK(got, "no post-processor was built");
  obsEnc(r);
  REACH(add ? "with special tokens" : "without special tokens");
  checkSame(r, refTemplate(t, sp, e, add), "processed encoding is not the template applied to the sequence");
}
ENTRY(c04_long) {  // many tokens, special tokens and overflowing encodings
  static const int N[] = {0, 17, 130, 260};
  int n = N[choose("n", 0, 3)], k = choose("special ids", 0, 2) * 20 + 1, nov = choose("overflowing", 0, 1) * 20;
  bool add = choose("add_special_tokens", 0, 1);
  Encoding e = longEncoding(n, 0), r;
  for (int i = 0; i < nov; i++) e.overflowing.push_back(longEncoding(1 + i * 3, 10 * i));
  std::vector<Spec> sp(2);
  sp[0] = {"[CLS]", {101}, {"[CLS]"}};
  sp[1].id = "[SEP]";
  for (int i = 0; i < k; i++) { sp[1].ids.push_back(70000 + i); sp[1].toks.push_back("[S" + std::to_string(i) + "]"); }
  sp[1].ids[k / 2] = symInt("sep", -0x80000000, 0x7fffffff);
  int type = symInt("type", 0, 0x7fffffff);
  std::vector<Tpl> t = {{2, 300}, {1, type}, {0, type}, {2, 1}, {1, 256}, {2, 2}};
  TemplateProcessing p(toPieces(t, sp), {{"Sequence", Piece("A", 0)}}, toSpec(sp));
  noThrow("post-processing threw", [&] { r = p.process(e, add); });
  obs((uint64_t)r.ids.size());
  checkSame(r, refTemplate(t, sp, e, add), "processed encoding is not the template applied to the sequence");
  REACH("long");
}
// ---------------------------------------------------------------- C20
static Encoding spacedEncoding(int n, int maxlen, int base) {
  Encoding e = someEncoding(n, base);
  for (int i = 0; i < n; i++) {
    std::string t;
    int len = choose("token_len", 0, maxlen);
    for (int k = 0; k < len; k++) {
      int c = choose("token_char", 0, 2);
      t += c == 0 ? SP : c == 1 ? "a" : "\xc4\xa1";
    }
    e.tokens[i] = t;
    int b = symInt("start", 0, 0x3fffffff), f = symInt("end", 0, 0x3fffffff);
    ASSUME(b <= f);
    e.offsets[i] = {b, f};
  }
  return e;
}
static void trimCase(const PostProcessor &p, Encoding e, bool prefix, bool trim, bool add) {
  // every token stands for at least as many characters as it has spaces, or for none at all
  for (Encoding *x : {&e, e.overflowing.empty() ? &e : &e.overflowing[0]})
    for (size_t i = 0; i < x->ids.size(); i++) {
      int chars = 0;
      for (unsigned char c : x->tokens[i]) chars += (c & 0xC0) != 0x80;
      ASSUME((x->offsets[i].second >= chars));
    }
  Encoding r;
  noThrow("trimming threw", [&] { r = p.process(e, add); });
  obsEnc(r);
  REACH(trim ? "trimmed" : "untrimmed");
  checkSame(r, trim ? refTrim(e, prefix) : e, trim ? "offsets or other fields differ from the trimmed encoding" : "encoding changed although trimming is off");
}
ENTRY(c20_trim) {
  int n = choose("n", 0, 2);
  Encoding e = spacedEncoding(n, n > 1 ? (TIER ? 3 : 2) : 4, 0);
  bool prefix = choose("add_prefix_space", 0, 1), trim = choose("trim_offsets", 0, 1);
  trimCase(ByteLevelProcessing(prefix, trim), e, prefix, trim, choose("add_special_tokens", 0, 1));
}
ENTRY(c20_trim_overflow) {
  Encoding e = spacedEncoding(choose("n", 0, 1), 2, 0);
  e.overflowing.push_back(spacedEncoding(choose("ov", 1, TIER ? 2 : 1), TIER ? 2 : 3, 10));
  bool prefix = choose("add_prefix_space", 0, 1), trim = choose("trim_offsets", 0, 1);
  trimCase(ByteLevelProcessing(prefix, trim), e, prefix, trim, true);
}
ENTRY(c20_trim_json) {
  Encoding e = spacedEncoding(1, 2, 0);
  int prefix = choose("add_prefix_space", 0, 2), trim = choose("trim_offsets", 0, 2);
  const char *bv[] = {"false", "true", "null"};
  std::string js = std::string("{\"type\":\"ByteLevel\",\"add_prefix_space\":") + bv[prefix] + ",\"trim_offsets\":" + bv[trim] + ",\"use_regex\":true}";
  std::unique_ptr<PostProcessor> p;
  noThrow("building the processor threw", [&] {
    simdjson::ondemand::parser ps;
    simdjson::padded_string str(js);
    simdjson::ondemand::document d = ps.iterate(str);
    simdjson::ondemand::object o = d.get_object();
    p = with_post_processor(o);
  });
  CHECK(p != nullptr, "no post-processor was built");
  trimCase(*p, e, prefix == 1, trim == 1, true);
}
ENTRY(c20_long) {  // many tokens, long tokens, offsets far into a text
  static const int L[] = {1, 7, 8, 15, 16, 17, 60, 127, 128, 130, 260};
  int l = L[choose("spaces", 0, 10)], side = choose("side", 0, 3), n = choose("n", 0, 1) ? 1 : 140;
  bool prefix = choose("add_prefix_space", 0, 1);
  Encoding e = longEncoding(n, 0), r;
  int at = n / 2, b = symInt("start", 0, 0x3fffffff);
  std::string s;
  for (int i = 0; i < l; i++) s += SP;
  e.tokens[at] = (side & 1 ? s : "") + "ab" + (side & 2 ? s : "");
  e.offsets[at] = {b, b + 2 + l * ((side & 1) + side / 2)};
  noThrow("trimming threw", [&] { r = ByteLevelProcessing(prefix, true).process(e, true); });
  obsEnc(r);
  checkSame(r, refTrim(e, prefix), "offsets or other fields differ from the trimmed encoding");
  REACH("long");
}
