// The whole tokenizer: C01 well-formed encodings, C21 offsets
#include "refpipe.h"
#include "refpost.h"
#ifndef TIER
#define TIER 0
#endif
static void same(const Encoding &e, const ETokens &w) {
  obsEnc(e);
  CHECK(lengthsAgree(e), "the parallel fields of an encoding differ in length");
  CHECK(e.ids.size() == w.size(), "wrong number of tokens");
  if (!lengthsAgree(e) || e.ids.size() != w.size()) return;
  bool off = true, tok = true, wd = true;
  for (size_t i = 0; i < w.size(); i++) {
    off &= (e.offsets[i].first == w[i].a) & (e.offsets[i].second == w[i].b);
    tok &= (e.ids[i] == w[i].id) & sameStr(e.tokens[i], w[i].v) & (e.special_tokens_mask[i] == 0) & (e.attention_mask[i] == 1) & (e.type_ids[i] == 0);
    wd &= e.words[i].has_value() && *e.words[i] == w[i].word;
  }
  CHECK(tok, "a token is not the one the pipeline defines");
  CHECK(off, "a token's offsets are not the original text it stands for");
  CHECK(wd, "a token has the wrong word index");
  REACH(w.empty() ? "no token" : "tokens");
}
static Config g_cfg;
static Pipe g_pipe;
static const Entries WP = {{"[UNK]", 0}, {"a", 1}, {"b", 2}, {"##b", 3}, {"##a", 4}, {"ab", 5}, {"e", 6}, {"##e", 7}, {"\xE4\xB8\x96", 8}, {".", 9}, {"\xC3\xA9", 10}, {"##\xC3\xA9", 11}, {"##\xCC\x81", 12}, {"\xC3\x89", 13}};
static void wordPieceModel() {
  g_cfg.model = "{\"type\":\"WordPiece\",\"unk_token\":\"[UNK]\",\"continuing_subword_prefix\":\"##\",\"max_input_chars_per_word\":100,\"vocab\":" + jvocab(WP) + "}";
  g_pipe.model = [](const Text &t) { return refWordPiece(t, WP, "[UNK]", 0, 100, "##"); };
}
static void bert(int clean, int cjk, int strip, int lower) {
  g_cfg.norm = "{\"type\":\"BertNormalizer\",\"clean_text\":" + jbool(clean) + ",\"handle_chinese_chars\":" + jbool(cjk) + ",\"strip_accents\":" + jbool(strip) + ",\"lowercase\":" + jbool(lower) + "}";
  g_pipe.nf = [=](const RT &r) { return refBert(r, clean, cjk, strip, lower); };
}
static void pre(int k) { g_cfg.pre = PREJSON[k]; g_pipe.pre = k; }
// byte-level BPE with the whole alphabet and some merges
static Entries g_bv;
static std::vector<Rule> g_rules;
static Vocab g_vmap;
static void bytesModel(const std::vector<Rule> &rules, bool all = true) {
  g_bv.clear();
  g_vmap.clear();
  for (int b = 0; b < 256; b++) if (all || b == ' ' || b == 'a' || b == 'b' || b == 0xC3 || b == 0xA9) g_bv.push_back({toU8({refByteChar(b)}), b});
  int id = 256;
  std::string m;
  for (auto &r : rules) { g_bv.push_back({r.a + r.b, id++}); m += (m.empty() ? "" : ",") + jstr(r.a + " " + r.b); }
  for (auto &p : g_bv) g_vmap.insert(p);
  g_rules = rules;
  g_cfg.model = "{\"type\":\"BPE\",\"dropout\":null,\"unk_token\":null,\"continuing_subword_prefix\":\"\",\"end_of_word_suffix\":\"\",\"fuse_unk\":false,\"byte_fallback\":false,\"ignore_merges\":false,\"vocab\":" + jvocab(g_bv) + ",\"merges\":[" + m + "]}";
  g_pipe.model = [](const Text &t) {
    std::vector<std::string> ch;
    for (size_t i = 0; i < t.size(); i++) { ch.push_back(sub(t, (int)i, (int)i + 1)); for (char &c : ch.back()) c = (char)__sym_concretize((unsigned char)c); }
    return refBpe(ch, std::vector<int>(ch.size(), 1), g_rules, g_vmap, 0);
  };
}
static std::string B(const std::string &s) { return refByteLevel(s); }
static std::unique_ptr<Tokenizer> g_tok;
static void build() {  // before the text is chosen
  noThrow("building a tokenizer threw", [&] { g_tok = std::make_unique<Tokenizer>("", g_cfg.json()); });
}
static void encode(const Text &t) {
  noThrow("encoding threw", [&] {
    Tokenizer &k = *g_tok;
    same(k.encode(toW(t), true), refEncode(t, g_pipe));
  });
}
// ---------------------------------------------------------------- C21
ENTRY(c21_wordpiece) {
  static const int O[] = {15, 0, 13, 6, 1, 9};
  int o = O[choose("options", 0, TIER ? 5 : 3)];
  bert(o & 1, o & 2, o & 4, o & 8);
  wordPieceModel();
  pre(BERTPRE);
  build();
  encode(symText("n", 0, TIER ? 5 : 4, {'a', 'b', 0xC9, 0x4E16, ' ', 1, '.', 0x301}));
}
ENTRY(c21_added) {
  bert(1, 1, 1, 1);
  wordPieceModel();
  pre(BERTPRE);
  int f = choose("flags", 0, 3);
  g_pipe.added = {{{'[', 'X', ']'}, false, bool(f & 1), bool(f & 2), false, true, 14}, {{0x1F620}, false, false, bool(f & 1), false, false, 15}, {{'B', 0xC9}, false, bool(f & 2), false, true, false, 16}};
  g_pipe.hasAdded = true;
  g_cfg.added = jadded({g_pipe.added[1], g_pipe.added[0], g_pipe.added[2]});
  std::swap(g_pipe.added[0].id, g_pipe.added[1].id);
  build();
  Text t = symText("n", 0, TIER ? 4 : 3, {0x1F620, 1, 0x4E16, ' ', 'a'});
  int tail = choose("tail", 0, 3);
  if (tail & 1) { t.push_back(0x4E16); for (uint32_t c : {'[', 'X', ']'}) t.push_back(c); }
  if (tail & 2) { t.push_back(' '); t.push_back('b'); t.push_back(0xC9); }
  t.push_back('a');
  encode(t);
}
ENTRY(c21_bytes) {
  pre(choose("pre", BYTES, BYTESPFX));
  bytesModel({{B("a"), B("b")}, {B(" "), B("a")}, {B(" a"), B("b")}, {"\xC3\x83", "\xC2\xA9"}, {B("b"), "\xC3\xB0"}});
  build();
  encode(symText("n", 0, TIER ? 4 : 3, {'a', 'b', ' ', 0xE9, 0x4E16, 0x1F600}));
}

ENTRY(c21_anychar) {  // any character inside and beside words
  static const int O[] = {15, 8, 4, 1, 0};
  int o = O[choose("options", 0, TIER ? 4 : 1)];
  bert(o & 1, o & 2, o & 4, o & 8);
  wordPieceModel();
  pre(BERTPRE);
  build();
  int k = choose("place", 0, 2);
  uint32_t c = symScalar("c");
  encode(k == 0 ? Text{'a', c, 'b'} : k == 1 ? Text{c, 'a'} : Text{'a', ' ', c});
}
// a character-level BPE with fallback to bytes or to a fused unknown token
static Entries g_cv;
static void charsModel(bool fallback, bool fuse) {
  Entries &e = g_cv;
  e = {{"<unk>", 0}, {"a", 1}, {"b", 2}, {"ab", 3}, {"\xE2\x96\x81", 4}, {"\xE2\x96\x81" "a", 5}, {"\xC3\xA9", 6}, {"-", 9}};
  for (int b : {0xC3, 0x89, 0xE4, 0xB8, 0x96}) {
    static const char *H = "0123456789ABCDEF";
    e.push_back({std::string("<0x") + H[b >> 4] + H[b & 15] + ">", 300 + b});
  }
  g_cfg.model = "{\"type\":\"BPE\",\"dropout\":null,\"unk_token\":\"<unk>\",\"continuing_subword_prefix\":null,\"end_of_word_suffix\":null,\"fuse_unk\":" + jbool(fuse) + ",\"byte_fallback\":" + jbool(fallback) + ",\"ignore_merges\":false,\"vocab\":" + jvocab(e) + ",\"merges\":[\"a b\",\"\xE2\x96\x81 a\"]}";
  g_pipe.model = [=](const Text &t) {
    const Entries &e = g_cv;
    Vocab v;
    for (auto &p : e) v.insert(p);
    Toks r;
    for (size_t i = 0; i < t.size(); i++) {
      std::string c = sub(t, (int)i, (int)i + 1);
      int n = (int)i;
      if (auto *p = look(e, c)) { r.push_back({p->second, p->first, n, n + 1}); continue; }
      std::vector<const std::pair<std::string, int> *> bs;
      for (unsigned char x : c) {
        std::string code = "<0x00>";
        x = (unsigned char)__sym_concretize(x);
        code[3] = "0123456789ABCDEF"[x >> 4];
        code[4] = "0123456789ABCDEF"[x & 15];
        if (auto *p = look(e, code)) bs.push_back(p);
      }
      if (fallback && bs.size() == c.size()) { for (auto *p : bs) r.push_back({p->second, p->first, n, n + 1}); continue; }
      if (fuse && !r.empty() && r.back().id == 0) r.back().b = n + 1;
      else r.push_back({0, "<unk>", n, n + 1});
    }
    for (auto &m : {Rule{"a", "b"}, Rule{"\xE2\x96\x81", "a"}})
      for (size_t i = 0; i + 1 < r.size(); i++)
        if (r[i].v == m.a && r[i + 1].v == m.b) { std::string j = m.a + m.b; r[i] = {look(e, j)->second, j, r[i].a, r[i + 1].b}; r.erase(r.begin() + i + 1); }
    return r;
  };
}
ENTRY(c21_forms) {  // other normalizers, character-level BPE
  struct F { const char *js; NormFn f; };
  static const std::vector<F> forms = {
      {"{\"type\":\"NFD\"}", [](const RT &r) { return refForm(r, 1); }},
      {"{\"type\":\"NFC\"}", [](const RT &r) { return refForm(r, 0); }},
      {"{\"type\":\"NFKC\"}", [](const RT &r) { return refForm(r, 2); }},
      {"{\"type\":\"Sequence\",\"normalizers\":[{\"type\":\"Prepend\",\"prepend\":\"\xE2\x96\x81\"},{\"type\":\"Replace\",\"pattern\":{\"String\":\" \"},\"content\":\"\xE2\x96\x81\"}]}", [](const RT &r) { return refReplaceText(refPrepend(r, {0x2581}), {' '}, {0x2581}); }},
      {"{\"type\":\"Sequence\",\"normalizers\":[{\"type\":\"Strip\",\"strip_left\":true,\"strip_right\":true},{\"type\":\"Replace\",\"pattern\":{\"String\":\"a\"},\"content\":\"-b-\"},{\"type\":\"NFD\"},{\"type\":\"StripAccents\"}]}", [](const RT &r) { return refAccents(refForm(refReplaceText(refStrip(r, true, true), {'a'}, {'-', 'b', '-'}), 1)); }}};
  auto &f = forms[choose("normalizer", 0, (int)forms.size() - 1)];
  g_cfg.norm = f.js;
  g_pipe.nf = f.f;
  pre(choose("split", 0, 1) ? WSPRE : NOPRE);
  charsModel(choose("byte_fallback", 0, 1), choose("fuse_unk", 0, 1));
  build();
  encode(symText("n", 0, TIER ? 4 : 3, {'a', 'b', ' ', 0xE9, 0x301, 0xFB01, 0x4E16}));
}
// ---------------------------------------------------------------- C01
static void wellFormed(const Encoding &e, const Entries &voc, const ATokens &added, int len, int depth) {
  CHECK(lengthsAgree(e), "the parallel fields of an encoding differ in length");
  if (!lengthsAgree(e)) return;
  bool mask = true, off = true, ids = true, order = true;
  int w = -1, pa = 0, pb = 0;
  for (size_t i = 0; i < e.ids.size(); i++) {
    int s = e.special_tokens_mask[i], m = e.attention_mask[i], a = e.offsets[i].first, b = e.offsets[i].second;
    mask &= ((s == 0) | (s == 1)) & ((m == 0) | (m == 1));
    off &= (0 <= a) & (a <= b) & (b <= len);
    if (s) continue;  // placed by post-processing or padding
    bool known = false;
    for (auto &p : voc) known |= e.ids[i] == p.second && p.first.size() == e.tokens[i].size() && sameStr(p.first, e.tokens[i]);
    for (auto &k : added) {  // an added token reports the text it matched
      std::string c = toU8(k.content), v = e.tokens[i];
      while (v.size() > c.size() && v.back() == ' ') v.pop_back();
      while (v.size() > c.size() && v[0] == ' ') v.erase(0, 1);
      known |= e.ids[i] == k.id && sameStr(v, c);
    }
    ids &= known;
    order &= e.words[i].has_value() && *e.words[i] >= w;
    if (a < b) {  // trimming a token of nothing but spaces leaves an empty pair
      order &= (pa <= a) & (pb <= b);
      pa = a; pb = b;
    }
    if (e.words[i].has_value()) w = *e.words[i];
  }
  CHECK(mask, "a mask holds something else than 0 and 1");
  CHECK(off, "an offset pair is not inside the text in order");
  CHECK(ids, "an id is not the vocabulary id of the reported token");
  CHECK(order, "word indices or offsets of text tokens go backwards");
  CHECK(depth == 0 || e.overflowing.empty(), "an overflowing encoding has overflowing encodings");
  for (auto &o : e.overflowing) wellFormed(o, voc, added, len, depth + 1);
}
static const char *TRUNC[] = {"null", "{\"direction\":\"Right\",\"max_length\":2,\"strategy\":\"LongestFirst\",\"stride\":1}", "{\"direction\":\"Left\",\"max_length\":1,\"strategy\":\"OnlyFirst\",\"stride\":0}", "{\"direction\":\"Right\",\"max_length\":0,\"strategy\":\"LongestFirst\",\"stride\":0}", "{\"direction\":\"Left\",\"max_length\":3,\"strategy\":\"LongestFirst\",\"stride\":2}"};
static const char *TEMPLATE = "{\"type\":\"TemplateProcessing\",\"single\":[{\"SpecialToken\":{\"id\":\"[CLS]\",\"type_id\":0}},{\"Sequence\":{\"id\":\"A\",\"type_id\":1}},{\"SpecialToken\":{\"id\":\"[SEP]\",\"type_id\":2}}],\"pair\":[],\"special_tokens\":{\"[CLS]\":{\"id\":\"[CLS]\",\"ids\":[101],\"tokens\":[\"[CLS]\"]},\"[SEP]\":{\"id\":\"[SEP]\",\"ids\":[102,103],\"tokens\":[\"[SEP]\",\"[EOS]\"]}}}";
static const char *BLPOST = "{\"type\":\"ByteLevel\",\"add_prefix_space\":true,\"trim_offsets\":true,\"use_regex\":true}";
static const char *PAD[] = {"null", "{\"strategy\":{\"Fixed\":3},\"direction\":\"Left\",\"pad_to_multiple_of\":null,\"pad_id\":0,\"pad_type_id\":0,\"pad_token\":\"[PAD]\"}", "{\"strategy\":\"BatchLongest\",\"direction\":\"Right\",\"pad_to_multiple_of\":4,\"pad_id\":7,\"pad_type_id\":1,\"pad_token\":\"[PAD]\"}"};
static void stages() {
  g_cfg.trunc = TRUNC[choose("truncation", 0, 4)];
  static const std::string POST[] = {"null", TEMPLATE, BLPOST, std::string("{\"type\":\"Sequence\",\"processors\":[") + BLPOST + "," + TEMPLATE + "]}"};
  g_cfg.post = POST[TIER ? choose("post", 0, 3) : choose("post", 0, 1) * 3];
  g_cfg.pad = PAD[choose("padding", 0, 2)];
}
static void formed(const Text &t, const Entries &voc) {
  noThrow("encoding threw", [&] {
    Tokenizer &k = *g_tok;
    Encoding e = k.encode(toW(t), g_cfg.post == "null" || choose("add_special_tokens", 0, 1));
    obsEnc(e);
    wellFormed(e, voc, g_pipe.added, (int)t.size(), 0);
    REACH(e.overflowing.empty() ? "one part" : "several parts");
  });
}
static void addedTokens(int id) {
  g_pipe.added = {{{'[', 'X', ']'}, false, false, false, false, true, id}, {{0x1F620}, false, true, true, false, false, id + 1}};
  g_cfg.added = jadded(g_pipe.added);
}
ENTRY(c01_wordpiece) {
  stages();
  bert(1, 1, 1, 1);
  wordPieceModel();
  pre(TIER && choose("pre", 0, 1) ? NOPRE : BERTPRE);
  addedTokens(14);
  build();
  formed(symText("n", 0, TIER ? 4 : 3, {'a', 0xC9, 0x4E16, ' ', 0x1F620}), WP);
}
ENTRY(c01_bytes) {
  stages();
  pre(BYTESPFX);
  bytesModel({{B("a"), B("a")}, {B(" "), B("a")}, {"\xC3\x83", "\xC2\xA9"}});
  if (choose("added", 0, 1)) addedTokens(259);
  build();
  formed(symText("n", 0, TIER ? 4 : 3, {'a', ' ', 0xE9, 0x1F620}), g_bv);
}
ENTRY(c01_unknown) {  // words the model has no token for
  g_cfg.trunc = TRUNC[choose("truncation", 0, TIER ? 4 : 1)];
  g_cfg.post = choose("post", 0, 1) ? TEMPLATE : "null";
  g_cfg.pad = PAD[choose("padding", 0, TIER ? 2 : 1)];
  int k = choose("model", 0, 6);
  Entries voc = WP;
  std::string unk = k == 0 ? "null" : k == 1 ? "\"<u>\"" : k == 2 ? "\"\"" : "\"b\"";
  if (k < 4) {
    g_cfg.model = "{\"type\":\"WordPiece\",\"unk_token\":" + unk + ",\"continuing_subword_prefix\":\"##\",\"max_input_chars_per_word\":3,\"vocab\":" + jvocab(WP) + "}";
    if (k < 3) voc.push_back({k == 1 ? "<u>" : "", 0});
    pre(BERTPRE);
  } else {
    charsModel(k == 5, k == 6);
    voc = g_cv;
    pre(choose("split", 0, 1) ? WSPRE : NOPRE);
  }
  addedTokens(14);
  build();
  formed(symText("n", 0, TIER ? 5 : 4, {'a', 'z', ' ', 0xE9}), voc);
}
// ---------------------------------------------------------------- C09
static bool sameAll(const Encoding &a, const Encoding &b) {
  if (!sameEnc(a, b, 0, (int)b.ids.size()) || a.overflowing.size() != b.overflowing.size()) return false;
  for (size_t i = 0; i < a.overflowing.size(); i++) if (!sameAll(a.overflowing[i], b.overflowing[i])) return false;
  return true;
}
// 0 WordPiece with added tokens, 1 byte-level BPE, 2 character BPE with fallback, 3 ignoring merges, 4 nothing but a model
static void historyConfig(int k) {
  if (k == 0) { bert(1, 1, 1, 1); wordPieceModel(); pre(BERTPRE); addedTokens(14); g_cfg.trunc = TRUNC[1]; g_cfg.post = TEMPLATE; g_cfg.dec = "{\"type\":\"WordPiece\",\"prefix\":\"##\",\"cleanup\":true}"; }
  if (k == 1) { pre(BYTESPFX); g_cfg.post = BLPOST; g_cfg.dec = "{\"type\":\"ByteLevel\"}"; g_cfg.pad = PAD[1]; bytesModel({{B("a"), B("b")}, {B(" "), B("a")}, {B("ab"), B("b")}}, false); }
  if (k == 2) { charsModel(true, true); pre(WSPRE); g_cfg.dec = "{\"type\":\"Sequence\",\"decoders\":[{\"type\":\"ByteFallback\"},{\"type\":\"Fuse\"}]}"; addedTokens(12); }
  if (k == 3) { g_cfg.model = "{\"type\":\"BPE\",\"dropout\":null,\"unk_token\":null,\"continuing_subword_prefix\":\"##\",\"end_of_word_suffix\":null,\"fuse_unk\":false,\"byte_fallback\":false,\"ignore_merges\":true,\"vocab\":{\"a\":1,\"##b\":2,\"b\":3,\"##a\":4,\"ab\":5,\"##ba\":6,\"bab\":7},\"merges\":[\"##b ##a\",\"a ##b\"]}"; pre(WSPRE); }
  if (k == 4) wordPieceModel();
}
static void history(int ops, int minlen, int len, const std::vector<uint32_t> &al) {
  historyConfig(choose("config", 0, 4));
  noThrow("an operation threw", [&] {
    std::string js = g_cfg.json();
    Tokenizer used("", js), fresh("", js), fresh2("", js);
    for (int i = 0; i < ops; i++) {
      if (choose("earlier", 0, 1) == 0) used.encode(toW(symText("n", minlen, len, al)), true);
      else used.decode({symInt("id", 0, 6), 15, 999}, choose("skip", 0, 1));
    }
    bool special = choose("add_special_tokens", 0, 1);
    std::wstring t = toW(symText("n", minlen, len, al));
    Encoding e = used.encode(t, special), w = fresh.encode(t, special);
    obsEnc(e);
    CHECK(sameAll(e, w), "an encoding depends on what was processed before");
    CHECK(sameAll(used.encode(t, special), w), "encoding the same text again gives another result");
    std::vector<int> ids;
    for (int i : {14, 12, 13, 0, 5}) ids.push_back(i);
    std::string d = used.decode(ids, special);
    obs(d);
    CHECK(sameStr(d, fresh2.decode(ids, special)), "decoding depends on what was processed before");
    CHECK(sameStr(d, used.decode(ids, special)), "decoding the same ids again gives another result");
    REACH("history");
  });
}
ENTRY(c09_one) { history(1, 0, TIER ? 4 : 3, {'a', 'b', ' '}); }
ENTRY(c09_two) { history(2, 1, 2, {'a', 'b'}); }
ENTRY(c09_wide) { history(1, 0, 2, {'a', 0xE9, 0x1F620}); }
ENTRY(c09_long) {  // long words that differ a little
  int cfg = choose("config", 0, 4);
  historyConfig(cfg);
  static const int LEN[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65};
  int n = LEN[choose("length", 0, cfg == 0 || cfg == 4 ? 7 : 12)], how = choose("change", 0, 5);
  Text a;
  for (int i = 0; i < n; i++) a.push_back(i % 3 == 1 || i % 7 == 2 ? 'b' : 'a');
  Text b = a;
  if (how == 0) b.pop_back();
  if (how == 1) b.erase(b.begin());
  if (how >= 2 && how <= 4) { uint32_t &c = b[how == 2 ? 0 : how == 3 ? n / 2 : n - 1]; c = c == 'a' ? 'b' : 'a'; }
  if (how == 5) b.erase(b.begin() + n / 2, b.end());
  if (choose("longer last", 0, 1)) std::swap(a, b);
  noThrow("an operation threw", [&] {
    std::string js = g_cfg.json();
    Tokenizer used("", js), fresh("", js);
    used.encode(toW(a), true);
    Encoding e = used.encode(toW(b), true);
    obsEnc(e);
    CHECK(sameAll(e, fresh.encode(toW(b), true)), "an encoding depends on what was processed before");
    REACH("long words");
  });
}
ENTRY(c09_many) {  // many words
  historyConfig(choose("config", 0, 4));
  noThrow("an operation threw", [&] {
    std::string js = g_cfg.json();
    Tokenizer used("", js), fresh("", js);
    int bits = 4, at = choose("word", 0, 7) * ((1 << bits) / 8);
    auto word = [&](int k) {
      std::wstring w;
      for (int i = 0; i < bits; i++) w += k >> i & 1 ? L'b' : L'a';
      return w;
    };
    std::wstring all;
    for (int k = 0; k < 1 << bits; k++) {
      if (k & 1) used.encode(word(k), true);
      else all += word(k) + L" ";
    }
    used.encode(all, true);
    for (int k = at; k < at + 2; k++) {
      Encoding e = used.encode(word(k), true);
      obsEnc(e);
      CHECK(sameAll(e, fresh.encode(word(k), true)), "an encoding depends on what was processed before");
    }
    REACH("many words");
  });
}
// a tokenizer that was moved, before or after it was used (if its class allows that)
template <class Tokenizer> static void moved() {
  if constexpr (std::is_move_constructible<Tokenizer>::value) {
  historyConfig(choose("config", 0, 4));
  int used = choose("used", 0, 1), how = choose("how", 0, 2);
  noThrow("an operation threw", [&] {
    std::string js = g_cfg.json();
    Tokenizer fresh("", js);
    auto a = std::make_unique<Tokenizer>("", js);
    std::wstring t = toW(symText("n", 1, 2, {'a', 'b', ' '}));
    if (used) a->encode(t, true);
    std::vector<Tokenizer> v;
    if (how == 1) v.emplace_back("", js);
    v.push_back(std::move(*a));
    if (how == 2) v.emplace_back("", js);
    a.reset();
    Tokenizer &b = v[how == 1];
    CHECK(sameAll(b.encode(t, true), fresh.encode(t, true)), "a tokenizer that was moved encodes differently");
    AddedToken x(0, "ab");
    CHECK(b.add_tokens({x}) == fresh.add_tokens({x}), "a tokenizer that was moved adds tokens differently");
    Encoding e = b.encode(t, true);
    obsEnc(e);
    CHECK(sameAll(e, fresh.encode(t, true)), "a tokenizer that was moved encodes differently");
    CHECK(sameStr(b.decode({14, 12, 1, 0, 5}, false), fresh.decode({14, 12, 1, 0, 5}, false)), "a tokenizer that was moved decodes differently");
    REACH("moved");
  });
  } else { REACH("moved"); }
}
ENTRY(c09_moved) { moved<Tokenizer>(); }
ENTRY(c09_three_deep) { history(3, 1, 2, {'a', 'b'}); }

static void instanceConfig(int k) {
  g_cfg = Config();
  g_pipe = Pipe();
  if (k < 4) charsModel(k & 1, k & 2);
  if (k == 4) bytesModel({{B("a"), B("b")}}, false);
  if (k == 5) bytesModel({{B("b"), B("a")}, {B("a"), B("b")}}, false);
  if (k == 6) wordPieceModel();
  if (k == 7) { wordPieceModel(); bert(1, 1, 1, 1); pre(BERTPRE); }
  if (k == 4 || k == 5) pre(BYTES);
}
ENTRY(c09_instances) {  // another tokenizer in the same process makes no difference
  int i = choose("other", 0, 7), j = TIER ? choose("this", 0, 7) : i ^ choose("this", 1, 3), later = choose("created later", 0, 1);
  Text a = symText("n", 1, 2, {'a', 'b', 0xE9}), b = symText("n", 1, 2, {'a', 'b', 0xE9});
  noThrow("encoding threw", [&] {
    instanceConfig(i);
    Tokenizer other("", g_cfg.json());
    if (later) other.encode(toW(a), true);
    instanceConfig(j);
    Tokenizer k("", g_cfg.json());
    if (!later) other.encode(toW(a), true);
    same(k.encode(toW(b), true), refEncode(b, g_pipe));
  });
}
// ---------------------------------------------------------------- C19
static const char *WPDEC = "{\"type\":\"WordPiece\",\"prefix\":\"##\",\"cleanup\":true}";
static void partsConfig(int k) {  // components present or absent
  if (k & 1) bert(1, 1, k & 2, 1);
  if (k & 2) pre(BERTPRE);
  if (k & 4) addedTokens(14);
  if (k >= 8) wordPieceModel();
}
static void unharmed(const Text &t, bool flags = true) {
  noThrow("encoding or decoding threw", [&] {
    Tokenizer &k = *g_tok;
    Encoding e = k.encode(toW(t), !flags || choose("add_special_tokens", 0, 1));
    obsEnc(e);
    CHECK(lengthsAgree(e), "the parallel fields of an encoding differ in length");
    obs(k.decode(e.ids, !flags || choose("skip_special_tokens", 0, 1)));
    for (auto &o : e.overflowing) k.decode(o.ids, true);
    REACH(e.ids.empty() ? "no token" : "tokens");
  });
}
static Text around(uint32_t c) {
  int k = choose("place", 0, TIER ? 3 : 2);
  if (k == 0) return {c};
  if (k == 1) return {'a', c, symPick("c", {0x301, 'b'})};
  if (k == 2) return {symPick("c", {' ', 0x1F620}), c};
  return {symPick("c", {'a', ' ', 0x4E16, 0x1F620}), c, symPick("c", {'a', '\n', 0x301, 0x1F620})};
}
ENTRY(c19_parts) {
  int k = choose("parts", 0, 15);
  partsConfig(k);
  if (k & 4) { g_cfg.post = TEMPLATE; g_cfg.dec = WPDEC; }
  build();
  unharmed(symText("n", 0, TIER ? 4 : 3, {'a', 0xC9, ' ', 0, 0x1F620}));
}
ENTRY(c19_anychar) {  // any character through pipelines that look at characters
  static const int K[] = {15, 11, 12, 5};
  int k = K[choose("parts", 0, TIER ? 3 : 2)];
  partsConfig(k);
  if (k & 1) { g_cfg.post = TEMPLATE; g_cfg.dec = WPDEC; g_cfg.trunc = TRUNC[1]; g_cfg.pad = PAD[2]; }
  build();
  unharmed(around(symScalar("c")), TIER);
}
ENTRY(c19_normalizers) {
  static const char *N[] = {"{\"type\":\"NFD\"}", "{\"type\":\"NFKD\"}", "{\"type\":\"Sequence\",\"normalizers\":[{\"type\":\"Strip\",\"strip_left\":true,\"strip_right\":true},{\"type\":\"StripAccents\"}]}",
                            "{\"type\":\"Sequence\",\"normalizers\":[{\"type\":\"Replace\",\"pattern\":{\"String\":\"a\"},\"content\":\"\"},{\"type\":\"Prepend\",\"prepend\":\"\xE2\x96\x81\"}]}"};
  g_cfg.norm = N[choose("normalizer", 0, 3)];
  charsModel(choose("byte_fallback", 0, 1), true);
  if (choose("added", 0, 1)) addedTokens(13);
  g_cfg.dec = "{\"type\":\"Sequence\",\"decoders\":[{\"type\":\"ByteFallback\"},{\"type\":\"Fuse\"},{\"type\":\"Strip\",\"content\":\" \",\"start\":1,\"stop\":0}]}";
  build();
  unharmed(choose("any character", 0, 1) ? Text{'a', symScalar("c", 0x100)} : symText("n", 0, 3, {'a', ' ', 0xC9, 0x301, 0x1F620}), false);
}
ENTRY(c19_lossy) {  // vocabularies that cannot represent the text
  int k = choose("vocabulary", 0, 3);
  static const char *V[] = {"{}", "{\"a\":0}", "{\"<unk>\":3,\"a\":9}", "{\"<0xC3>\":1,\"<0xA9>\":2,\"\":5}"};
  bool wp = choose("word piece", 0, 1);
  if (wp) g_cfg.model = std::string("{\"type\":\"WordPiece\",\"unk_token\":\"<unk>\",\"continuing_subword_prefix\":\"##\",\"max_input_chars_per_word\":2,\"vocab\":") + V[k] + "}";
  else g_cfg.model = std::string("{\"type\":\"BPE\",\"dropout\":null,\"unk_token\":\"<unk>\",\"continuing_subword_prefix\":null,\"end_of_word_suffix\":null,\"fuse_unk\":false,\"byte_fallback\":true,\"ignore_merges\":") + jbool(choose("ignore_merges", 0, 1)) + ",\"vocab\":" + V[k] + ",\"merges\":[\"a a\",\"x\",\"\"]}";
  pre(choose("pre", 0, 1) ? BYTESPFX : NOPRE);
  g_cfg.dec = choose("decoder", 0, 1) ? WPDEC : "{\"type\":\"ByteLevel\"}";
  if (!wp) ASSUME(g_cfg.dec != WPDEC);
  build();
  unharmed(symText("n", 0, 3, {'a', ' ', 0xE9, 0x1F620}));
}
// ---------------------------------------------------------------- C22
static void roundTrip(const Text &t, const std::string &want, bool skip) {
  noThrow("encoding or decoding threw", [&] {
    Tokenizer &k = *g_tok;
    Encoding e = k.encode(toW(t), true);
    std::string d = k.decode(e.ids, skip);
    obs(e.ids);
    obs(d);
    CHECK(sameStr(d, want), "decoding the ids of a text does not give it back");
    REACH("round trip");
  });
}
static void byteTrip(std::function<Text()> text, bool few = false) {
  int p = choose("pre", BYTES, BYTESPFX), k = few ? 2 : choose("merges", 0, 3), ends = few ? 0 : choose("special tokens", 0, 1);
  static const std::vector<Rule> R[] = {{}, {{B("a"), B("b")}, {B(" "), B("a")}, {B(" a"), B("b")}, {B("b"), B("a")}}, {{"\xC3\x83", "\xC2\xA9"}, {B(" "), "\xC3\x83\xC2\xA9"}, {"\xC3\xB0", "\xC5\x81"}}, {{B("a"), B(" ")}, {B(" "), B(" ")}, {B("a"), B("a")}, {B("aa"), B("aa")}}};
  pre(p);
  bytesModel(R[k]);
  g_cfg.dec = "{\"type\":\"ByteLevel\"}";
  if (ends) {
    int n = 256 + (int)R[k].size();
    g_cfg.added = jadded({{{'<', 's', '>'}, false, false, false, false, true, n}});
    g_cfg.post = "{\"type\":\"TemplateProcessing\",\"single\":[{\"SpecialToken\":{\"id\":\"<s>\",\"type_id\":0}},{\"Sequence\":{\"id\":\"A\",\"type_id\":0}}],\"pair\":[],\"special_tokens\":{\"<s>\":{\"id\":\"<s>\",\"ids\":[" + std::to_string(n) + "],\"tokens\":[\"<s>\"]}}}";
  }
  build();
  Text t = text();
  if (p == BYTESPFX && !t.empty()) ASSUME((t[0] < 128) | !ws(t[0]));  // which spaces besides ASCII ones count depends on the C locale
  roundTrip(t, (p == BYTESPFX && !t.empty() && !ws(t[0]) ? " " : "") + toU8(t), ends);
}
ENTRY(c22_bytes) { byteTrip([] { return symText("n", 0, TIER ? 5 : 4, {'a', 'b', ' ', 0xE9}); }); }
ENTRY(c22_bytes_wide) { byteTrip([] { return symText("n", 1, TIER ? 3 : 2, {'a', '\'', '\n', '1', 0xA0, 0x4E16, 0x1F600, 0xAD}); }); }
ENTRY(c22_bytes_any) {  // every one- and two-byte character
  byteTrip([] { return Text{'a', (uint32_t)choose("c", 0, TIER ? 0x7FF : 0x1FF)}; }, true);
}
ENTRY(c22_words) {
  int norm = choose("normalizer", 0, 1);
  if (norm) bert(1, 1, 1, 1);
  wordPieceModel();
  pre(BERTPRE);
  g_cfg.dec = std::string("{\"type\":\"WordPiece\",\"prefix\":\"##\",\"cleanup\":") + jbool(choose("cleanup", 0, 1)) + "}";
  if (choose("added", 0, 1)) { addedTokens(14); g_cfg.post = "{\"type\":\"TemplateProcessing\",\"single\":[{\"Sequence\":{\"id\":\"A\",\"type_id\":0}},{\"SpecialToken\":{\"id\":\"[X]\",\"type_id\":0}}],\"pair\":[],\"special_tokens\":{\"[X]\":{\"id\":\"[X]\",\"ids\":[14],\"tokens\":[\"[X]\"]}}}"; }
  build();
  Text t;
  std::string want;
  for (int i = 0, w = choose("words", 0, 3); i < w; i++) {
    if (i) { t.push_back(' '); want += ' '; }
    for (int j = 0, l = choose("letters", 1, TIER ? 3 : 2); j < l; j++) {
      uint32_t c = norm ? symPick("c", {'a', 'B', 'b'}) : symPick("c", {'a', 'b'});
      t.push_back(c);
      want.push_back((char)(c | 32));
    }
  }
  roundTrip(t, want, true);
}
// ---------------------------------------------------------------- C16
ENTRY(c16_tokenizer) {  // ids looked up among added tokens and the model
  int dec = choose("decoder", 0, 1), added = choose("added", 0, 2), skip = choose("skip_special_tokens", 0, 1);
  wordPieceModel();
  // one token of the vocabulary and two new ones; content 'ab' has the vocabulary's id
  ATokens ts = {{{'a', 'b'}, false, false, false, false, added == 2, 5}, {{'<', 's', '>'}, false, false, false, true, true, 14}, {{0xE9, 'x'}, false, false, false, true, false, 15}};
  if (added) g_cfg.added = jadded(ts);
  if (dec) g_cfg.dec = "{\"type\":\"WordPiece\",\"prefix\":\"##\",\"cleanup\":false}";
  build();
  std::vector<int> ids;
  for (int i = 0, n = choose("n", 0, TIER ? 3 : 2); i < n; i++) ids.push_back(symInt("id", -1, 17));
  noThrow("decoding threw", [&] {
    Tokenizer &k = *g_tok;
    std::string d = k.decode(ids, skip);
    obs(d);
    std::string want;
    bool first = true;
    for (int id : ids) {
      const std::string *s = nullptr;
      std::string own;
      bool special = false;
      if (added) for (auto &a : ts) if (a.id == id) { own = toU8(a.content); s = &own; special = a.special; }
      if (!s) for (auto &p : WP) if (p.second == id) s = &p.first;
      if (!s || (skip && special)) continue;
      std::string v = *s;
      if (dec && !first) { if (v.size() >= 2 && v[0] == '#' && v[1] == '#') v = v.substr(2); else v = " " + v; }
      first = false;
      want += v;
    }
    CHECK(sameStr(d, want), "decoding does not give the documented text");
    REACH("decoded");
  });
}
// ---------------------------------------------------------------- C25
// adding tokens to a tokenizer in use is the same as having them in its configuration
static AddedToken later(const ATok &k) { return AddedToken(0, toU8(k.content), k.single, k.lstrip, k.rstrip, k.norm, k.special); }
static void laterConfig(int k) {
  g_cfg = Config();
  g_pipe = Pipe();
  if (k == 5) { charsModel(false, true); bert(1, 1, 1, 1); pre(BERTPRE); }
  else historyConfig(k);
}
static void addLater(const ATokens &first, const ATokens &second, int steps, std::function<Text()> text) {
  ATokens conf = g_pipe.added;
  auto all = conf;
  for (auto *l : {&first, &second}) all.insert(all.end(), l->begin(), l->end());
  noThrow("an operation threw", [&] {
    Config c = g_cfg;
    c.added = jadded(all);
    Tokenizer whole("", c.json()), grown("", g_cfg.json());
    if (steps == 1 || choose("encoded before", 0, 1)) grown.encode(L"a ab b", true);
    std::vector<AddedToken> a, b;
    for (auto &k : first) a.push_back(later(k));
    for (auto &k : second) b.push_back(later(k));
    int call = steps == 1 ? (int)first.size() & 1 : choose("add_special_tokens", 0, 1);
    int n1 = call ? grown.add_special_tokens(a) : grown.add_tokens(a);
    if (steps > 1 && choose("encoded between", 0, 1)) grown.encode(L"ab ba", true);
    int n2 = b.empty() ? 0 : call ? grown.add_tokens(b) : grown.add_special_tokens(b);
    CHECK(n1 == (int)a.size() && n2 == (int)b.size(), "the return value is not the number of tokens");
    Text t = text();
    Encoding e = grown.encode(toW(t), true), w = whole.encode(toW(t), true);
    obsEnc(e);
    CHECK(sameAll(e, w), "a token added later is treated differently from one in the configuration");
    std::vector<int> ids;
    for (int i = 0; i <= 30; i++) ids.push_back(i);
    for (int i = 250; i <= 265; i++) ids.push_back(i);
    int skip = steps == 1 ? choose("skip", 0, 1) : call;
    std::string d = grown.decode(ids, skip), v = whole.decode(ids, skip);
    obs(d);
    CHECK(sameStr(d, v), "decoding differs for a token added later");
    REACH("added later");
  });
}
static ATok flagged(const Text &c, int f) { return {c, bool(f & 1), bool(f & 2), bool(f & 4), bool(f & 8), bool(f & 16), 0}; }
ENTRY(c25_one) {  // one token with any flags
  laterConfig(choose("config", 0, 5));
  static const std::vector<Text> C = {{'a', 'b'}, {'q'}, {0xE9}};
  addLater({flagged(C[choose("token", 0, 2)], choose("flags", 0, 31))}, {}, 1, [] { int n = choose("n", 1, 1 + TIER); Text t = symText("n", n, n, {'a', ' ', 0xE9}); t.push_back('q'); t.push_back('a'); t.push_back('b'); return t; });
}
ENTRY(c25_two) {  // two tokens, in one or two calls
  laterConfig(choose("config", 0, 5));
  static const int FL[] = {0, 22, 9, 16, 8, 7};
  ATok x = flagged({'a', 'b'}, FL[choose("flags", 0, 2 + TIER * 3)]), y = flagged(choose("overlap", 0, 1) ? Text{'b', ' ', 'a'} : Text{'a'}, FL[choose("flags", 0, 2 + TIER * 3)]);
  bool one = choose("one call", 0, 1);
  addLater(one ? ATokens{x, y} : ATokens{x}, one ? ATokens{} : ATokens{y}, one ? 1 : 2, [] { int n = choose("n", 2 + TIER, 2 + TIER); Text t = symText("n", n, n, {'a', 'b', ' '}); t.push_back('b'); t.push_back('a'); return t; });
}
// ---------------------------------------------------------------- C26
// the encoding is what truncating, post-processing and padding in this order make of the model's tokens
ENTRY(c26_stages) {
  int m = choose("model", 0, 2);
  if (m == 0) { bert(1, 1, 1, 1); wordPieceModel(); pre(BERTPRE); addedTokens(14); }
  if (m == 1) { bytesModel({{B("a"), B("a")}, {B(" "), B("a")}}, false); pre(BYTESPFX); }
  if (m == 2) { charsModel(false, false); pre(WSPRE); }
  static const std::string POST[] = {"null", TEMPLATE, BLPOST, std::string("{\"type\":\"Sequence\",\"processors\":[") + BLPOST + "," + TEMPLATE + "]}"};
  static const int T[][3] = {{0, 0, 0}, {2, 1, 0}, {1, 0, 1}, {0, 0, 0}, {3, 2, 1}};  // max_length, stride, left
  static const std::vector<Tpl> TPL = {{1, 0}, {0, 1}, {2, 2}};
  static const std::vector<Spec> SPEC = {{"[CLS]", {101}, {"[CLS]"}}, {"[SEP]", {102, 103}, {"[SEP]", "[EOS]"}}};
  int tr = choose("truncation", 0, 4), po = choose("post", 0, 3), pa = choose("padding", 0, 2), special = choose("add_special_tokens", 0, 1);
  noThrow("encoding threw", [&] {
    Tokenizer bare("", g_cfg.json());
    g_cfg.trunc = TRUNC[tr];
    g_cfg.post = POST[po];
    g_cfg.pad = PAD[pa];
    Tokenizer k("", g_cfg.json());
    std::wstring w = toW(symText("n", 0, TIER ? 4 : 3, {'a', ' ', m == 1 ? 'b' : (uint32_t)0x1F620}));
    Encoding want = bare.encode(w, special);
    if (tr) want = refTruncate(want, T[tr][0], T[tr][1], T[tr][2]);
    if (po & 2) want = refTrim(want, true);
    if (po & 1) want = refTemplate(TPL, SPEC, want, special);
    int n = (int)want.ids.size();
    if (pa == 1) want = refPad(want, 3, true, 0, 0, "[PAD]");
    if (pa == 2) want = refPad(want, (n + 3) / 4 * 4, false, 7, 1, "[PAD]");
    Encoding e = k.encode(w, special);
    obsEnc(e);
    CHECK(sameAll(e, want), "the encoding is not the model's tokens truncated, post-processed and padded");
    REACH(e.overflowing.empty() ? "one part" : "several parts");
  });
}
// ---------------------------------------------------------------- C27
// the words of a text are tokenized independently of each other
static void localConfig(int k, bool all = true) {
  g_cfg = Config();
  g_pipe = Pipe();
  if (k == 0) { bert(1, 1, 1, 1); wordPieceModel(); pre(BERTPRE); }
  if (k == 1) { bytesModel({{B("a"), B("b")}, {B(" "), B("a")}, {B(" a"), B("b")}, {B("b"), B("b")}}, all); pre(BYTESRX); }
  if (k == 2) { charsModel(true, true); pre(WSPRE); }
  if (k == 3) { charsModel(false, true); pre(BERTPRE); bert(1, 0, 0, 0); }
  if (k == 4) { historyConfig(3); }
  if (k == 0 || k == 3) {  // tokens that leave the whitespace around them alone
    g_pipe.added = {{{'[', 'X', ']'}, false, false, false, false, true, 14}, {{0x1F620}, true, false, false, false, false, 15}, {{'b', '.'}, k == 0, false, false, true, false, 16}};
    g_cfg.added = jadded(g_pipe.added);
  }
}
static bool bytesConfig(int k) { return k == 1; }
// e is what stands at [at,...) of `all`, `by` characters later and `base` words later; returns the next position
static size_t follows(const Encoding &all, size_t at, const Encoding &e, int by) {
  CHECK(lengthsAgree(all) && lengthsAgree(e) && at + e.ids.size() <= all.ids.size(), "words put together give fewer tokens than apart");
  if (!lengthsAgree(all) || !lengthsAgree(e) || at + e.ids.size() > all.ids.size()) return at;
  bool tok = true, off = true, wd = true;
  for (size_t i = 0; i < e.ids.size(); i++) {
    size_t j = at + i;
    tok &= (all.ids[j] == e.ids[i]) & sameStr(all.tokens[j], e.tokens[i]);
    off &= (all.offsets[j].first == e.offsets[i].first + by) & (all.offsets[j].second == e.offsets[i].second + by);
    if (i) wd &= *all.words[j] - *all.words[j - 1] == *e.words[i] - *e.words[i - 1];
    else if (j) wd &= *all.words[j] > *all.words[j - 1];
  }
  CHECK(tok, "a word's tokens depend on its neighbours");
  CHECK(off, "a word's offsets depend on its neighbours");
  CHECK(wd, "word indices do not tell the words apart");
  return at + e.ids.size();
}
static void local(int k, const Text &a, const Text &b) {  // b begins with a character that is not whitespace
  noThrow("encoding threw", [&] {
    std::string js = g_cfg.json();
    Tokenizer x("", js), y("", js), z("", js);
    Text all = a, second = b;
    all.push_back(' ');
    if (bytesConfig(k)) second.insert(second.begin(), ' ');
    int by = (int)all.size() - (bytesConfig(k) ? 1 : 0);
    all.insert(all.end(), b.begin(), b.end());
    Encoding e = z.encode(toW(all), true);
    obsEnc(e);
    size_t n = follows(e, 0, x.encode(toW(a), true), 0);
    n = follows(e, n, y.encode(toW(second), true), by);
    CHECK(n == e.ids.size(), "words put together give more tokens than apart");
    REACH("two parts");
  });
}
static const std::vector<uint32_t> LOCAL[] = {{'a', 'b', '.', ' ', 0xC9, 0x1F620}, {'a', 'b', ' ', '.', 0x4E16}, {'a', 'b', ' ', 0xE9, 0xC9}, {'a', 'b', '.', ' ', 0x1F620}, {'a', 'b', ' '}};
ENTRY(c27_two) {
  int k = choose("config", 0, 4);
  localConfig(k);
  Text a = symText("n", 0, TIER ? 3 : 2, LOCAL[k]), b = symText("n", 1, TIER ? 3 : 2, LOCAL[k]);
  if (b[0] == ' ') return;
  if (choose("same", 0, 1) && !a.empty()) a.insert(a.end(), b.begin(), b.end());
  local(k, a, b);
}
ENTRY(c27_anychar) {
  static const int K[] = {0, 2, 3, 4, 1};
  int k = K[choose("config", 0, TIER ? 4 : 1)];
  localConfig(k);
  int place = TIER ? choose("place", 0, 1) : 0;
  uint32_t c = symScalar("c");
  local(k, place ? Text{'a', 'b'} : Text{'b', c}, place ? Text{'b', c, 'a'} : Text{'a', 'b'});
}
ENTRY(c27_many) {  // a word among many others
  int k = choose("config", 0, 4);
  localConfig(k, false);
  Text w = symText("n", 1, 2 + TIER, LOCAL[k]);
  if (w[0] == ' ') return;
  static const int AT[] = {0, 1, 7, 20};
  int at = AT[choose("at", 0, 3)];
  noThrow("encoding threw", [&] {
    std::string js = g_cfg.json();
    Tokenizer all("", js), alone("", js);
    std::vector<Text> ws;
    for (int i = 0; i < 20; i++) { Text t; for (int j = 0; j <= i % 3; j++) t.push_back((i >> j) & 1 ? 'b' : 'a'); ws.push_back(t); }
    ws.insert(ws.begin() + at, w);
    Text t;
    for (size_t i = 0; i < ws.size(); i++) { if (i) t.push_back(' '); t.insert(t.end(), ws[i].begin(), ws[i].end()); }
    Encoding e = all.encode(toW(t), true);
    obsEnc(e);
    size_t n = 0;
    int by = 0;
    for (size_t i = 0; i < ws.size(); i++) {
      Text one = ws[i];
      bool sp = i && bytesConfig(k);
      if (sp) one.insert(one.begin(), ' ');
      n = follows(e, n, alone.encode(toW(one), true), by - (sp ? 1 : 0));
      by += (int)ws[i].size() + 1;
    }
    CHECK(n == e.ids.size(), "words put together give more tokens than apart");
    REACH("many words");
  });
}
// ---------------------------------------------------------------- C28
// decoding can be done part by part: what was decoded stays when more ids follow
ENTRY(c28_parts) {
  static const char *DEC[] = {"null", "{\"type\":\"WordPiece\",\"prefix\":\"##\",\"cleanup\":true}", "{\"type\":\"WordPiece\",\"prefix\":\"##\",\"cleanup\":false}",
                              "{\"type\":\"Replace\",\"pattern\":{\"String\":\"a\"},\"content\":\" a\"}", "{\"type\":\"Strip\",\"content\":\"a\",\"start\":1,\"stop\":1}", "{\"type\":\"ByteLevel\"}",
                              "{\"type\":\"Sequence\",\"decoders\":[{\"type\":\"Replace\",\"pattern\":{\"String\":\"\xE2\x96\x81\"},\"content\":\" \"},{\"type\":\"ByteFallback\"},{\"type\":\"Fuse\"}]}",
                              "{\"type\":\"Sequence\",\"decoders\":[{\"type\":\"ByteFallback\"},{\"type\":\"Fuse\"},{\"type\":\"Strip\",\"content\":\" \",\"start\":1,\"stop\":0}]}", "{\"type\":\"Fuse\"}"};
  int dec = choose("decoder", 0, 8), skip = choose("skip_special_tokens", 0, 1);
  bool wp = dec == 1 || dec == 2, bytes = dec == 6 || dec == 7, whole = dec == 7;
  Entries v = {{"a", 0}, {"b", 1}, {"aab", 2}};
  if (wp) { v.push_back({"##b", 3}); v.push_back({"n't", 4}); v.push_back({".", 5}); v.push_back({"'", 6}); }
  else if (bytes) { v.push_back({"<0xC3>", 3}); v.push_back({"<0xA9>", 4}); v.push_back({"\xE2\x96\x81" "a", 5}); v.push_back({" ", 6}); }
  else { v.push_back({B("\xC3"), 3}); v.push_back({B("\xA9"), 4}); v.push_back({B(" "), 5}); v.push_back({"\xE4\xB8\x96", 6}); }
  g_cfg.model = "{\"type\":\"WordPiece\",\"unk_token\":\"[UNK]\",\"continuing_subword_prefix\":\"##\",\"max_input_chars_per_word\":100,\"vocab\":" + jvocab(v) + "}";
  g_cfg.dec = DEC[dec];
  g_cfg.added = jadded({{{'<', 's', '>'}, false, false, false, false, true, 14}});
  build();
  std::vector<int> x, y, xy;
  for (int i = 0, n = choose("n", 0, 1 + TIER); i < n; i++) x.push_back(symInt("id", 0, 8));
  for (int i = 0, n = choose("m", 1, 2); i < n; i++) y.push_back(symInt("id", 0, 8));
  if (!x.empty()) x.insert(x.begin(), 1);
  xy = x;
  xy.insert(xy.end(), y.begin(), y.end());
  if (bytes && !x.empty()) {  // a character's bytes are decoded together
    auto isByte = [](int i) { return (i == 3) | (i == 4); };
    auto kept = [&](int i) { return i < 7 || (i == 7 && !skip); };
    int l = -1, f = -1;
    for (int i : x) if (kept(i)) l = i;
    for (int i : y) if (f < 0 && kept(i)) f = i;
    if (isByte(l) && isByte(f)) return;
  }
  noThrow("decoding threw", [&] {
    Tokenizer &k = *g_tok;
    std::string a = k.decode(x, skip), b = k.decode(y, skip), all = k.decode(xy, skip);
    obs(all);
    CHECK(all.size() >= a.size() && sameStr(all.substr(0, a.size()), a), "what was decoded changes when more ids follow");
    if (all.size() < a.size()) return;
    std::string rest = all.substr(a.size());
    if ((wp || whole) && !x.empty()) {  // a first token is special; compare with another one before
      std::vector<int> z = y;
      z.insert(z.begin(), 0);
      b = k.decode(z, skip).substr(1);
    }
    if (!x.empty()) CHECK(sameStr(rest, b), "what ids decode to depends on the ids before");
    REACH("parts");
  });
}
// ---------------------------------------------------------------- long texts
static const char *LTRUNC = "{\"direction\":\"Right\",\"max_length\":100,\"strategy\":\"LongestFirst\",\"stride\":30}";
static const char *LPAD = "{\"strategy\":\"BatchLongest\",\"direction\":\"Right\",\"pad_to_multiple_of\":64,\"pad_id\":70000,\"pad_type_id\":1,\"pad_token\":\"[PAD]\"}";
static const std::vector<uint32_t> LCH[] = {{'a', 'b', ' ', 0x4E16, '.', 0xC9}, {'a', 'b', ' ', 0xE9}, {'a', 'b', ' ', 0xE9, 0x1F600}};
static void longConfig(int k) {
  if (k == 0) { bert(1, 1, 1, 1); wordPieceModel(); pre(BERTPRE); g_cfg.dec = WPDEC; }
  if (k == 1) { pre(BYTESPFX); bytesModel({{B("a"), B("b")}, {B(" "), B("a")}, {B(" a"), B("b")}, {"\xC3\x83", "\xC2\xA9"}}, false); g_cfg.dec = "{\"type\":\"ByteLevel\"}"; }
  if (k == 2) { charsModel(true, true); pre(WSPRE); }
}
static Text someLong(int k) { return longText({17, 65, 130, 260}, LCH[k], 1); }
ENTRY(c21_long) {
  int k = choose("config", 0, 2);
  longConfig(k);
  if (k == 0 && choose("added", 0, 1)) {
    g_pipe.added = {{{'b', 'a'}, false, false, false, false, true, 14}, {{0x1F620}, false, false, false, false, false, 15}};
    g_pipe.hasAdded = true;
    g_cfg.added = jadded(g_pipe.added);
  }
  build();
  encode(someLong(k));
}
ENTRY(c01_long) {
  int k = choose("config", 0, 2);
  longConfig(k);
  if (choose("truncation", 0, 1)) g_cfg.trunc = LTRUNC;
  if (choose("post", 0, 1)) g_cfg.post = TEMPLATE;
  g_cfg.pad = LPAD;
  if (k == 0) addedTokens(14);
  build();
  formed(someLong(k), k == 0 ? WP : k == 1 ? g_bv : g_cv);
}
ENTRY(c19_long) {
  int k = choose("config", 0, 2);
  longConfig(k);
  if (choose("stages", 0, 1)) { g_cfg.trunc = LTRUNC; g_cfg.post = TEMPLATE; g_cfg.pad = LPAD; }
  build();
  Text t = longText({17, 65, 130}, LCH[k], 1);
  if (choose("words", 0, 1)) t.insert(t.begin() + 8, 70, 'a');
  unharmed(t, false);
}
ENTRY(c22_long) {
  int k = choose("config", 0, 1);
  longConfig(k);
  build();
  Text t = longText({17, 65, 130, 260}, {'a', 'b', ' '}, 1);
  if (k == 0) {  // words with one space between
    Text u = {'a'};
    for (uint32_t c : t) if (c != ' ' || u.back() != ' ') u.push_back(c);
    if (u.back() == ' ') u.push_back('b');
    t = u;
  }
  roundTrip(t, (k == 1 && t[0] != ' ' ? " " : "") + toU8(t), true);
}
ENTRY(c26_long) {
  int k = choose("config", 0, 2), tr = choose("truncation", 0, 1), po = choose("post", 0, 1), pa = choose("padding", 0, 1);
  longConfig(k);
  noThrow("encoding threw", [&] {
    Tokenizer bare("", g_cfg.json());
    if (tr) g_cfg.trunc = LTRUNC;
    if (po) g_cfg.post = TEMPLATE;
    if (pa) g_cfg.pad = LPAD;
    Tokenizer x("", g_cfg.json());
    std::wstring w = toW(longText({130, 260}, LCH[k], 1));
    Encoding want = bare.encode(w, true);
    if (tr) want = refTruncate(want, 100, 30, false);
    if (po) want = refTemplate({{1, 0}, {0, 1}, {2, 2}}, {{"[CLS]", {101}, {"[CLS]"}}, {"[SEP]", {102, 103}, {"[SEP]", "[EOS]"}}}, want, true);
    if (pa) want = refPad(want, ((int)want.ids.size() + 63) / 64 * 64, false, 70000, 1, "[PAD]");
    Encoding e = x.encode(w, true);
    obsEnc(e);
    CHECK(sameAll(e, want), "the encoding is not the model's tokens truncated, post-processed and padded");
    REACH(e.overflowing.empty() ? "one part" : "several parts");
  });
}
ENTRY(c27_long) {  // a word after a long text
  static const int K[] = {0, 1, 2, 4};
  int k = K[choose("config", 0, 3)];
  localConfig(k, false);
  Text a = longText({65, 130, 257}, LOCAL[k], 1), b = {'b', symPick("c", LOCAL[k]), 'a'};
  local(k, a, b);
}
ENTRY(c28_long) {  // ids decoded after many others
  static const char *DEC[] = {"null", "{\"type\":\"WordPiece\",\"prefix\":\"##\",\"cleanup\":true}", "{\"type\":\"ByteLevel\"}"};
  static const int N[] = {17, 130, 260};
  int dec = choose("decoder", 0, 2), n = N[choose("n", 0, 2)], skip = choose("skip_special_tokens", 0, 1);
  wordPieceModel();
  g_cfg.dec = DEC[dec];
  g_cfg.added = jadded({{{'<', 's', '>'}, false, false, false, false, true, 14}});
  build();
  std::vector<int> x, y = {symInt("id", 0, 15), 2}, xy;
  for (int i = 0; i < n; i++) x.push_back(1 + i * 5 / 3 % 15);
  xy = x;
  xy.insert(xy.end(), y.begin(), y.end());
  noThrow("decoding threw", [&] {
    Tokenizer &k = *g_tok;
    std::string a = k.decode(x, skip), all = k.decode(xy, skip);
    y.insert(y.begin(), 1);
    std::string b = k.decode(y, skip).substr(1);
    obs(all);
    CHECK(sameStr(all, a + b), "what ids decode to depends on the ids before");
    REACH("parts");
  });
}
ENTRY(c18_long) {  // large vocabularies, long merge lists, long strings
  static const int N[] = {17, 130, 300};
  int n = N[choose("n", 0, 2)], k = choose("model", 0, 1), len = choose("long names", 0, 1) ? 130 : 1;
  Entries v;
  std::vector<Rule> rules;
  std::string m;
  auto name = [&](int i) { return "t" + std::string((size_t)len, 'x') + std::to_string(i); };
  if (k == 0) for (int i = 0; i < n; i++) v.push_back({name(i), i * 331});
  else {
    v = {{"a", 0}};
    std::string prev = "a";
    for (int i = 0; i < (n < 130 ? n : 130); i++) {  // letter by letter
      Rule r{prev, toU8({(uint32_t)(0x100 + i)})};
      prev += r.b;
      v.push_back({r.b, 1 + i});
      rules.push_back(r);
      v.push_back({prev, 1000 + i * 331});
      m += (m.empty() ? "" : ",") + jstr(r.a + " " + r.b);
    }
  }
  if (k == 0) g_cfg.model = "{\"type\":\"WordPiece\",\"unk_token\":\"[UNK]\",\"continuing_subword_prefix\":\"##\",\"max_input_chars_per_word\":1000,\"vocab\":" + jvocab(v) + "}";
  else g_cfg.model = "{\"type\":\"BPE\",\"dropout\":null,\"unk_token\":null,\"continuing_subword_prefix\":null,\"end_of_word_suffix\":null,\"fuse_unk\":false,\"byte_fallback\":false,\"ignore_merges\":false,\"vocab\":" + jvocab(v) + ",\"merges\":[" + m + "]}";
  static const std::string junk(300, 'q');
  g_cfg.norm = "{\"type\":\"Replace\",\"pattern\":{\"String\":\"" + junk + "\"},\"content\":\"" + std::string(len, 'w') + "\"}";
  g_cfg.added = jadded({{Text((size_t)(len + 2), '@'), false, false, false, true, true, v.back().second + 1}});
  build();
  int at = choose("entry", 0, 2);
  auto &want = v[at == 0 ? v.size() - 1 : at == 1 ? v.size() / 2 : 0];
  noThrow("encoding or decoding threw", [&] {
    Encoding e = g_tok->encode(convert_from_string(want.first), true);
    obs(e.ids);
    CHECK(e.ids.size() == 1 && e.ids[0] == want.second && e.tokens[0] == want.first, "an entry of the vocabulary is not the token of its text");
    CHECK(g_tok->decode({want.second}, false) == want.first, "the token of an id is not the one configured");
    Encoding a = g_tok->encode(std::wstring((size_t)(len + 2), L'@'), true);
    obs(a.ids);
    CHECK(a.ids.size() == 1 && a.tokens[0] == std::string((size_t)(len + 2), '@') && g_tok->decode(a.ids, false) == a.tokens[0] && g_tok->decode(a.ids, true).empty(), "an added token is not read as configured");
    REACH("long");
  });
}
