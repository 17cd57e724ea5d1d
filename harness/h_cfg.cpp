// C18 configuration: every component built from JSON behaves as the JSON says
#ifndef TIER
#define TIER 0
#endif
#include "refpipe.h"
#ifndef SYM_JSON_MODEL
#include <cstdio>
#include <fstream>
#include <stdlib.h>
#include <unistd.h>
#endif
struct JStr { const char *js, *val; };
static const JStr STR[] = {{"null", ""}, {"\"a\"", "a"}, {"\"\\\"\\\\\"", "\"\\"}, {"\"\\u00e9\"", "\xC3\xA9"}, {"\"\\ud83d\\ude20\"", "\xF0\x9F\x98\xA0"}, {"\"\xE4\xB8\x96\"", "\xE4\xB8\x96"}, {"\"\\u0061\\/\\n\"", "a/\n"}, {"\"\"", ""}};
static const int NSTR = 8;
static const char *TRI(int k) { return k == 0 ? "null" : k == 1 ? "false" : "true"; }
typedef std::vector<std::pair<std::string, std::string>> Fields;
static std::string object(Fields f, int order) {  // as given, reversed, or rotated
  std::string o = "{";
  for (size_t i = 0, n = f.size(); i < n; i++) {
    auto &p = f[order == 0 ? i : order == 1 ? n - 1 - i : (i + order) % n];
    o += (i ? "," : "") + std::string(order == 1 ? " " : "") + "\"" + p.first + "\"" + (order == 1 ? " : " : ":") + p.second;
  }
  return o + "}";
}
static Text points8(const std::string &s) { Text t; refDecode(s, t); return t; }
// one field varies at a time, the others keep their base value
struct Vary { int which; Vary(int n) : which(choose("varied field", 0, n - 1)) {} int operator()(int field, int hi, int base) { return which == field ? choose("value", 0, hi) : base; } };
// ---------------------------------------------------------------- models
static void sameTokens(const Model &m, const Text &t, const Toks &w) {
  PreTokenizedString p = m.tokenize(PreTokenizedString(NormalizedString(toW(t))));
  bool ok = p.splits.size() == 1 && p.splits[0].tokens.size() == w.size();
  CHECK(ok, "a model built from JSON does not follow its fields");
  if (!ok) return;
  for (size_t i = 0; i < w.size(); i++) {
    const Token &k = p.splits[0].tokens[i];
    obs((uint64_t)k.id); obs(k.value);
    CHECK((k.id == w[i].id) & sameStr(k.value, w[i].v) & (k.offsets.first == w[i].a) & (k.offsets.second == w[i].b), "a model built from JSON does not follow its fields");
  }
}
// vocabulary keys with escapes; every value different
static const std::vector<JStr> KEYS = {{"\"a\"", "a"}, {"\"b\"", "b"}, {"\"##b\"", "##b"}, {"\"ab\"", "ab"}, {"\"\\\"\"", "\""}, {"\"#\\\"\"", "#\""}, {"\"\\u00e9\"", "\xC3\xA9"}, {"\"##\\u00E9\"", "##\xC3\xA9"}, {"\"\\ud83d\\ude20\"", "\xF0\x9F\x98\xA0"}, {"\"\\u0061\\/\\n\"", "a/\n"}, {"\"a\xC3\xA9\"", "a\xC3\xA9"}, {"\"##a\"", "##a"}, {"\"\\\\\"", "\\"}, {"\"b</w>\"", "b</w>"}, {"\"a\\u003C/w>\"", "a</w>"}, {"\"<0xE4>\"", "<0xE4>"}, {"\"<0xB8>\"", "<0xB8>"}, {"\"<0x96>\"", "<0x96>"}, {"\"\\\"\\\\\"", "\"\\"}};
static std::string keysJson(int kind, Entries &e) {  // null, empty, all, all in the other order
  if (kind == 0) return "null";
  Fields f;
  if (kind >= 2) for (size_t i = 0; i < KEYS.size(); i++) {
    int id = (int)((i * 7 + 3) % 40);
    f.push_back({std::string(KEYS[i].js).substr(1, std::string(KEYS[i].js).size() - 2), std::to_string(id)});
    e.push_back({KEYS[i].val, id});
  }
  return object(f, kind - 2);
}
static int idOf(const Entries &e, const std::string &s) { auto *p = look(e, s); return p ? p->second : 0; }
ENTRY(c18_wordpiece) {
  Vary v(4);
  int unk = v(0, NSTR - 1, 1), pre = v(1, NSTR - 1, 7), mx = v(2, 3, 3), voc = v(3, 3, 2), order = choose("order", 0, 2);
  static const int MAX[] = {0, 1, 2, 100};
  static const char *PREJ[] = {"null", "\"##\"", "\"#\"", "\"\\u0023\\u0023\"", "\"a\"", "\"\\\"\"", "\"\"", "\"##\""};
  static const char *PREV[] = {"", "##", "#", "##", "a", "\"", "", "##"};
  Entries e;
  std::string vj = keysJson(voc, e);
  std::string js = object({{"type", "\"WordPiece\""}, {"unk_token", STR[unk].js}, {"continuing_subword_prefix", PREJ[pre]}, {"max_input_chars_per_word", std::to_string(MAX[mx])}, {"vocab", vj}}, order);
  Text t = symText("n", 0, 3, {'a', 'b', '"', 0xE9});
  noThrow("building or running a model threw", [&] {
    auto m = fromJson(js, with_model);
    CHECK(m != nullptr, "no model");
    if (!m) return;
    sameTokens(*m, t, refWordPiece(t, e, STR[unk].val, idOf(e, STR[unk].val), MAX[mx], PREV[pre]));
    CHECK(m->get_vocab_size() == (int)e.size(), "the vocabulary has another size");
    REACH("model");
  });
}
// characters, their bytes or unknown tokens, merged in rank order
static Toks fullBpe(const Text &t, const Entries &e, const std::vector<Rule> &rules, const std::string &unk, const std::string &pre, const std::string &suf, bool fuse, bool fb, bool ignore) {
  Toks r;
  if (ignore && !t.empty()) if (auto *p = look(e, toU8(t))) return {{p->second, p->first, 0, (int)t.size()}};
  bool open = false;
  auto *u = unk.empty() ? nullptr : look(e, unk);
  for (int i = 0, n = (int)t.size(); i < n; i++) {
    std::string c = sub(t, i, i + 1);
    if (auto *p = look(e, (i ? pre : "") + c + (i + 1 == n ? suf : ""))) { r.push_back({p->second, p->first, i, i + 1}); open = false; continue; }
    Toks bs;
    for (unsigned char x : c) {
      std::string code = "<0x00>";
      x = (unsigned char)__sym_concretize(x);
      code[3] = "0123456789ABCDEF"[x >> 4];
      code[4] = "0123456789ABCDEF"[x & 15];
      if (auto *p = look(e, code)) bs.push_back({p->second, p->first, i, i + 1});
    }
    if (fb && bs.size() == c.size()) { r.insert(r.end(), bs.begin(), bs.end()); open = false; continue; }
    if (!u) continue;
    if (fuse && open) r.back().b = i + 1;
    else r.push_back({u->second, u->first, i, i + 1});
    open = true;
  }
  for (;;) {
    size_t best = rules.size(), at = 0;
    for (size_t i = 0; i + 1 < r.size(); i++)
      for (size_t k = 0; k < best; k++)
        if (r[i].v == rules[k].a && r[i + 1].v == rules[k].b && look(e, rules[k].a + rules[k].b.substr(pre.size()))) { best = k; at = i; }
    if (best == rules.size()) return r;
    r[at].v += r[at + 1].v.substr(pre.size());
    r[at].id = idOf(e, r[at].v);
    r[at].b = r[at + 1].b;
    r.erase(r.begin() + at + 1);
  }
}
ENTRY(c18_bpe) {
  Vary v(9);
  int merges = v(0, 3, 2), unk = v(1, NSTR - 1, 2), pre = v(2, 2, 0), suf = v(3, 2, 0), fuse = v(4, 2, 0), fb = v(5, 2, 0), ign = v(6, 2, 0), drop = v(7, 1, 0), voc = v(8, 3, 2), order = choose("order", 0, 2);
  static const char *MJ[] = {"null", "[]", "[\"a b\",\"a \\u00e9\"]", "[\"a ##b\",\"\\u0061 b</w>\",\"a b\",\"\\\" \\\\\"]"};
  static const std::vector<Rule> MV[] = {{}, {}, {{"a", "b"}, {"a", "\xC3\xA9"}}, {{"a", "##b"}, {"a", "b</w>"}, {"a", "b"}, {"\"", "\\"}}};
  static const char *PJ[] = {"null", "\"\"", "\"##\""}, *SJ[] = {"null", "\"\"", "\"\\u003c/w>\""}, *PV[] = {"", "", "##"}, *SV[] = {"", "", "</w>"};
  Entries e;
  std::string vj = keysJson(voc, e);
  if (pre == 2 || suf == 2) merges = 3;
  std::vector<Rule> rules;
  for (auto &r : MV[merges]) if (r.b.size() >= (pre == 2 ? 2u : 0u)) rules.push_back(r);
  if (pre == 2) { rules = {{"a", "##b"}}; MJ[3] = "[\"a ##b\"]"; }
  std::string js = object({{"type", "\"BPE\""}, {"dropout", drop ? "0.0" : "null"}, {"unk_token", STR[unk].js}, {"continuing_subword_prefix", PJ[pre]}, {"end_of_word_suffix", SJ[suf]}, {"fuse_unk", TRI(fuse)}, {"byte_fallback", TRI(fb)}, {"ignore_merges", TRI(ign)}, {"vocab", vj}, {"merges", MJ[merges]}}, order);
  if (pre == 2) MJ[3] = "[\"a ##b\",\"\\u0061 b</w>\",\"a b\",\"\\\" \\\\\"]";
  Text t = v.which == 4 || v.which == 5 ? symText("n", 1, 3, {'a', '-', 0x4E16}) : symText("n", 1, 2, {'a', 'b', '"', '\\', 0xE9});
  noThrow("building or running a model threw", [&] {
    auto m = fromJson(js, with_model);
    CHECK(m != nullptr, "no model");
    if (!m) return;
    sameTokens(*m, t, fullBpe(t, e, rules, STR[unk].val, PV[pre], SV[suf], fuse == 2, fb == 2, ign == 2));
    CHECK(m->get_vocab_size() == (int)e.size(), "the vocabulary has another size");
    REACH("model");
  });
}
ENTRY(c18_vocab) {  // ids and tokens of a model correspond
  int order = choose("order", 2, 3), bpe = choose("BPE", 0, 1);
  Entries e;
  std::string vj = keysJson(order, e);
  std::string js = bpe ? "{\"type\":\"BPE\",\"dropout\":null,\"unk_token\":null,\"continuing_subword_prefix\":null,\"end_of_word_suffix\":null,\"fuse_unk\":false,\"byte_fallback\":false,\"ignore_merges\":false,\"merges\":[],\"vocab\":" + vj + "}"
                       : "{\"type\":\"WordPiece\",\"unk_token\":\"a\",\"continuing_subword_prefix\":\"##\",\"max_input_chars_per_word\":9,\"vocab\":" + vj + "}";
  int id = symInt("id", -1, 41), k = choose("key", 0, (int)e.size());
  noThrow("building or asking a model threw", [&] {
    auto m = fromJson(js, with_model);
    CHECK(m != nullptr, "no model");
    if (!m) return;
    auto a = m->token_to_id(k < (int)e.size() ? e[k].first : "none");
    CHECK(a.has_value() == (k < (int)e.size()) && (!a || *a == e[k].second), "a key does not have its id");
    auto b = m->id_to_token(id);
    const std::string *w = nullptr;
    for (auto &p : e) if (p.second == id) w = &p.first;
    CHECK(b.has_value() == (w != nullptr) && (!w || sameStr(*b, *w)), "an id does not have its key");
    REACH("vocabulary");
  });
}
// ---------------------------------------------------------------- normalizers
static std::string normJson(int kind, int a, int b, int c, int d, int order, NormFn &f) {
  if (kind == 0) { f = [=](const RT &r) { return refStrip(r, a == 2, b == 2); }; return object({{"type", "\"Strip\""}, {"strip_left", TRI(a)}, {"strip_right", TRI(b)}}, order); }
  if (kind == 1) { f = [=](const RT &r) { return refPrepend(r, points8(STR[a].val)); }; return object({{"type", "\"Prepend\""}, {"prepend", STR[a].js}}, order); }
  if (kind == 2) { f = [=](const RT &r) { return refReplaceText(r, points8(STR[a].val), points8(STR[b].val)); }; return object({{"type", "\"Replace\""}, {"pattern", a == 0 ? "null" : object({{"String", STR[a].js}}, 0)}, {"content", STR[b].js}}, order); }
  if (kind == 3) { f = [=](const RT &r) { return refBert(r, a == 2, b == 2, c == 2, d == 2); }; return object({{"type", "\"BertNormalizer\""}, {"clean_text", TRI(a)}, {"handle_chinese_chars", TRI(b)}, {"strip_accents", TRI(c)}, {"lowercase", TRI(d)}}, order); }
  static const char *F[] = {"\"NFC\"", "\"NFD\"", "\"NFKC\"", "\"NFKD\"", "\"StripAccents\""};
  f = [=](const RT &r) { return kind == 8 ? refAccents(r) : refForm(r, kind - 4); };
  return object({{"type", F[kind - 4]}}, 0);
}
static void sameNorm(const Normalizer &z, const Text &t, NormFn f) {
  NormalizedString s = z.normalize(NormalizedString(toW(t)));
  obs(s.normalized);
  CHECK(sameText(s, f(ident(t))), "a normalizer built from JSON does not follow its fields");
}
ENTRY(c18_normalizer) {
  int kind = choose("kind", 0, 8), a = 0, b = 0, c = 0, d = 0;
  if (kind == 0) { a = choose("a", 0, 2); b = choose("b", 0, 2); }
  if (kind == 1) a = choose("a", 0, NSTR - 1);
  if (kind == 2) { a = choose("a", 0, NSTR - 1); b = choose("b", 0, NSTR - 1); }
  if (kind == 3) { a = choose("a", 0, 2); b = choose("b", 0, 2); c = choose("c", 0, 2); d = choose("d", 0, 2); }
  NormFn f;
  std::string js = normJson(kind, a, b, c, d, kind < 4 ? choose("order", 0, 2) : 0, f);
  Text t = kind == 3 ? Text{1, 'A', 0xC9, 0x4E16} : kind == 0 ? Text{' ', 'a', ' '} : kind == 2 ? Text{'"', '\\', 'a', '/', '\n', 0xE9, 0x4E16, 0x1F620} : Text{' ', symPick("c", {'a', 0xE9, 0xFB01}), 0x301};
  noThrow("building or running a normalizer threw", [&] {
    auto z = fromJson(js, with_normalizer);
    CHECK(z != nullptr, "no normalizer");
    if (z) sameNorm(*z, t, f);
    REACH("normalizer");
  });
}
// sequences keep their order and leave unsupported members out
static const char *UNSUPPORTED[] = {"\"Lowercase\"", "\"Nope\"", "\"\"", "\"bertnormalizer\"", "\"Precompiled\"", "\"Unigram\"", "\"WordLevel\"", "\"Metaspace\"", "\"CTC\"", "\"RobertaProcessing\"", "\"Digits\""};
static const int NUNS = 11;
static std::string member(const char *type) { return object({{"type", type}}, 0); }
static int orderOf(int k, int i) { static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; return P[k][i]; }
static std::string sequence(const char *list, const std::vector<std::string> &m, int k, int un, bool nested) {
  // unsupported member at the front, inside and at the end; the whole possibly in another sequence
  std::string s;
  for (size_t i = 0; i < 3; i++) s += (i ? "," : "") + (un < NUNS ? member(UNSUPPORTED[un]) + "," : std::string()) + m[orderOf(k, (int)i)];
  if (un < NUNS) s += "," + member(UNSUPPORTED[un]);
  s = std::string("{\"type\":\"Sequence\",\"") + list + "\":[" + s + "]}";
  return nested ? std::string("{\"") + list + "\":[" + s + "],\"type\":\"Sequence\"}" : s;
}
ENTRY(c18_norm_sequence) {
  int k = choose("order", 0, 5), un = choose("unsupported", 0, NUNS);
  std::vector<std::string> m = {"{\"type\":\"Replace\",\"pattern\":{\"String\":\"a\"},\"content\":\"b \"}", "{\"type\":\"Replace\",\"pattern\":{\"String\":\"b\"},\"content\":\"a\\u00e9\"}", "{\"type\":\"Strip\",\"strip_left\":true,\"strip_right\":true}"};
  Text t = symText("n", 1, 2, {'a', 'b', ' '});
  bool nested = choose("nested", 0, 1);
  noThrow("building or running a normalizer threw", [&] {
    auto z = fromJson(sequence("normalizers", m, k, un, nested), with_normalizer);
    CHECK(z != nullptr, "no normalizer");
    if (z) sameNorm(*z, t, [&](RT r) {
      for (int i = 0; i < 3; i++) { int x = orderOf(k, i); r = x == 0 ? refReplaceText(r, {'a'}, {'b', ' '}) : x == 1 ? refReplaceText(r, {'b'}, {'a', 0xE9}) : refStrip(r, true, true); }
      return r;
    });
    REACH("sequence");
  });
}
// ---------------------------------------------------------------- pre-tokenizers
static void samePieces(const PreTokenizedString &p, const Text &t, const RPieces &w) {
  bool ok = p.splits.size() == w.size();
  CHECK(ok, "a pre-tokenizer built from JSON does not follow its fields");
  for (size_t i = 0; ok && i < w.size(); i++) {
    obs(p.splits[i].normalized);
    CHECK(sameStr(p.splits[i].normalized, sub(t, w[i].a, w[i].b)), "a pre-tokenizer built from JSON does not follow its fields");
  }
}
ENTRY(c18_split) {
  Vary v(3);
  int pat = v(0, 4, 0), beh = v(1, 4, 1), inv = v(2, 2, 0), order = choose("order", 0, 2);
  static const char *PAT[] = {"\" \"", "\"\\\\s+\"", "\"\\u0061\"", "\"\\\"\"", "\"\\u00e9\""};
  static const char *BEH[] = {"\"Removed\"", "\"Isolated\"", "\"MergedWithPrevious\"", "\"MergedWithNext\"", "\"Contiguous\""};
  static const Match M[] = {[](const Text &t, int i, int) { return one(t[i] == ' '); }, [](const Text &t, int i, int e) { return runOf(t, i, e, ws); }, [](const Text &t, int i, int) { return one(t[i] == 'a'); }, [](const Text &t, int i, int) { return one(t[i] == '"'); }, [](const Text &t, int i, int) { return one(t[i] == 0xE9); }};
  std::string js = object({{"type", "\"Split\""}, {"pattern", std::string("{\"Regex\":") + PAT[pat] + "}"}, {"behavior", BEH[beh]}, {"invert", TRI(inv)}}, order);
  Text t = pat == 0 || pat == 2 ? symText("n", 1, 3, {'a', ' '}) : pat == 1 ? Text{'a', ' ', ' ', 'b'} : Text{'a', '"', 0xE9, 'b'};
  noThrow("building or running a pre-tokenizer threw", [&] {
    auto z = fromJson(js, with_pre_tokenizer);
    CHECK(z != nullptr, "no pre-tokenizer");
    if (z) samePieces(z->pre_tokenize(PreTokenizedString(NormalizedString(toW(t)))), t, refSplit(t, {{0, (int)t.size(), false}}, M[pat], beh, inv == 2));
    REACH("pre-tokenizer");
  });
}
ENTRY(c18_bytelevel) {
  int pfx = choose("add_prefix_space", 0, 2), rx = choose("use_regex", 0, 2), order = choose("order", 0, 2);
  std::string js = object({{"type", "\"ByteLevel\""}, {"add_prefix_space", TRI(pfx)}, {"trim_offsets", "true"}, {"use_regex", TRI(rx)}}, order);
  Text t = symText("n", 1, 3, {'a', ' ', 0xE9}), full = t;
  noThrow("building or running a pre-tokenizer threw", [&] {
    auto z = fromJson(js, with_pre_tokenizer);
    CHECK(z != nullptr, "no pre-tokenizer");
    if (!z) return;
    PreTokenizedString p = z->pre_tokenize(PreTokenizedString(NormalizedString(toW(t))));
    if (pfx == 2 && t[0] != ' ') full.insert(full.begin(), ' ');
    RPieces w = {{0, (int)full.size(), false}};
    if (rx == 2) w = refSplit(full, w, gpt2, ISO, false);
    bool ok = p.splits.size() == w.size();
    CHECK(ok, "a pre-tokenizer built from JSON does not follow its fields");
    for (size_t i = 0; ok && i < w.size(); i++) {
      std::string bytes = sub(full, w[i].a, w[i].b);
      for (char &c : bytes) c = (char)__sym_concretize((unsigned char)c);
      CHECK(sameStr(p.splits[i].normalized, refByteLevel(bytes)), "a pre-tokenizer built from JSON does not follow its fields");
    }
    REACH("pre-tokenizer");
  });
}
ENTRY(c18_pre_sequence) {
  int k = choose("order", 0, 5), un = choose("unsupported", 0, NUNS);
  std::vector<std::string> m = {"{\"type\":\"Split\",\"pattern\":{\"Regex\":\"ab\"},\"behavior\":\"Isolated\",\"invert\":false}", "{\"type\":\"Split\",\"pattern\":{\"Regex\":\"b\"},\"behavior\":\"MergedWithNext\",\"invert\":false}", "{\"type\":\"BertPreTokenizer\"}"};
  Text t = {'a', symPick("c", {'a', 'b', '!'}), symPick("c", {'b', ' '}), symPick("c", {'b', '!'})};
  bool nested = choose("nested", 0, 1);
  noThrow("building or running a pre-tokenizer threw", [&] {
    auto z = fromJson(sequence("pretokenizers", m, k, un, nested), with_pre_tokenizer);
    CHECK(z != nullptr, "no pre-tokenizer");
    if (!z) return;
    RPieces w = {{0, (int)t.size(), false}};
    PreTokenizedString p = z->pre_tokenize(PreTokenizedString(NormalizedString(toW(t))));
    for (int i = 0; i < 3; i++) {
      int x = orderOf(k, i);
      if (x == 2) w = refBertPre(t, w);
      else w = refSplit(t, w, [=](const Text &t, int i, int e) { return x == 1 ? one(t[i] == 'b') : t[i] == 'a' && i + 1 < e && t[i + 1] == 'b' ? 2 : 0; }, x == 1 ? NEXT : ISO, false);
    }
    samePieces(p, t, w);
    REACH("sequence");
  });
}
// ---------------------------------------------------------------- decoders
static void decoded(const std::string &js, const std::vector<std::string> &t, const std::vector<std::string> &w) {
  noThrow("building or running a decoder threw", [&] {
    auto d = fromJson(js, with_decoder);
    CHECK(d != nullptr, "no decoder");
    if (!d) return;
    auto r = d->decode_chain(t);
    obs(r);
    CHECK(r == w, "a decoder built from JSON does not follow its fields");
    REACH("decoder");
  });
}
ENTRY(c18_decoder) {
  int kind = choose("kind", 0, 5), order = choose("order", 0, 2);
  std::string ab = "a/\n\"\\\xC3\xA9\xF0\x9F\x98\xA0\xE4\xB8\x96";
  if (kind == 0) {
    int p = choose("prefix", 1, NSTR - 2), c = choose("cleanup", 0, 2);
    std::string v = STR[p].val, y = c == 2 ? "." : " .";
    decoded(object({{"type", "\"WordPiece\""}, {"prefix", STR[p].js}, {"cleanup", TRI(c)}}, order), {v + "x", v + "y", "z", "."}, {v + "x", "y", " z", y});
  }
  if (kind == 1) {
    int a = choose("start", 0, 3), b = choose("stop", 0, 3), c = choose("content", 1, NSTR - 2);
    std::string v = STR[c].val, s = v + v + v, one = s + "x" + s, w = one.substr((a ? a - 1 : 0) * v.size());
    static const char *N[] = {"null", "0", "1", "2"};
    w.resize(w.size() - (b ? b - 1 : 0) * v.size());
    decoded(object({{"type", "\"Strip\""}, {"content", STR[c].js}, {"start", N[a]}, {"stop", N[b]}}, order), {one, "xyx"}, {w, "xyx"});
  }
  if (kind == 2) {
    int a = choose("pattern", 0, NSTR - 1), b = choose("content", 0, NSTR - 1);
    std::string p = STR[a].val;
    decoded(object({{"type", "\"Replace\""}, {"pattern", a ? object({{"String", STR[a].js}}, 0) : "null"}, {"content", STR[b].js}}, order), {ab, "x"}, {p.empty() ? ab : refReplace(ab, p, STR[b].val), "x"});
  }
  if (kind == 3) decoded(object({{"type", "\"ByteFallback\""}}, 0), {"<0x41>", "b"}, {"A", "b"});
  if (kind == 4) decoded(object({{"type", "\"Fuse\""}}, 0), {"<0x41>", "b"}, {"<0x41>b"});
  if (kind == 5) decoded(object({{"type", "\"ByteLevel\""}, {"add_prefix_space", TRI(order)}}, order), {"\xC4\xA0" "a", "\xC3\x83", "\xC2\xA9"}, {" a\xC3\xA9"});
}
ENTRY(c18_dec_sequence) {
  int k = choose("order", 0, 5), un = choose("unsupported", 0, NUNS);
  std::vector<std::string> m = {"{\"type\":\"Replace\",\"pattern\":{\"String\":\"ab\"},\"content\":\"b\\u0061\"}", "{\"type\":\"Fuse\"}", "{\"type\":\"Strip\",\"content\":\"b\",\"start\":1,\"stop\":1}"};
  std::vector<std::string> t = {choose("t", 0, 1) ? "ab" : "ba", choose("t", 0, 1) ? "b" : "aab"}, w = t;
  for (int i = 0; i < 3; i++) {
    int x = orderOf(k, i);
    if (x == 1) { std::string s; for (auto &y : w) s += y; w = {s}; }
    else for (auto &y : w) {
      if (x == 0) y = refReplace(y, "ab", "ba");
      else { if (!y.empty() && y[0] == 'b') y = y.substr(1); if (!y.empty() && y.back() == 'b') y.pop_back(); }
    }
  }
  decoded(sequence("decoders", m, k, un, choose("nested", 0, 1)), t, w);
}
// ---------------------------------------------------------------- post-processors
static Encoding plain(int n) {
  Encoding e;
  for (int i = 0; i < n; i++) {
    e.ids.push_back(50 + i); e.type_ids.push_back(0); e.tokens.push_back(i ? "\xC4\xA0z\xC4\xA0" : "\xC4\xA0y\xC4\xA0"); e.words.push_back(i); e.offsets.push_back({4 * i, 4 * i + 3});
    e.special_tokens_mask.push_back(0); e.attention_mask.push_back(1);
  }
  return e;
}
static void processed(const std::string &js, int n, bool add, const Encoding &w) {
  noThrow("building or running a post-processor threw", [&] {
    auto p = fromJson(js, with_post_processor);
    CHECK(p != nullptr, "no post-processor");
    if (!p) return;
    Encoding r = p->process(plain(n), add);
    obsEnc(r);
    CHECK(sameEnc(r, w, 0, (int)w.ids.size()), "a post-processor built from JSON does not follow its fields");
    REACH("post-processor");
  });
}
static void special(Encoding &w, int id, const std::string &tok, int type) {
  w.ids.push_back(id); w.type_ids.push_back(type); w.tokens.push_back(tok); w.words.push_back(std::nullopt); w.offsets.push_back({0, 0}); w.special_tokens_mask.push_back(1); w.attention_mask.push_back(1);
}
ENTRY(c18_template) {
  int order = choose("order", 0, 2), inner = choose("inner order", 0, 2), id = choose("id", 1, NSTR - 2), tok = choose("token", 0, 2), pair = choose("pair", 0, 2), n = choose("n", 0, 2), nul = choose("null", 0, 2);
  bool add = choose("add_special_tokens", 0, 1);
  static const char *TJ[] = {"\"[S]\"", "\"\\u00e9\\\"\"", "\"\\\\\""}, *TV[] = {"[S]", "\xC3\xA9\"", "\\"};
  std::string sj = STR[id].js, key = sj.substr(1, sj.size() - 2);
  std::string seq = "{\"Sequence\":" + object({{"id", "\"A\""}, {"type_id", "3"}}, inner) + "}", sp = "{\"SpecialToken\":" + object({{"id", STR[id].js}, {"type_id", "5"}}, inner) + "}";
  std::string js = object({{"type", "\"TemplateProcessing\""}, {"single", nul == 1 ? "[" + seq + "]" : "[" + sp + "," + seq + "," + sp + "]"}, {"pair", pair == 0 ? "null" : pair == 1 ? "[]" : "[" + seq + "," + sp + "]"},
                           {"special_tokens", nul == 1 ? "null" : "{" + std::string(nul == 2 ? "\"other\":{\"id\":\"other\",\"ids\":[1],\"tokens\":[\"other\"]}," : "") + "\"" + key + "\":" + object({{"id", STR[id].js}, {"ids", "[77,78]"}, {"tokens", std::string("[") + TJ[tok] + ",\"q\"]"}}, inner) + "}"}}, order);
  Encoding w, e = plain(n);
  if (add && nul != 1) { special(w, 77, TV[tok], 5); special(w, 78, "q", 5); }
  for (int i = 0; i < n; i++) {
    w.ids.push_back(e.ids[i]); w.type_ids.push_back(3); w.tokens.push_back(e.tokens[i]); w.words.push_back(e.words[i]); w.offsets.push_back(e.offsets[i]); w.special_tokens_mask.push_back(0); w.attention_mask.push_back(1);
  }
  if (add && nul != 1) { special(w, 77, TV[tok], 5); special(w, 78, "q", 5); }
  processed(js, n, add, w);
}
static Encoding trimmed(int n, bool pfx) {
  Encoding w = plain(n);
  for (int i = 0; i < n; i++) w.offsets[i] = {w.offsets[i].first + (pfx && i == 0 ? 0 : 1), w.offsets[i].second - 1};
  return w;
}
ENTRY(c18_trim) {
  int pfx = choose("add_prefix_space", 0, 2), tr = choose("trim_offsets", 0, 2), order = choose("order", 0, 2), n = choose("n", 0, 2);
  std::string js = object({{"type", "\"ByteLevel\""}, {"add_prefix_space", TRI(pfx)}, {"trim_offsets", TRI(tr)}, {"use_regex", "true"}}, order);
  processed(js, n, choose("add_special_tokens", 0, 1), tr == 2 ? trimmed(n, pfx == 2) : plain(n));
}
ENTRY(c18_post_sequence) {
  int k = choose("order", 0, 5), un = choose("unsupported", 0, NUNS), n = choose("n", 1, 2);
  auto tmpl = [](const char *id, int v) { return std::string("{\"type\":\"TemplateProcessing\",\"single\":[{\"SpecialToken\":{\"id\":\"") + id + "\",\"type_id\":" + std::to_string(v) + "}},{\"Sequence\":{\"id\":\"A\",\"type_id\":" + std::to_string(v) + "}}],\"pair\":[],\"special_tokens\":{\"" + id + "\":{\"id\":\"" + id + "\",\"ids\":[" + std::to_string(v) + "],\"tokens\":[\"" + id + "\"]}}}"; };
  std::vector<std::string> m = {tmpl("x", 61), tmpl("y", 62), "{\"type\":\"ByteLevel\",\"add_prefix_space\":true,\"trim_offsets\":true,\"use_regex\":true}"};
  Encoding w;
  int last = 0;
  for (int i = 2; i >= 0; i--) {
    int x = orderOf(k, i);
    if (x == 2) continue;
    if (!last) last = 61 + x;
    special(w, 61 + x, x ? "y" : "x", last);
  }
  bool first = k == 4 || k == 5;  // trimmed before tokens were placed in front
  Encoding e = trimmed(n, true);
  (void)first;
  for (int i = 0; i < n; i++) {
    w.ids.push_back(e.ids[i]); w.type_ids.push_back(last); w.tokens.push_back(e.tokens[i]); w.words.push_back(e.words[i]); w.offsets.push_back(e.offsets[i]); w.special_tokens_mask.push_back(0); w.attention_mask.push_back(1);
  }
  processed(sequence("processors", m, k, un, choose("nested", 0, 1)), n, true, w);
}
// ---------------------------------------------------------------- unsupported types yield no component
ENTRY(c18_unsupported) {
  int k = choose("component", 0, 4), un = choose("type", 0, NUNS - 1);
  std::string js = "{\"type\":" + std::string(UNSUPPORTED[un]) + ",\"vocab\":{}}";
  Text t = symText("n", 0, 2, {'A', ' '});
  noThrow("building with an unsupported type threw", [&] {
    bool none = false;
    if (k == 0) none = fromJson(js, with_model) == nullptr;
    if (k == 1) none = fromJson(js, with_normalizer) == nullptr;
    if (k == 2) none = fromJson(js, with_pre_tokenizer) == nullptr;
    if (k == 3) none = fromJson(js, with_post_processor) == nullptr;
    if (k == 4) none = fromJson(js, with_decoder) == nullptr;
    CHECK(none, "an unsupported type yields a component");
    Config c;
    c.model = "{\"type\":\"WordPiece\",\"unk_token\":\"U\",\"continuing_subword_prefix\":\"\",\"max_input_chars_per_word\":9,\"vocab\":{\"A\":1,\" \":2}}";
    Tokenizer want("", c.json());
    (k == 1 ? c.norm : k == 2 ? c.pre : k == 3 ? c.post : c.dec) = js;
    if (k == 0) c.model = js;
    Tokenizer got("", c.json());
    Encoding e = got.encode(toW(t), true), w = want.encode(toW(t), true);
    CHECK(k == 0 ? e.ids.empty() : sameEnc(e, w, 0, (int)w.ids.size()), "an unsupported component changes an encoding");
    CHECK(sameStr(got.decode({1, 2, 1}, false), k ? "A A" : ""), "an unsupported component changes decoding");
    REACH("unsupported");
  });
}
// ---------------------------------------------------------------- truncation and padding
ENTRY(c18_truncation) {
  Vary v(4);
  int dir = v(0, 1, 0), st = v(1, 1, 0), mx = v(2, 5, 3), sd = v(3, 3, 2), order = choose("order", 0, 2), n = choose("n", 0, TIER ? 6 : 4);
  static const char *N[] = {"null", "0", "1", "2", "3", "5"};
  static const int V[] = {0, 0, 1, 2, 3, 5};
  int m = V[mx], s = V[sd];
  ASSUME(s < m || m == 0);
  std::string js = object({{"direction", dir ? "\"Left\"" : "\"Right\""}, {"max_length", N[mx]}, {"strategy", st ? "\"OnlyFirst\"" : "\"LongestFirst\""}, {"stride", N[sd]}}, order);
  noThrow("building or truncating threw", [&] {
    auto z = fromJson(js, with_truncation);
    CHECK(z != nullptr, "no truncation");
    if (!z) return;
    Encoding e = plain(n), r = z->truncate_encoding(e);
    obsEnc(r);
    if (m == 0) { CHECK(r.ids.empty(), "truncation built from JSON does not follow its fields"); return; }
    size_t at = 0;
    for (int k = 0;; k++) {
      int a = k * (m - s), b = a + m < n ? a + m : n;
      const Encoding *p = at == 0 ? &r : at <= r.overflowing.size() ? &r.overflowing[at - 1] : nullptr;
      CHECK(p && sameEnc(*p, e, dir ? n - b : a, dir ? n - a : b), "truncation built from JSON does not follow its fields");
      at++;
      if (b == n || !p) break;
    }
    CHECK(r.overflowing.size() + 1 == at, "truncation built from JSON does not follow its fields");
    REACH("truncation");
  });
}
ENTRY(c18_padding) {
  Vary v(6);
  int dir = v(0, 1, 0), st = v(1, 4, 3), id = v(2, 2, 1), ty = v(3, 2, 1), tok = v(4, NSTR - 1, 3), mul = v(5, 3, 0), order = choose("order", 0, 2), n = choose("n", 0, 3);
  static const char *S[] = {"\"BatchLongest\"", "{\"Fixed\":0}", "{\"Fixed\":2}", "{\"Fixed\":5}", "{ \"Fixed\" : 4 }"}, *N[] = {"null", "7", "2147483647"}, *M[] = {"null", "0", "3", "4"};
  static const int SV[] = {-1, 0, 2, 5, 4}, NV[] = {0, 7, 2147483647}, MV[] = {0, 0, 3, 4};
  int target = SV[st] < 0 ? n : SV[st];
  if (MV[mul]) target = (target + MV[mul] - 1) / MV[mul] * MV[mul];
  if (target < n) target = n;
  std::string js = object({{"strategy", S[st]}, {"direction", dir ? "\"Left\"" : "\"Right\""}, {"pad_to_multiple_of", M[mul]}, {"pad_id", N[id]}, {"pad_type_id", N[ty]}, {"pad_token", STR[tok].js}}, order);
  noThrow("building or padding threw", [&] {
    auto z = fromJson(js, with_padding);
    CHECK(z != nullptr, "no padding");
    if (!z) return;
    Encoding e = plain(n), r = z->pad_encoding(e);
    obsEnc(r);
    bool ok = lengthsAgree(r) && (int)r.ids.size() == target;
    CHECK(ok, "padding built from JSON does not follow its fields");
    if (!ok) return;
    int from = dir ? target - n : 0;
    CHECK(sameSlice(r, from, e, 0, n), "padding built from JSON does not follow its fields");
    for (int i = 0; i < target; i++)
      if (i < from || i >= from + n) CHECK((r.ids[i] == NV[id]) & (r.type_ids[i] == NV[ty]) & sameStr(r.tokens[i], STR[tok].val), "padding built from JSON does not follow its fields");
    REACH("padding");
  });
}
// ---------------------------------------------------------------- added tokens
ENTRY(c18_added) {  // every flag true, false or left out
  int order = choose("order", 0, 2), c = choose("content", 0, 2);
  int f[5];
  int which = choose("varied flags", 0, 2);  // two flags vary freely, the others one base value
  for (int i = 0; i < 5; i++) f[i] = i == which || i == which + 1 || (which == 2 && i == 4) ? choose("flag", 0, 2) : choose("base", 0, 0) + 1;
  static const char *CJ[] = {"\"[X]\"", "\"\\u00c9\\\"\"", "\"\\ud83d\\ude20\\\\\""};
  static const Text CV[] = {{'[', 'X', ']'}, {0xC9, '"'}, {0x1F620, '\\'}};
  static const char *NAME[] = {"single_word", "lstrip", "rstrip", "normalized", "special"};
  Fields fs = {{"id", "9"}, {"content", CJ[c]}};
  for (int i = 0; i < 5; i++) if (f[i]) fs.push_back({NAME[i], TRI(f[i])});
  Pipe p;
  p.added = {{CV[c], f[0] == 2, f[1] == 2, f[2] == 2, f[3] != 1, f[4] == 2, 9}};
  p.hasAdded = true;
  p.nf = [](const RT &r) { return refBert(r, false, false, true, true); };
  p.model = [](const Text &t) { Toks r; if (!t.empty()) r = {{3, "U", 0, (int)t.size()}}; return r; };
  Config g;
  g.added = "[" + object(fs, order) + "]";
  g.norm = "{\"type\":\"BertNormalizer\",\"clean_text\":false,\"handle_chinese_chars\":false,\"strip_accents\":true,\"lowercase\":true}";
  g.model = "{\"type\":\"WordPiece\",\"unk_token\":\"U\",\"continuing_subword_prefix\":\"##\",\"max_input_chars_per_word\":99,\"vocab\":{\"U\":3}}";
  Text t;
  int sh = choose("text", 0, 3);
  if (sh == 1) t.push_back('x');
  if (sh >= 2) t.push_back(' ');
  if (sh == 3) t.insert(t.end(), CV[c].begin(), CV[c].end());
  else for (uint32_t x : CV[c]) t.push_back(x == 'X' ? 'x' : x == 0xC9 ? 'e' : x);
  if (sh >= 2) t.push_back(' ');
  t.push_back('a');
  noThrow("building or encoding threw", [&] {
    Tokenizer k("", g.json());
    Encoding e = k.encode(toW(t), true);
    obsEnc(e);
    ETokens w = refEncode(t, p);
    // the vocabulary has one entry; a new token's id is the first free one
    bool ok = e.ids.size() == w.size();
    CHECK(ok, "an added token does not follow its fields");
    int id = -1;
    for (size_t i = 0; ok && i < w.size(); i++) {
      if (w[i].id == 9) { CHECK(e.ids[i] != 3 && (id < 0 || id == e.ids[i]), "an added token does not follow its fields"); id = e.ids[i]; }
      else CHECK(e.ids[i] == 3, "an added token does not follow its fields");
      CHECK((e.offsets[i].first == w[i].a) & (e.offsets[i].second == w[i].b), "an added token does not follow its fields");
    }
    if (ok && id >= 0) {
      CHECK(sameStr(k.decode({id, 3}, true), (f[4] == 2 ? "" : toU8(CV[c])) + "U"), "an added token does not follow its fields");
      REACH("added token");
    }
  });
}
// ---------------------------------------------------------------- the whole configuration
static Fields sections() {
  return {{"version", "\"1.0\""}, {"truncation", "{\"direction\":\"Right\",\"max_length\":2,\"strategy\":\"LongestFirst\",\"stride\":0}"},
          {"padding", "{\"strategy\":{\"Fixed\":4},\"direction\":\"Right\",\"pad_to_multiple_of\":null,\"pad_id\":0,\"pad_type_id\":0,\"pad_token\":\"P\"}"},
          {"added_tokens", "[{\"id\":5,\"content\":\"[X]\",\"single_word\":false,\"lstrip\":false,\"rstrip\":false,\"normalized\":false,\"special\":true}]"},
          {"normalizer", "{\"type\":\"BertNormalizer\",\"clean_text\":true,\"handle_chinese_chars\":true,\"strip_accents\":null,\"lowercase\":true}"},
          {"pre_tokenizer", "{\"type\":\"BertPreTokenizer\"}"},
          {"post_processor", "{\"type\":\"TemplateProcessing\",\"single\":[{\"SpecialToken\":{\"id\":\"[X]\",\"type_id\":0}},{\"Sequence\":{\"id\":\"A\",\"type_id\":0}}],\"pair\":[],\"special_tokens\":{\"[X]\":{\"id\":\"[X]\",\"ids\":[5],\"tokens\":[\"[X]\"]}}}"},
          {"decoder", "{\"type\":\"WordPiece\",\"prefix\":\"##\",\"cleanup\":true}"},
          {"model", "{\"type\":\"WordPiece\",\"unk_token\":\"[UNK]\",\"continuing_subword_prefix\":\"##\",\"max_input_chars_per_word\":100,\"vocab\":{\"[UNK]\":0,\"a\":1,\"##b\":2,\"b\":3,\".\":4}}"}};
}
// what the pipeline of sections() computes, with any of its sections left null
static void wanted(const Text &t, int off, Encoding &e, std::string &dec) {
  static const Entries W = {{"[UNK]", 0}, {"a", 1}, {"##b", 2}, {"b", 3}, {".", 4}};
  auto on = [&](int k) { return off != k; };
  Pipe p;
  if (on(4)) p.nf = [](const RT &r) { return refBert(r, true, true, false, true); };
  if (on(5)) p.pre = BERTPRE;
  p.model = [=](const Text &x) { return on(8) ? refWordPiece(x, W, "[UNK]", 0, 100, "##") : Toks(); };
  p.hasAdded = on(3);
  if (on(3)) p.added = {{{'[', 'X', ']'}, false, false, false, false, true, on(8) ? 5 : 0}};
  ETokens all = refEncode(t, p);
  if (on(1) && all.size() > 2) all.resize(2);
  if (on(6)) special(e, 5, "[X]", 0);
  for (auto &k : all) { e.ids.push_back(k.id); e.type_ids.push_back(0); e.tokens.push_back(k.v); e.words.push_back(k.word); e.offsets.push_back({k.a, k.b}); e.special_tokens_mask.push_back(0); e.attention_mask.push_back(1); }
  while (on(2) && e.ids.size() < 4) { special(e, 0, "P", 0); e.words.back() = 0; e.attention_mask.back() = 0; }
  // ids 5 1 2 4 decoded without special tokens
  dec = !on(8) ? "" : on(7) ? "ab." : "a##b.";
  if (on(8) && !on(7)) dec = "a##b.";
}
static void follows(Tokenizer &k, const Text &t, int off) {
  Encoding w, e = k.encode(toW(t), true);
  std::string d;
  wanted(t, off, w, d);
  obsEnc(e);
  CHECK(sameEnc(e, w, 0, (int)w.ids.size()), "a tokenizer does not follow its configuration");
  CHECK(sameStr(k.decode({5, 1, 2, 4}, true), d), "a tokenizer does not follow its configuration");
  REACH("configuration");
}
ENTRY(c18_sections) {  // in any order, each one null or not
  int order = choose("order", 0, 8), off = choose("null section", 0, 8);
  Fields s = sections();
  if (off) s[off].second = "null";
  Text t = symText("n", 0, 2, {'a', 'B', 0x4E16, '.'});
  if (choose("added", 0, 1)) for (uint32_t c : {'[', 'X', ']'}) t.push_back(c);
  noThrow("building or encoding threw", [&] {
    Tokenizer k("", object(s, order));
    follows(k, t, off);
  });
}
ENTRY(c18_pretty) {  // white space between the tokens of the JSON text, extra sections
  std::string js = object(sections(), 0), o;
  static const char *W[] = {" ", "\n\t", "\r\n  "};
  const char *w = W[choose("white space", 0, 2)];
  bool in = false;
  for (size_t i = 0; i < js.size(); i++) {
    char c = js[i];
    if (c == '"') in = !in;
    if (!in && (c == '}' || c == ']')) o += w;
    o += c;
    if (!in && (c == '{' || c == '[' || c == ',' || c == ':')) o += w;
  }
  int ex = choose("extra", 0, 2);
  if (ex) o = (ex == 1 ? "{\"meta\":{\"type\":\"BPE\",\"truncation\":[1,2,{\"x\":null}]}," : "{\"extra\":[\"}\",\"\\\"\"],") + o.substr(1);
  if (choose("ends", 0, 1)) o = w + o + w;
  Text t = symText("n", 1, 2, {'a', 'B', '.'});
  noThrow("building or encoding threw", [&] {
    Tokenizer k("", o);
    follows(k, t, 0);
  });
}
static void mustThrow(const std::string &js, const char *msg) {
  bool std_ = false, other = false;
  try { Tokenizer k("", js); }
  catch (const std::exception &) { std_ = true; }
  catch (...) { other = true; }
  CHECK(!other, "something else than a standard exception was thrown");
  CHECK(std_, msg);
  REACH(std_ ? "thrown" : "not thrown");
}
ENTRY(c18_missing_section) {
  int off = choose("section", 1, 8), order = choose("order", 0, 2);
  Fields s = sections();
  for (int k = choose("others null", 0, 1), i = 1; i < 9; i++) if (k) s[i].second = "null";
  s.erase(s.begin() + off);
  mustThrow(object(s, order), "a configuration without a required section was accepted");
}
ENTRY(c18_wrong_section) {  // a section of a kind it cannot have
  int off = choose("section", 1, 8), k = choose("value", 0, 5);
  static const char *V[] = {"1", "\"x\"", "true", "[]", "{}", "[1]"};
  if (off == 3) ASSUME(k != 3);
  Fields s = sections();
  s[off].second = V[k];
  mustThrow(object(s, 0), "a section of the wrong kind was accepted");
}
ENTRY(c18_wrong_field) {  // a field of a kind it cannot have
  struct F { int sec; const char *from, *to; };
  static const F f[] = {{1, "\"Right\"", "1"}, {1, ":2", ":\"2\""}, {1, "\"LongestFirst\"", "[]"}, {1, ":0", ":0.5"}, {2, "{\"Fixed\":4}", "4"}, {2, "4", "\"4\""}, {2, "\"P\"", "5"}, {2, "\"pad_id\":0", "\"pad_id\":true"},
                        {3, "5", "\"5\""}, {3, "\"[X]\"", "null"}, {3, "false", "0"}, {3, "true", "\"true\""}, {3, "{\"id\":5,", "7,{\"id\":5,"}, {4, "true", "1"}, {4, "\"BertNormalizer\"", "3"}, {4, "\"BertNormalizer\"", "null"},
                        {5, "\"BertPreTokenizer\"", "{}"}, {6, "[{", "{\"x\":{"}, {6, "\"type_id\":0", "\"type_id\":\"0\""}, {6, "[5]", "[\"5\"]"}, {6, "[5]", "5"}, {6, "\"TemplateProcessing\"", "[]"}, {7, "\"##\"", "2"}, {7, "true", "\"yes\""},
                        {8, "\"[UNK]\",", "7,"}, {8, "100", "\"100\""}, {8, ":1", ":\"1\""}, {8, ":1", ":1.5"}, {8, ":1", ":null"}, {8, "\"WordPiece\"", "true"}, {8, "{\"[UNK]\":0", "[{\"[UNK]\":0"}};
  auto &x = f[choose("field", 0, (int)(sizeof f / sizeof *f) - 1)];
  Fields s = sections();
  std::string &v = s[x.sec].second;
  size_t at = v.find(x.from);
  CHECK(at != std::string::npos, "harness: field not found");
  if (at == std::string::npos) return;
  v = v.substr(0, at) + x.to + v.substr(at + std::string(x.from).size());
  mustThrow(object(s, 0), "a field of the wrong kind was accepted");
}
static std::string small() {
  return "{\"version\":\"1.0\",\"truncation\":null,\"padding\":null,\"added_tokens\":[],\"normalizer\":null,\"pre_tokenizer\":{\"type\":\"BertPreTokenizer\"},\"post_processor\":null,\"decoder\":null,\"model\":{\"type\":\"WordPiece\",\"unk_token\":\"[UNK]\",\"continuing_subword_prefix\":\"##\",\"max_input_chars_per_word\":100,\"vocab\":{\"[UNK]\":0,\"he\":1,\"##llo\":2}}}";
}
ENTRY(c18_cut) {
  std::string js = small();
  int n = choose("length", 1, (int)js.size() - 1);
  mustThrow(js.substr(0, n), "a configuration that ends early was accepted");
}
ENTRY(c18_removed) {  // one structural character left out
  std::string js = small(), o = js;
  std::vector<int> at;
  bool in = false;
  for (size_t i = 0; i < js.size(); i++) {
    if (js[i] == '"') in = !in;
    else if (!in && std::string("{}[]:,").find(js[i]) != std::string::npos) at.push_back((int)i);
  }
  o.erase(at[choose("character", 0, (int)at.size() - 1)], 1);
  mustThrow(o, "a malformed configuration was accepted");
}
ENTRY(c18_empty) {
  static const char *J[] = {"", " ", "null", "[]", "1", "\"x\"", "{}", "x", "{", "}", "{\"a\":1}"};
  mustThrow(J[choose("text", 0, 10)], "a malformed configuration was accepted");
}
// ---------------------------------------------------------------- from a file
static std::string putFile(const std::string &js) {
#ifdef SYM_JSON_MODEL
  simdjson::symFile() = {"/dir/tokenizer.json", js};
  return "/dir";
#else
  char d[] = "/tmp/vp_cfg_XXXXXX";
  if (!mkdtemp(d)) return "";
  std::ofstream(std::string(d) + "/tokenizer.json") << js;
  return d;
#endif
}
static void dropFile(const std::string &d) {
#ifndef SYM_JSON_MODEL
  unlink((d + "/tokenizer.json").c_str());
  rmdir(d.c_str());
#endif
  (void)d;
}
ENTRY(c18_file) {
  std::string d = putFile(object(sections(), choose("order", 0, 2)));
  int both = choose("config given too", 0, 1);
  Text t = symText("n", 0, 2, {'a', 'B', 0x4E16, '.'});
  std::unique_ptr<Tokenizer> k;
  bool bad = false;
  try { k = std::make_unique<Tokenizer>(d, both ? small() : std::string()); } catch (...) { bad = true; }
  dropFile(d);
  CHECK(!bad, "building from a file threw");
  if (!bad) noThrow("encoding threw", [&] { follows(*k, t, 0); });
}
ENTRY(c18_no_file) {
  int cut = choose("malformed", 0, 1);
  std::string d = putFile(cut ? small().substr(0, 50) : small()), asked = cut ? d : d + "x";
  bool std_ = false, other = false;
  try { Tokenizer k(asked); } catch (const std::exception &) { std_ = true; } catch (...) { other = true; }
  dropFile(d);
  CHECK(std_ && !other, "a configuration file that cannot be read does not raise a standard exception");
  REACH("no file");
}
