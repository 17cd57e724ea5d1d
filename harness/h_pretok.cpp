// C13 pre-tokenizers
#include "js.h"
#include "refpre.h"
#include "tokenizers/common.h"
#include "tokenizers/normalizer.h"
#include "tokenizers/pre_tokenizer.h"
#ifndef TIER
#define TIER 0
#endif
// a pre-tokenized text with one or two pieces, some already tokenized
static PreTokenizedString start(const Text &t, RPieces &ps) {
  PreTokenizedString s{NormalizedString(toW(t))};
  ps = {{0, (int)t.size(), false}};
  if (t.size() > 1 && choose("cut", 0, 1)) {
    int k = choose("at", 1, (int)t.size() - 1), tok = choose("tokenized", 0, 2);
    ps = {{0, k, tok == 1}, {k, (int)t.size(), tok == 2}};
    s.splits.clear();
    for (auto &p : ps) {
      Split x(sub(t, p.a, p.b), {p.a, p.b});
      if (p.done) x.tokens.push_back(Token(7, x.normalized, x.offsets));
      s.splits.push_back(x);
    }
  }
  return s;
}
static void same(const PreTokenizedString &s, const Text &t, const RPieces &want, bool bytes) {
  obs((uint64_t)s.splits.size());
  for (auto &x : s.splits) { obs(x.normalized); obs((uint64_t)(uint32_t)x.offsets.first); obs((uint64_t)(uint32_t)x.offsets.second); }
  CHECK(sameW(s.normalized.normalized, toW(t)), "the text changed");
  CHECK(s.splits.size() == want.size(), "wrong number of pieces");
  if (s.splits.size() != want.size()) return;
  for (size_t i = 0; i < want.size(); i++) {
    auto &x = s.splits[i];
    CHECK(x.offsets.first == want[i].a && x.offsets.second == want[i].b, "a piece has wrong offsets");
    std::string v = sub(t, want[i].a, want[i].b);
    if (bytes && !want[i].done) v = refByteLevel(v);
    CHECK(sameStr(x.normalized, v), "a piece is not the text at its offsets");
    CHECK(x.tokens.size() == (want[i].done ? 1u : 0u), "tokens of a piece changed");
  }
}
static void bert(const Text &t) {
  RPieces ps;
  PreTokenizedString s = start(t, ps);
  noThrow("BERT pre-tokenizing threw", [&] { s = BertPreTokenizer().pre_tokenize(s); });
  same(s, t, refBertPre(t, ps), false);
  REACH("bert");
}
ENTRY(c13_bert_anychar) { bert({'a', symScalar("c"), '!'}); }
ENTRY(c13_bert_text) { bert(symText("n", 0, TIER ? 4 : 3, {'a', ' ', '!', '$', 0x1F600, 0xA0, 0x301})); }
ENTRY(c13_bert_longer) { bert(symText("n", 4, TIER ? 5 : 4, {'a', ' ', '!', 0x1F600})); }
static const char *BEH[] = {"Removed", "Isolated", "MergedWithPrevious", "MergedWithNext", "Contiguous"};
ENTRY(c13_split) {
  int k = choose("pattern", 0, 5), beh = choose("behavior", 0, 4);
  bool inv = choose("invert", 0, 1);
  static const char *pat[] = {"a", "a+", "\\s+", "ab|b", " ?\\p{L}+", "[^\\s\\p{L}]|ab"};
  Match m[] = {
      [](const Text &t, int i, int) { return one(t[i] == 'a'); },
      [](const Text &t, int i, int e) { int n = 0; while (i + n < e && t[i + n] == 'a') n++; return n; },
      [](const Text &t, int i, int e) { return runOf(t, i, e, ws); },
      [](const Text &t, int i, int e) { return (t[i] == 'a' && i + 1 < e && t[i + 1] == 'b') ? 2 : one(t[i] == 'b'); },
      [](const Text &t, int i, int e) { int s = t[i] == ' ' ? 1 : 0; int n = runOf(t, i + s, e, letter); return n ? n + s : 0; },
      [](const Text &t, int i, int e) { return (!ws(t[i]) && !letter(t[i])) ? 1 : (t[i] == 'a' && i + 1 < e && t[i + 1] == 'b') ? 2 : 0; }};
  Text t = symText("n", 0, TIER ? 4 : 3, {'a', 'b', ' ', 0x1F600});
  RPieces ps;
  PreTokenizedString s = start(t, ps);
  noThrow("Split threw", [&] { s = SplitPreTokenizer(pat[k], BEH[beh], inv).pre_tokenize(s); });
  same(s, t, refSplit(t, ps, m[k], beh, inv), false);
  REACH("split");
}
ENTRY(c13_split_badpattern) {
  static const char *pat[] = {"(", "[a", "*", "a)"};
  int k = choose("pattern", 0, 3);
  bool threw = false;
  try {
    SplitPreTokenizer p(pat[k], "Isolated", false);
    p.pre_tokenize(PreTokenizedString(NormalizedString(L"ab")));
  } catch (const std::exception &) { threw = true; }
  CHECK(threw, "an invalid pattern is accepted");
  REACH("bad pattern");
}
static void byteLevel(const Text &t0, bool withPrefix) {
  RPieces ps;
  PreTokenizedString s = start(t0, ps);
  bool prefix = withPrefix && choose("add_prefix_space", 0, 1), regex = choose("use_regex", 0, 1);
  noThrow("byte-level pre-tokenizing threw", [&] { s = ByteLevelPreTokenizer(prefix, regex).pre_tokenize(s); });
  Text t;
  RPieces q;
  for (auto &p : ps) {
    int a = (int)t.size();
    if (prefix && !p.done && p.a < p.b && !ws(t0[p.a])) t.push_back(' ');
    t.insert(t.end(), t0.begin() + p.a, t0.begin() + p.b);
    q.push_back({a, (int)t.size(), p.done});
  }
  same(s, t, refSplit(t, q, regex ? Match(gpt2) : Match([](const Text &, int, int) { return 0; }), ISO, false), true);
  REACH(regex ? "regex" : "no regex");
}
ENTRY(c13_bytelevel) { byteLevel(symText("n", 0, TIER ? 4 : 3, {'a', ' ', '\'', '1', '!', '\n', 0x1F600}), true); }
ENTRY(c13_bytelevel_contraction) {
  static const std::vector<uint32_t> al = {'s', 't', 'r', 'v', 'e', 'm', 'l', 'd', ' ', 'S'};
  Text t = {'a', '\''};
  int n = choose("n", 0, 3);
  for (int i = 0; i < n; i++) t.push_back(symPick("c", al));
  PreTokenizedString s{NormalizedString(toW(t))};
  noThrow("byte-level pre-tokenizing threw", [&] { s = ByteLevelPreTokenizer(false, true).pre_tokenize(s); });
  same(s, t, refSplit(t, {{0, (int)t.size(), false}}, gpt2, ISO, false), true);
  REACH("contraction");
}
ENTRY(c13_long) {  // long texts, long pieces
  int kind = choose("kind", 0, 3), words = choose("words", 0, 1);
  Text t = longText({16, 17, 65, 130, 257}, {'a', ' ', '!', 0x1F600}, 2);
  if (words) { t.insert(t.begin(), 130, 'b'); t.insert(t.begin() + 70, 20, ' '); }
  PreTokenizedString s{NormalizedString(toW(t))};
  RPieces ps = {{0, (int)t.size(), false}};
  noThrow("pre-tokenizing threw", [&] {
    if (kind == 0) same(BertPreTokenizer().pre_tokenize(s), t, refBertPre(t, ps), false);
    if (kind == 1) same(SplitPreTokenizer("\\s+", "Removed", false).pre_tokenize(s), t, refSplit(t, ps, [](const Text &t, int i, int e) { return runOf(t, i, e, ws); }, 0, false), false);
    if (kind == 2) same(SplitPreTokenizer("a", "MergedWithNext", false).pre_tokenize(s), t, refSplit(t, ps, [](const Text &t, int i, int) { return one(t[i] == 'a'); }, 3, false), false);
    if (kind == 3) same(ByteLevelPreTokenizer(false, true).pre_tokenize(s), t, refSplit(t, ps, gpt2, ISO, false), true);
  });
  REACH("long");
}
// a sequence equals its members applied in order
ENTRY(c13_sequence) {
  static const char *cfg[] = {"{\"type\":\"BertPreTokenizer\"}",
                              "{\"type\":\"Split\",\"pattern\":{\"Regex\":\" \"},\"behavior\":\"Removed\",\"invert\":false}",
                              "{\"type\":\"Split\",\"pattern\":{\"Regex\":\"a\"},\"behavior\":\"Isolated\",\"invert\":false}",
                              "{\"type\":\"ByteLevel\",\"add_prefix_space\":true,\"use_regex\":false}",
                              "{\"type\":\"Metaspace\"}"};
  int n = choose("members", 0, TIER ? 3 : 2);
  std::vector<int> mem;
  std::string js = "{\"type\":\"Sequence\",\"pretokenizers\":[";
  for (int i = 0; i < n; i++) {
    mem.push_back(choose("member", 0, 4));
    js += (i ? "," : "") + std::string(cfg[mem[i]]);
  }
  js += "]}";
  Text t = symText("n", 0, 3, {'a', ' ', '!'});
  RPieces ps;
  PreTokenizedString s = start(t, ps), w = s;
  std::unique_ptr<PreTokenizer> seq = fromJson(js, with_pre_tokenizer);
  CHECK(seq != nullptr, "no sequence was built");
  if (!seq) return;
  noThrow("a sequence threw", [&] { s = seq->pre_tokenize(s); });
  for (int m : mem) {
    auto p = fromJson(cfg[m], with_pre_tokenizer);
    CHECK((p == nullptr) == (m == 4), "a member was not built as configured");
    if (p) w = p->pre_tokenize(w);
  }
  CHECK(sameW(s.normalized.normalized, w.normalized.normalized), "a sequence's text differs from its members in order");
  CHECK(s.splits.size() == w.splits.size(), "a sequence's pieces differ from its members in order");
  if (s.splits.size() != w.splits.size()) return;
  for (size_t i = 0; i < s.splits.size(); i++)
    CHECK(sameStr(s.splits[i].normalized, w.splits[i].normalized) && s.splits[i].offsets == w.splits[i].offsets && s.splits[i].tokens.size() == w.splits[i].tokens.size(), "a sequence's pieces differ from its members in order");
  REACH("sequence");
}
