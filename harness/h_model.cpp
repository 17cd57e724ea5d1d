// C06 WordPiece, C07 BPE merges, C08 BPE unknown and byte-fallback handling
#include "refmodel.h"
#include "tokenizers/common.h"
#include "tokenizers/model.h"
#include "tokenizers/normalizer.h"
#include "tokenizers/pre_tokenizer.h"
#ifndef TIER
#define TIER 0
#endif
static PreTokenizedString input(const Text &t) { return PreTokenizedString(NormalizedString(toW(t))); }
static void obsTok(const std::vector<Token> &r) {
  obs((uint64_t)r.size());
  for (auto &t : r) { obs((uint64_t)(uint32_t)t.id); obs(t.value); obs((uint64_t)(uint32_t)t.offsets.first); obs((uint64_t)(uint32_t)t.offsets.second); }
}
static void same(const std::vector<Token> &r, const Toks &w, const char *msg) {
  obsTok(r);
  bool ok = r.size() == w.size();
  CHECK(ok, msg);
  if (!ok) return;
  for (size_t i = 0; i < w.size(); i++) {
    CHECK((r[i].id == w[i].id) & sameStr(r[i].value, w[i].v), msg);
    CHECK((r[i].offsets.first == w[i].a) & (r[i].offsets.second == w[i].b), "a token's offsets differ from the characters it stands for");
  }
}
template <class M> static std::vector<Token> run(const M &m, const Text &t) {
  std::vector<Token> r;
  noThrow("tokenizing threw", [&] {
    PreTokenizedString p = m.tokenize(input(t));
    if (p.splits.size() == 1) r = p.splits[0].tokens;
    else __sym_fail("the number of pieces changed");
  });
  return r;
}
// ---------------------------------------------------------------- C06
static void wordPiece(const Text &t, const Entries &e, const std::string &pre, int maxChars, bool unkIn, int unkVal, bool ascii = false) {
  Vocab v;
  for (auto &p : e) v.insert(p);
  if (unkIn) v.insert({"[U]", unkVal});
  WordPiece m(v, "[U]", maxChars, pre);
  auto r = run(m, t);
  same(r, refWordPiece(t, e, "[U]", unkIn ? unkVal : 0, maxChars, pre, ascii), "not the greedy longest-match-first segmentation");
  REACH(r.size() > 1 ? "pieces" : r.size() == 1 && r[0].value == "[U]" ? "unknown" : "whole");
}
ENTRY(c06_wordpiece) {  // entries with arbitrary letters
  static const char *PRE[] = {"##", "a"};
  std::string pre = PRE[choose("prefix", 0, TIER ? 1 : 0)];
  int k = choose("entries", 0, TIER ? 3 : 2);
  Entries e;
  for (int i = 0; i < k; i++) {
    std::string s = choose("cont", 0, 1) ? pre : "";
    int l = choose("len", 1, 2);
    for (int j = 0; j < l; j++) s.push_back((char)symPick("v", {'a', 'b'}));
    for (auto &p : e) ASSUME(!(p.first.size() == s.size() && sameStr(p.first, s)));
    e.push_back({s, symInt("id", 0, 0x7fffffff)});
  }
  for (int i = 0; i < k; i++) for (int j = 0; j < i; j++) ASSUME(e[i].second != e[j].second);
  bool unkIn = choose("unk in vocab", 0, 1);
  int uid = unkIn ? symInt("unk id", 0, 0x7fffffff) : 0;
  for (int i = 0; i < k && unkIn; i++) ASSUME(e[i].second != uid);
  int n = choose("n", 0, 4);
  Text t;
  for (int i = 0; i < n; i++) t.push_back(symPick("c", {'a', 'b'}));
  wordPiece(t, e, pre, symInt("max", 0, 0x7fffffff), unkIn, uid);
}
ENTRY(c06_wordpiece_words) {  // a fixed vocabulary with every kind of overlap, longer words, wide characters
  static const std::vector<std::pair<std::string, int>> base = {{"a", 1}, {"ab", 2}, {"##b", 3}, {"##ba", 4}, {"##a", 5}, {"##bab", 6}, {"\xE4\xB8\xAD", 7}, {"##\xF0\x9F\x98\x80", 8}, {"##\xC3\xA9", 9}, {"\xF0\x9F\x98\x80", 10}, {"b##", 11}};
  int drop = choose("dropped", -1, (int)base.size() - 1);
  Entries e;
  for (int i = 0; i < (int)base.size(); i++) if (i != drop) e.push_back(base[i]);
  Text t = symText("n", 0, TIER ? 5 : 4, {'a', 'b', 0x4E2D, 0x1F600, 0xE9, '#'});
  wordPiece(t, e, "##", 100, true, 33);
}
ENTRY(c06_wordpiece_limit) {  // the limit counts characters
  int n = choose("n", 0, 5);
  Text t;
  for (int i = 0; i < n; i++) t.push_back(choose("wide", 0, 1) ? 0x1F600 : 'a');
  wordPiece(t, {{"a", 1}, {"##a", 2}, {"\xF0\x9F\x98\x80", 3}, {"##\xF0\x9F\x98\x80", 4}}, "##", choose("max", 0, 6), true, 9);
}
ENTRY(c06_prefix) {  // continuation prefixes of no, one or more characters
  static const char *PRE[] = {"", "#", "\xE2\x96\x81", "##", "a", "-->"};
  std::string pre = PRE[choose("prefix", 0, 5)];
  Entries e;
  auto put = [&](const std::string &s) {
    for (auto &p : e) if (p.first == s) return;
    e.push_back({s, (int)e.size() + 1});
  };
  for (const char *s : {"a", "ab", "b", "ba", "bb\xC3\xA9"}) { put(s); if (std::string(s) != "b") put(pre + s); }
  Text t;
  for (int n = choose("n", 0, TIER ? 5 : 4); n > 0; n--) t.push_back(symPick("c", {'a', 'b', 0xE9}));
  wordPiece(t, e, pre, 100, true, 33, false);
}
ENTRY(c06_long) {  // long words, long entries
  Entries e = {{"a", 1}, {"##a", 2}, {"##aaaa", 3}, {"##b", 4}, {"b", 5}, {std::string(20, 'a'), 6}, {"##" + std::string(130, 'a') + "b", 7}, {std::string(140, 'a'), 70000}};
  static const int L[] = {15, 16, 17, 32, 33, 64, 65, 99, 100, 101, 129, 140, 150};
  int n = L[choose("n", 0, 12)], at = choose("place", 0, 2), max = choose("max", 0, 1) ? 100 : 400;
  Text t((size_t)n, 'a');
  t[at == 0 ? n - 1 : at == 1 ? n / 2 : 0] = symPick("c", {'a', 'b', 'z'});
  wordPiece(t, e, "##", max, true, 33, true);
}
// ---------------------------------------------------------------- C07
static void bpe(const Text &t, const std::vector<Rule> &rules, const std::vector<std::string> &letters, const std::string &pre, const std::string &suf, bool missing) {
  Vocab v;
  std::vector<std::string> merges;
  int id = 100;
  for (auto &x : letters) v.insert({x, id -= 7});
  std::vector<Rule> use;
  for (auto &r : rules) {
    merges.push_back(r.a + " " + r.b);
    bool dup = false;
    for (auto &q : use) dup = dup || (q.a == r.a && q.b == r.b);
    if (missing && &r == &rules.back()) continue;  // its result is not in the vocabulary: not a merge
    if (v.count(r.a) && v.count(r.b)) {
      v.insert({r.a + r.b.substr(pre.size()), id -= 3});
      if (!dup) use.push_back(r);
    }
  }
  // a rule whose parts entered the vocabulary later still counts, in list order
  use.clear();
  for (auto &r : rules) {
    bool dup = false;
    for (auto &q : use) dup = dup || (q.a == r.a && q.b == r.b);
    if (!dup && v.count(r.a) && v.count(r.b) && v.count(r.a + r.b.substr(pre.size()))) use.push_back(r);
  }
  BPE m(v, merges, 0.0f, "", pre, suf, false, false, false);
  auto r = run(m, t);
  std::vector<std::string> chars;
  std::vector<int> lens;
  for (size_t i = 0; i < t.size(); i++) {
    std::string c = sub(t, (int)i, (int)i + 1);
    if (i) c = pre + c;
    if (i + 1 == t.size()) c += suf;
    chars.push_back(c);
    lens.push_back(1);
  }
  same(r, refBpe(chars, lens, use, v, (int)pre.size()), "not the BPE segmentation");
  REACH(r.size() < t.size() ? "merged" : "unmerged");
}
static Text letters(int n, const std::vector<uint32_t> &al) {
  Text t;
  for (int i = 0; i < n; i++) t.push_back(symPick("c", al));
  return t;
}
// merge lists where each merge joins tokens that exist so far, in any rank order
static std::vector<Rule> someRules(int k) {
  std::vector<std::string> toks = {"a", "b"};
  std::vector<Rule> r;
  for (int i = 0; i < k; i++) {
    int x = choose("left", 0, (int)toks.size() - 1), y = choose("right", 0, (int)toks.size() - 1);
    r.push_back({toks[x], toks[y]});
    toks.push_back(toks[x] + toks[y]);
  }
  return r;
}
ENTRY(c07_bpe_two) {
  std::vector<Rule> r = someRules(2);
  if (choose("swap", 0, 1)) std::swap(r[0], r[1]);
  bool missing = choose("missing", 0, 1);
  int n = choose("n", 0, TIER ? 7 : 5);
  bpe(letters(n, {'a', 'b'}), r, {"a", "b"}, "", "", missing);
}
ENTRY(c07_bpe_three) {
  std::vector<Rule> r = someRules(3);
  int rot = choose("rotate", 0, TIER ? 2 : 0);
  for (int i = 0; i < rot; i++) { r.push_back(r[0]); r.erase(r.begin()); }
  int n = choose("n", 3, TIER ? 6 : 4);
  bpe(letters(n, {'a', 'b'}), r, {"a", "b"}, "", "", false);
}
ENTRY(c07_bpe_wide) {  // characters of one to four bytes
  static const std::vector<Rule> sets[] = {
      {{"\xC3\xA9", "a"}, {"a", "\xF0\x9F\x98\x80"}, {"\xF0\x9F\x98\x80", "\xF0\x9F\x98\x80"}},
      {{"\xE4\xB8\xAD", "\xE4\xB8\xAD"}, {"\xC3\xA9", "\xE4\xB8\xAD\xE4\xB8\xAD"}}};
  int k = choose("rules", 0, 1), n = choose("n", 0, TIER ? 5 : 4);
  bpe(letters(n, {'a', 0xE9, 0x4E2D, 0x1F600}), sets[k], {"a", "\xC3\xA9", "\xE4\xB8\xAD", "\xF0\x9F\x98\x80"}, "", "", false);
}
static const char *const CONT[] = {"##", "#", "\xE2\x96\x81"}, *const ENDW[] = {"</w>", "_", "\xC2\xB7"};
ENTRY(c07_bpe_affixes) {  // continuation prefix and end-of-word suffix
  int k = choose("affix", 0, 2), n = choose("n", 0, TIER ? 5 : 4), sp = choose("spelling", 0, 2);
  std::string P = CONT[sp], S = ENDW[sp];
  Text t = letters(n, {'a', 'b'});
  if (k == 0) bpe(t, {{"a", P + "b"}, {P + "b", P + "a"}, {"ab", P + "a"}}, {"a", "b", P + "a", P + "b"}, P, "", false);
  if (k == 1) bpe(t, {{"a", "b" + S}, {"b", "a"}, {"ba", "b" + S}}, {"a", "b", "a" + S, "b" + S}, "", S, false);
  if (k == 2) bpe(t, {{"a", P + "b"}, {"ab", P + "b" + S}, {P + "a", P + "a" + S}}, {"a", "b", P + "a", P + "b", "a" + S, "b" + S, P + "a" + S, P + "b" + S}, P, S, false);
}
ENTRY(c07_bpe_ignore_merges) {
  Vocab v = {{"a", 1}, {"b", 2}, {"ab", 3}, {"ba", 4}, {"\xF0\x9F\x98\x80", 5}, {"bab", 6}};
  Text t = letters(choose("n", 1, 3), {'a', 'b', 0x1F600});
  BPE m(v, {"a b"}, 0.0f, "", "", "", false, false, true);
  std::vector<Token> r = run(m, t);
  std::string w = toU8(t);
  Toks want;
  if (v.count(w)) want = {{v[w], w, 0, (int)t.size()}};
  else {
    std::vector<std::string> ch;
    for (size_t i = 0; i < t.size(); i++) ch.push_back(sub(t, (int)i, (int)i + 1));
    want = refBpe(ch, std::vector<int>(ch.size(), 1), {{"a", "b"}}, v, 0);
  }
  same(r, want, "ignore_merges does not take the word from the vocabulary first");
  REACH("ignore merges");
}
ENTRY(c07_bpe_order) {  // leftmost first for every letter of a run, any order of processing two words
  std::vector<Rule> r = {{"a", "a"}};
  int n = choose("n", 0, TIER ? 9 : 7);
  bpe(Text((size_t)n, 'a'), r, {"a"}, "", "", false);
}
ENTRY(c07_long) {  // long words
  static const std::vector<Rule> sets[] = {{{"a", "a"}, {"aa", "aa"}, {"b", "a"}, {"aaaa", "aaaa"}, {"aaaaaaaa", "aaaaaaaa"}, {"ba", "aa"}, {"aa", "a"}},
                                           {{"a", "b"}, {"ab", "ab"}, {"b", "ab"}, {"abab", "ab"}, {"b", "b"}}};
  static const int L[] = {16, 17, 33, 70, 132};
  int k = choose("rules", 0, 1), n = L[choose("n", 0, 4)], at = choose("place", 0, 2), fill = choose("fill", 0, 1);
  Text t;
  for (int i = 0; i < n; i++) t.push_back(fill ? (i * 7 / 3 % 4 ? 'a' : 'b') : k ? (i % 2 ? 'b' : 'a') : 'a');
  t[at == 0 ? n - 1 : at == 1 ? n / 2 : 0] = symPick("c", {'a', 'b'});
  bpe(t, sets[k], {"a", "b"}, "", "", false);
}
// ---------------------------------------------------------------- C09
ENTRY(c09_words_long) {  // a word seen again after many others
  static const int N[] = {20, 70, 140, 270, 520};
  int n = N[choose("words", 0, 4)], at = choose("again", 0, 5), kind = choose("kind", 0, 1);
  Vocab v = {{"<u>", 0}};
  for (char c = 'a'; c < 'j'; c++) v.insert({std::string(1, c), c});
  v.insert({"ab", 1}); v.insert({"bc", 2}); v.insert({"abc", 3}); v.insert({"hh", 4});
  BPE m(v, {"a b", "b c", "ab c", "h h"}, 0.0f, kind ? "<u>" : "", "", "", false, false, kind == 1), f(v, {"a b", "b c", "ab c", "h h"}, 0.0f, kind ? "<u>" : "", "", "", false, false, kind == 1);
  auto word = [](int k) { return Text{(uint32_t)('a' + k % 9), (uint32_t)('a' + k / 9 % 9), (uint32_t)('a' + (k / 81 + k) % 9)}; };
  for (int k = 0; k < n; k++) run(m, word(k));
  int w = at < 3 ? at : at == 3 ? n / 2 : at == 4 ? n - 1 : n - 2;
  std::vector<Token> a = run(m, word(w)), b = run(f, word(w));
  Toks want;
  for (auto &x : b) want.push_back({x.id, x.value, x.offsets.first, x.offsets.second});
  same(a, want, "a word is tokenized differently once others have been");
  REACH("many words");
}
// ---------------------------------------------------------------- C08
static std::string code(int b) {
  static const char *H = "0123456789ABCDEF";
  std::string s = "<0x00>";
  s[3] = H[b >> 4];
  s[4] = H[b & 15];
  return s;
}
static void unknowns(const Text &t, int bytes, bool unk, bool fuse, bool fallback, const std::string &pre, const std::string &suf) {
  Vocab v = {{"<unk>", 0}, {pre + "a", 1}};
  v.insert({"a", 2});
  if (!suf.empty()) { v.insert({"a" + suf, 3}); v.insert({pre + "a" + suf, 4}); }
  // 0 none, 1 the bytes of U+00E9, 2 those and all but one byte of U+4E2D, 3 all that are used
  std::vector<int> have;
  if (bytes >= 1) have = {0xC3, 0xA9};
  if (bytes >= 2) { have.push_back(0xE4); have.push_back(0xB8); }
  if (bytes >= 3) for (int b : {0xAD, 0xF0, 0x9F, 0x98, 0x80, 0x0A, 0x62}) have.push_back(b);
  for (int b : have) v.insert({code(b), 100 + b});
  BPE m(v, {}, 0.0f, unk ? "<unk>" : "", pre, suf, fuse, fallback, false);
  auto r = run(m, t);
  Toks want;
  bool open = false;
  for (int i = 0; i < (int)t.size(); i++) {
    std::string c = sub(t, i, i + 1), k = (i ? pre : "") + c + (i + 1 == (int)t.size() ? suf : "");
    if (v.count(k)) { want.push_back({v[k], k, i, i + 1}); open = false; continue; }
    bool all = fallback;
    for (unsigned char b : c) all = all && v.count(code(b));
    if (all) {
      for (unsigned char b : c) want.push_back({v[code(b)], code(b), i, i + 1});
      open = false;
    } else if (unk) {
      if (fuse && open) want.back().b = i + 1;
      else want.push_back({0, "<unk>", i, i + 1});
      open = true;
    }
  }
  bool complete = true;
  // without an unknown token characters may be lost; only that nothing fails is claimed then
  if (!unk && fallback && bytes == 3) complete = true;
  else if (!unk) for (int i = 0, k = 0; i < (int)t.size(); i++) { bool f = false; for (auto &w : want) f = f || w.a == i; (void)k; complete = complete && f; }
  if (complete) { same(r, want, "characters are not accounted for one by one"); REACH("accounted"); }
  else { obsTok(r); REACH("lost"); }
}
ENTRY(c08_unknown) {
  int bytes = choose("bytes", 0, 3);
  bool unk = choose("unk", 0, 1), fuse = choose("fuse", 0, 1), fb = choose("byte_fallback", 0, 1);
  Text t = letters(choose("n", 0, TIER ? 4 : 3), {'a', 'b', 0xE9, 0x4E2D, 0x1F600});
  unknowns(t, bytes, unk, fuse, fb, "", "");
}
ENTRY(c08_affixes) {
  int aff = choose("affix", 1, 3);
  bool fuse = choose("fuse", 0, 1), fb = choose("byte_fallback", 0, 1);
  Text t = letters(choose("n", 0, TIER ? 4 : 3), {'a', 'b', 0xE9, '\n'});
  int sp = choose("spelling", 0, TIER ? 2 : 1);
  unknowns(t, choose("bytes", 0, 1) * 3, true, fuse, fb, aff & 1 ? CONT[sp] : "", aff & 2 ? ENDW[sp] : "");
}
ENTRY(c08_anychar) {  // every character, in a vocabulary with every byte or an unknown token only
  uint32_t c = symScalar("c", 1);
  bool fb = choose("byte_fallback", 0, 1), fuse = choose("fuse", 0, 1);
  Vocab v = {{"<unk>", 0}};
  Text t = {c, 'x'};
  BPE m(v, {}, 0.0f, "<unk>", "", "", fuse, fb, false);
  Toks want = {{0, "<unk>", 0, 1}, {0, "<unk>", 1, 2}};
  if (fuse) want = {{0, "<unk>", 0, 2}};
  same(run(m, t), want, "a character is not accounted for");
  REACH("any character");
}
ENTRY(c08_anybyte) {  // every one- and two-byte character through its fallback tokens
  static Vocab v;
  for (int b = 0; b < 256; b++) v[code(b)] = 1000 + b;
  uint32_t c = (uint32_t)choose("c", 1, TIER ? 0x7FF : 0x1FF);
  BPE m(v, {}, 0.0f, "", "", "", false, true, false);
  Toks want;
  std::string u = toU8({c});
  for (unsigned char b : u) want.push_back({1000 + b, code(b), 0, 1});
  same(run(m, {c}), want, "a character does not become its bytes' fallback tokens");
  REACH("any byte");
}
ENTRY(c08_long) {  // long runs without a token
  static const int L[] = {7, 16, 17, 64, 127, 128, 130, 257};
  int n = L[choose("n", 0, 7)], at = choose("place", 0, 2), bytes = choose("bytes", 0, 1) * 3;
  bool fuse = choose("fuse", 0, 1);
  Text t((size_t)n, 0xE9);
  t[at == 0 ? n - 1 : at == 1 ? n / 2 : 0] = symPick("c", {'a', 0x1F600});
  unknowns(t, bytes, true, fuse, choose("byte_fallback", 0, 1), "", "");
}
// ---------------------------------------------------------------- C24
static bool derivable(const std::string &s, const std::vector<std::string> &base, const std::vector<Rule> &rules, const Vocab &v, size_t pre, int depth = 6) {
  for (auto &b : base) if (b == s) return true;
  if (!depth) return false;
  for (auto &r : rules)
    if (v.count(r.a) && v.count(r.b) && r.a + r.b.substr(pre) == s && derivable(r.a, base, rules, v, pre, depth - 1) && derivable(r.b, base, rules, v, pre, depth - 1)) return true;
  return false;
}
// whatever the draws, the tokens are a segmentation reached by merges
static void dropped(const Text &t, const std::vector<Rule> &rules, const std::vector<std::string> &letters, const std::string &pre, const std::string &suf, float p, int words) {
  Vocab v;
  std::vector<std::string> merges;
  int id = 3;
  for (auto &x : letters) v.insert({x, id += 2});
  for (auto &r : rules) { merges.push_back(r.a + " " + r.b); v.insert({r.a + r.b.substr(pre.size()), id += 2}); }
  noThrow("tokenizing with dropout threw", [&] {
    BPE m(v, merges, p, "", pre, suf, false, false, false);
    std::vector<std::string> chars, base;
    for (size_t i = 0; i < t.size(); i++) {
      std::string c = sub(t, (int)i, (int)i + 1);
      if (i) c = pre + c;
      if (i + 1 == t.size()) c += suf;
      chars.push_back(c);
    }
    Toks full = refBpe(chars, std::vector<int>(t.size(), 1), rules, v, (int)pre.size()), none;
    for (size_t i = 0; i < t.size(); i++) none.push_back({v.at(chars[i]), chars[i], (int)i, (int)i + 1});
    for (int k = 0; k < words; k++) {
      g_draws = g_dropped = g_trailing = 0;
      auto r = run(m, t);
      if (g_draws == 0 && full.size() < t.size()) __sym_fail("dropout is not applied");
      if (p >= 1) same(r, none, "every merge is dropped, but there are merges");
      else if (g_dropped == 0) same(r, full, "nothing is dropped, but it is not the BPE segmentation");
      else if (g_dropped == g_draws) same(r, none, "every merge is dropped, but there are merges");
      else {
        obsTok(r);
        int at = 0;
        for (auto &x : r) {
          CHECK(x.offsets.first == at && x.offsets.second > at && x.offsets.second <= (int)t.size(), "the tokens do not cover the word");
          if (x.offsets.first != at || x.offsets.second <= at || x.offsets.second > (int)t.size()) return;
          auto it = v.find(x.value);
          CHECK(it != v.end() && it->second == x.id, "a token is not that of the vocabulary");
          std::string want;
          for (int i = at; i < x.offsets.second; i++) want += i == at ? chars[i] : chars[i].substr(pre.size());
          CHECK(want == x.value, "a token is not the text it covers");
          CHECK(derivable(x.value, chars, rules, v, pre.size()), "a token cannot be reached by merges");
          at = x.offsets.second;
        }
        CHECK(at == (int)t.size(), "the tokens do not cover the word");
        int open = 0;
        for (size_t i = 0; i + 1 < r.size(); i++)
          for (auto &q : rules) if (q.a == r[i].value && q.b == r[i + 1].value) { open++; break; }
        CHECK(open <= g_trailing, "a merge that was dropped is not tried again after another merge");
        REACH("some merges dropped");
      }
    }
  });
}
ENTRY(c24_draws) {
  std::vector<Rule> r = someRules(2);
  if (choose("swap", 0, 1)) std::swap(r[0], r[1]);
  int n = choose("n", 0, TIER ? 5 : 4);
  dropped(letters(n, {'a', 'b'}), r, {"a", "b"}, "", "", 0.5f, 1);
}
ENTRY(c24_chain) {
  static const std::vector<Rule> sets[] = {{{"a", "b"}, {"b", "a"}, {"ab", "a"}, {"ab", "ab"}, {"a", "a"}}, {{"a", "a"}, {"aa", "a"}, {"aa", "aa"}, {"b", "aa"}}};
  int k = choose("rules", 0, 1), n = choose("n", 3, TIER ? 6 : 5);
  dropped(letters(n, {'a', 'b'}), sets[k], {"a", "b"}, "", "", 0.5f, 1);
}
ENTRY(c24_again) {  // the same word again draws again
  static const std::vector<Rule> sets[] = {{{"a", "b"}, {"ab", "a"}}, {{"a", "a"}, {"b", "aa"}}};
  int k = choose("rules", 0, 1), n = choose("n", 1, TIER ? 4 : 3);
  dropped(letters(n, {'a', 'b'}), sets[k], {"a", "b"}, "", "", 0.5f, 2);
}
ENTRY(c24_affixes) {
  int k = choose("affix", 0, 1), n = choose("n", 0, TIER ? 5 : 4), sp = choose("spelling", 0, TIER ? 2 : 1);
  std::string P = CONT[sp], S = ENDW[sp];
  Text t = letters(n, {'a', 'b'});
  if (k == 0) dropped(t, {{"a", P + "b"}, {P + "b", P + "a"}, {"ab", P + "a"}}, {"a", "b", P + "a", P + "b"}, P, "", 0.25f, 1);
  if (k == 1) dropped(t, {{"a", "b" + S}, {"b", "a"}, {"ba", "b" + S}}, {"a", "b", "a" + S, "b" + S}, "", S, 0.75f, 1);
}
ENTRY(c24_wide) {
  std::vector<Rule> r = {{"\xC3\xA9", "a"}, {"a", "\xF0\x9F\x98\x80"}, {"\xF0\x9F\x98\x80", "\xF0\x9F\x98\x80"}, {"\xC3\xA9", "a\xF0\x9F\x98\x80"}};
  dropped(letters(choose("n", 0, TIER ? 4 : 3), {'a', 0xE9, 0x1F600}), r, {"a", "\xC3\xA9", "\xF0\x9F\x98\x80"}, "", "", 0.1f, 1);
}
ENTRY(c24_always) {  // probability 1
  dropped(letters(choose("n", 0, 4), {'a', 'b'}), {{"a", "b"}, {"b", "a"}, {"a", "a"}}, {"a", "b"}, "", "", 1.0f, 1);
}
