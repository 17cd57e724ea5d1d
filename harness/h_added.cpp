// C14 extraction of added tokens, C15 ids of added tokens
#include "js.h"
#include "refadd.h"
#include "tokenizers/added_vocabulary.h"
#include "tokenizers/common.h"
#include "tokenizers/model.h"
#include "tokenizers/normalizer.h"
#include "tokenizers/pre_tokenizer.h"
#ifndef TIER
#define TIER 0
#endif
static AddedToken real(const ATok &k) { return AddedToken(0, toU8(k.content), k.single, k.lstrip, k.rstrip, k.norm, k.special); }
static const std::unordered_map<std::string, int> VOC = {{"x", 0}, {"ab", 1}, {"y", 2}};
// ids the tokens get when they are added in this order to a model with vocabulary VOC
static void number(ATokens &ts) {
  int next = 3;
  for (auto &k : ts) k.id = toU8(k.content) == "ab" ? 1 : next++;
}
static void check(const PreTokenizedString &p, const Extract &w) {
  obs(p.normalized.normalized);
  obs((uint64_t)p.splits.size());
  for (auto &x : p.splits) { obs(x.normalized); obs((uint64_t)(uint32_t)x.offsets.first); obs((uint64_t)(uint32_t)x.offsets.second); for (auto &t : x.tokens) { obs((uint64_t)(uint32_t)t.id); obs(t.value); } }
  CHECK(sameText(p.normalized, w.text), "the normalized text differs from the definition");
  CHECK(sameAlign(p.normalized, w.text), "the alignment of the extracted text differs from the definition");
  CHECK(p.splits.size() == w.pieces.size(), "wrong number of pieces");
  if (p.splits.size() != w.pieces.size()) return;
  Text t = textOf(w.text);
  bool ok = true, tok = true;
  for (size_t i = 0; i < w.pieces.size(); i++) {
    auto &x = p.splits[i];
    auto &y = w.pieces[i];
    std::string v = sub(t, y.a, y.b);
    ok &= (x.offsets.first == y.a) & (x.offsets.second == y.b) & sameStr(x.normalized, v);
    if (y.id < 0) { tok &= x.tokens.empty(); continue; }
    tok &= x.tokens.size() == 1;
    if (x.tokens.size() == 1) tok &= (x.tokens[0].id == y.id) & sameStr(x.tokens[0].value, v) & (x.tokens[0].offsets.first == 0) & (x.tokens[0].offsets.second == y.b - y.a);
  }
  CHECK(ok, "the pieces are not the text cut at the added tokens");
  CHECK(tok, "a piece carries the wrong token");
}
static RT same(const RT &r) { return r; }
static void extract(const Text &t, ATokens ts, Normalizer *z, NormFn nf) {
  number(ts);
  WordPiece model(VOC);
  noThrow("extracting added tokens threw", [&] {
    std::vector<AddedToken> given;
    for (auto &k : ts) given.push_back(real(k));
    AddedVocabulary av({});
    av.add_tokens(given, &model, z);
    PreTokenizedString p = av.extract_and_normalize(z, toW(t));
    Extract w = refExtract(t, ts, nf);
    check(p, w);
    for (auto &x : w.pieces) if (x.id >= 0) REACH("token");
  });
}
ENTRY(c14_one) {
  int f = choose("flags", 0, 15);
  extract(symText("n", 0, 4 + TIER, {'a', 'b', ' ', 0xE9}), {{{'a', 'b'}, bool(f & 1), bool(f & 2), bool(f & 4), bool(f & 8), false, 0}}, nullptr, same);
}
// any character beside the token
static void neighbours(bool left, bool right) {
  int f = choose("flags", 0, 7);
  Text t;
  t.push_back(left ? symScalar("c") : symPick("c", {'q', ' ', '.'}));
  t.push_back('a'); t.push_back('b');
  t.push_back(right ? symScalar("d") : symPick("d", {'q', ' ', '.'}));
  extract(t, {{{'a', 'b'}, bool(f & 1), bool(f & 2), bool(f & 4), false, false, 0}}, nullptr, same);
}
ENTRY(c14_before) { neighbours(true, false); }
ENTRY(c14_after) { neighbours(false, true); }
ENTRY(c14_neighbours_deep) { neighbours(true, true); }
ENTRY(c14_spaces) {  // runs of whitespace between tokens
  int f = choose("flags", 0, 7), g = choose("flags", 0, 7);
  Text t = {'y'};
  for (int i = 0, n = choose("n", 0, 2); i < n; i++) t.push_back(symPick("c", {' ', 0x3000, 'q'}));
  t.push_back(0x1F620);
  for (int i = 0, n = choose("n", 0, 2 + TIER); i < n; i++) t.push_back(symPick("c", {' ', '\n', 'q'}));
  t.push_back('y'); t.push_back('z');
  extract(t, {{{'y', 'z'}, bool(f & 1), bool(f & 2), bool(f & 4), false, false, 0}, {{0x1F620}, bool(g & 1), bool(g & 2), bool(g & 4), false, true, 0}}, nullptr, same);
}
ENTRY(c14_two) {  // overlapping tokens
  static const std::vector<std::pair<Text, Text>> pairs = {{{'a'}, {'a', 'b'}}, {{'a', 'b'}, {'b', 'a'}}, {{'a', 'b'}, {'b'}}, {{'a', 'a'}, {'a'}}, {{'a', 'b', 'a', 'b'}, {'a', 'b'}}, {{'.', '*'}, {'a', ' ', 'b'}}};
  static const int FL[] = {0, 1, 6};
  auto &p = pairs[choose("pair", 0, (int)pairs.size() - 1)];
  int f = FL[choose("flags", 0, 2)], g = FL[choose("flags", 0, 2)], n2 = choose("second normalized", 0, 1);
  extract(symText("n", 0, 4 + TIER, {'a', 'b', ' '}), {{p.first, bool(f & 1), bool(f & 2), bool(f & 4), false, false, 0}, {p.second, bool(g & 1), bool(g & 2), bool(g & 4), n2 == 1, false, 0}}, nullptr, same);
}
static void normalized(int len) {
  int o = choose("options", 0, 3);  // cleaning and CJK handling with or without lowercasing
  BertNormalizer z(o & 1, o & 1, false, o & 2);
  int s = choose("single_word", 0, 1);
  ATokens ts = {{{'A', 'b'}, s == 1, false, false, true, false, 0}, {{0xC9}, s == 1, false, true, false, true, 0}, {{0x4E16, 'a'}, false, true, false, true, false, 0}};
  extract(symText("n", 0, len, {'A', 'a', 'b', 0xC9, 0x4E16, ' ', 1}), ts, &z, [=](const RT &r) { return refBert(r, o & 1, o & 1, false, o & 2); });
}
ENTRY(c14_normalized) { normalized(3); }
ENTRY(c14_normalized_deep) { normalized(4); }
ENTRY(c14_growing) {  // normalization that inserts and removes characters around tokens
  auto z = fromJson("{\"type\":\"Sequence\",\"normalizers\":[{\"type\":\"Prepend\",\"prepend\":\"\\u2581\"},{\"type\":\"Strip\",\"strip_left\":false,\"strip_right\":true},{\"type\":\"Replace\",\"pattern\":{\"String\":\" \"},\"content\":\"--\"}]}", with_normalizer);
  int n = choose("normalized", 0, 1);
  ATokens ts = {{{'a', ' '}, false, false, false, n == 1, false, 0}, {{'b'}, false, false, false, false, true, 0}};
  extract(symText("n", 0, 4 + TIER, {'a', 'b', ' ', 0xE9}), ts, z.get(), [](const RT &r) { return refReplaceText(refStrip(refPrepend(r, {0x2581}), false, true), {' '}, {'-', '-'}); });
}
ENTRY(c14_long) {  // tokens far into a text, many of them, long ones
  int f = choose("flags", 0, 7), kind = choose("kind", 0, 2);
  ATokens ts = {{{'a', 'b'}, bool(f & 1), bool(f & 2), bool(f & 4), false, false, 0}};
  if (kind == 1) for (int i = 0; i < 20; i++) ts.push_back({{'<', (uint32_t)('a' + i), '>'}, false, bool(i & 1), bool(i & 2), bool(i & 4), bool(i & 8), 0});
  if (kind == 2) { ts.push_back({Text(130, 'q'), false, false, false, false, false, 0}); ts.push_back({Text(17, 'q'), false, false, false, false, true, 0}); }
  Text t = longText({65, 130, 257}, {'a', 'b', ' ', 0xE9}, 1);
  if (kind == 1) for (int i = 0; i < 20; i += 3) { t.push_back(' '); for (uint32_t c : {(uint32_t)'<', (uint32_t)('a' + i), (uint32_t)'>'}) t.push_back(c); }
  if (kind == 2) { t.insert(t.begin() + 60, 140, 'q'); t.insert(t.end(), 17, 'q'); }
  extract(t, ts, nullptr, same);
}
ENTRY(c14_later) {  // tokens added after text was processed, and added twice with other flags
  int two = choose("again", 0, 1);
  Text t = symText("n", 0, 3 + TIER, {'a', 'b', ' '});
  WordPiece model(VOC);
  noThrow("extracting added tokens threw", [&] {
    AddedVocabulary av({});
    ATokens ts = {{{'a'}, true, false, false, false, false, 3}};
    av.add_tokens({real(ts[0])}, &model, nullptr);
    check(av.extract_and_normalize(nullptr, toW(t)), refExtract(t, ts, same));
    ts.push_back({{'a', 'b'}, false, true, false, false, true, 1});
    av.add_special_tokens({real(ts[1])}, &model, nullptr);
    check(av.extract_and_normalize(nullptr, toW(t)), refExtract(t, ts, same));
    if (two) {
      ts[0].single = false; ts[0].rstrip = true;
      av.add_tokens({real(ts[0])}, &model, nullptr);
      check(av.extract_and_normalize(nullptr, toW(t)), refExtract(t, ts, same));
    }
  });
}
// ---------------------------------------------------------------- C15
static const char *NAMES[] = {"", "a", "b", "new", "\xC3\xA9", "x"};
struct Known { std::string s; int id; bool special; };
static int idOf(AddedVocabulary &av, const std::string &s, int top, int &count) {
  int id = -1;
  count = 0;
  for (int i = 0; i <= top; i++) {
    auto r = av.id_to_token(i);
    if (r.has_value() && *r == s) { id = i; count++; }
  }
  return id;
}
static void ids(int steps, int per, int nvoc, int maxid, int names) {
  std::unordered_map<std::string, int> v;
  std::vector<std::pair<std::string, int>> ve;
  static const char *VN[] = {"a", "b", "q"};
  int k = choose("vocabulary", 0, nvoc);
  for (int i = 0; i < k; i++) {
    int id = choose("id", 0, maxid);
    for (auto &p : ve) ASSUME(p.second != id);
    ve.push_back({VN[i], id});
    v.insert({VN[i], id});
  }
  bool none = k == 0 && choose("no model", 0, 1);
  WordPiece model(v);
  Model *mp = none ? nullptr : &model;
  std::vector<Known> known;
  noThrow("adding tokens threw", [&] {
    AddedVocabulary av({});
    for (int s = 0; s < steps; s++) {
      int n = choose("count", 1, per), nonempty = 0;
      std::vector<AddedToken> ts;
      for (int i = 0; i < n; i++) {
        std::string name = NAMES[choose("token", 0, names)];
        bool sp = symBool("special");
        ts.push_back(AddedToken(symInt("given id", 0, 9), name, false, false, false, false, sp));
        if (name.empty()) continue;
        nonempty++;
        bool found = false;
        for (auto &q : known) if (q.s == name) { q.special |= sp; found = true; }
        if (!found) known.push_back({name, -1, sp});
      }
      int r = choose("special call", 0, 1) ? av.add_special_tokens(ts, mp, nullptr) : av.add_tokens(ts, mp, nullptr);
      CHECK(r == nonempty, "the return value is not the number of non-empty tokens");
      int top = maxid + 20;
      for (auto &q : known) {
        int cnt = 0, id = idOf(av, q.s, top, cnt);
        obs((uint64_t)(uint32_t)id);
        CHECK(cnt == 1, "an added token does not have exactly one id");
        bool voc = false;
        for (auto &p : ve) {
          if (p.first == q.s) { voc = true; CHECK(id == p.second, "a token of the vocabulary got another id"); }
          else CHECK(id != p.second, "an added token has the id of another token of the vocabulary");
        }
        (void)voc;
        CHECK(q.id < 0 || q.id == id, "the id of an added token changed");
        q.id = id;
        for (auto &o : known) CHECK(&o == &q || o.id != id, "two added tokens share an id");
        bool sp = av.is_special_token(q.s);
        CHECK(sp == q.special, "a token is reported special that was not added as special, or the other way round");
        // the extracted token carries the same id
        PreTokenizedString p = av.extract_and_normalize(nullptr, convert_from_string(q.s));
        CHECK(p.splits.size() == 1 && p.splits[0].tokens.size() == 1 && p.splits[0].tokens[0].id == id, "extraction gives an added token another id");
      }
      CHECK(!av.is_special_token("") && !av.is_special_token("never"), "a token that was never added is special");
      int dummy = 0;
      CHECK(idOf(av, "", top, dummy) < 0, "an empty token was added");
    }
  });
  REACH("added");
}
ENTRY(c15_ids) { ids(2, 2, 1, 1, 2); }
ENTRY(c15_sparse) { ids(1, 2 + TIER, 2 + TIER, 4, 3 + TIER * 2); }
ENTRY(c15_steps) { ids(3, 1, 1, 1, 3); }
ENTRY(c15_long) {  // many tokens, a model with many tokens and large ids
  static const int N[] = {0, 17, 130, 260}, B[] = {0, 100, 70000};
  int n = N[choose("vocabulary", 0, 3)], base = B[choose("first id", 0, 2)], gap = choose("gap", 0, 1), m = choose("added", 0, 1) ? 20 : 3, twice = choose("two calls", 0, 1);
  std::unordered_map<std::string, int> v;
  for (int i = 0; i < n; i++) v.insert({"v" + std::to_string(i), base + (gap ? 2 * i : i)});
  WordPiece model(v);
  noThrow("adding tokens threw", [&] {
    AddedVocabulary av({});
    std::vector<AddedToken> ts;
    for (int i = 0; i < m; i++) ts.push_back(AddedToken(i, i % 5 == 3 && n ? "v" + std::to_string(i % n) : "new" + std::to_string(i), false, false, false, false, i % 2));
    if (twice) {
      std::vector<AddedToken> h(ts.begin(), ts.begin() + m / 2), l(ts.begin() + m / 2, ts.end());
      CHECK(av.add_tokens(h, &model, nullptr) + av.add_special_tokens(l, &model, nullptr) == m, "the return value is not the number of non-empty tokens");
    } else CHECK(av.add_tokens(ts, &model, nullptr) == m, "the return value is not the number of non-empty tokens");
    std::vector<int> got;
    for (int i = 0; i < m; i++) {
      PreTokenizedString p = av.extract_and_normalize(nullptr, convert_from_string(ts[i].content));
      CHECK(p.splits.size() == 1 && p.splits[0].tokens.size() == 1, "an added token is not extracted");
      if (p.splits.size() != 1 || p.splits[0].tokens.size() != 1) return;
      int id = p.splits[0].tokens[0].id;
      obs((uint64_t)(uint32_t)id);
      auto back = av.id_to_token(id);
      CHECK(back.has_value() && *back == ts[i].content, "the id of an added token is another token's");
      auto it = v.find(ts[i].content);
      if (it != v.end()) CHECK(id == it->second, "a token of the vocabulary got another id");
      else {
        CHECK(id >= 0, "the id of an added token is negative");
        for (auto &q : v) CHECK(q.second != id, "an added token has the id of another token of the vocabulary");
        for (int g : got) CHECK(g != id, "two added tokens share an id");
      }
      got.push_back(id);
    }
  });
  REACH("added");
}
ENTRY(c15_ids_deep) { ids(2, 2, 2, 3, 5); }
ENTRY(c15_steps_deep) { ids(4, 1, 1, 3, 5); }
ENTRY(c15_own_list) {  // the tokens the vocabulary was built with, as when loading a configuration
  int n = choose("count", 0, 3);
  std::vector<AddedToken> ts;
  for (int i = 0; i < n; i++) ts.push_back(AddedToken(7 * i, NAMES[choose("token", 1, 5)], false, false, false, false, choose("special", 0, 1)));
  WordPiece model(VOC);
  noThrow("adding tokens threw", [&] {
    AddedVocabulary av(ts);
    CHECK(av.add_tokens(av.added_tokens, &model, nullptr) == n, "the return value is not the number of tokens");
    std::vector<std::pair<std::string, int>> seen;
    for (auto &t : ts) {
      int cnt = 0, id = idOf(av, t.content, 20, cnt);
      CHECK(cnt == 1, "an added token does not have exactly one id");
      CHECK(t.content == "x" ? id == 0 : id > 2, "an added token has the id of another token of the vocabulary");
      for (auto &s : seen) CHECK((s.first == t.content) == (s.second == id), "two added tokens share an id");
      seen.push_back({t.content, id});
      bool sp = false;
      for (auto &u : ts) sp |= u.content == t.content && u.special;
      CHECK(av.is_special_token(t.content) == sp, "a token is reported special that was not added as special, or the other way round");
    }
  });
  REACH("added");
}
