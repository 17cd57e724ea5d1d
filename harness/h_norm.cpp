// C10 BERT normalization, C11 the other normalizers, C12 alignment with the original text
#include "js.h"
#include "refnorm.h"
#include "tokenizers/common.h"
#include "tokenizers/normalizer.h"
#ifndef TIER
#define TIER 0
#endif
static void obsNS(const NormalizedString &n) { obs(n.normalized); obs(n.offsets); obs(n.offset_ranges); }
static void check(const NormalizedString &n, const RT &r, bool align) {
  CHECK(sameText(n, r), "normalized text differs from the definition");
  if (align) CHECK(sameAlign(n, r), "alignment with the original text differs from the definition");
  obsNS(n);
}
template <class F> static void run(const Normalizer &z, const Text &t, bool align, F ref) {
  noThrow("normalizing threw", [&] {
    NormalizedString n = z.normalize(NormalizedString(toW(t)));
    check(n, ref(ident(t)), align);
  });
}
// ---------------------------------------------------------------- BERT
static void bert(const Text &t, bool align) {
  int o = choose("options", 0, 15);
  run(BertNormalizer(o & 1, o & 2, o & 4, o & 8), t, align, [&](const RT &r) { return refBert(r, o & 1, o & 2, o & 4, o & 8); });
  REACH("bert");
}
static const std::vector<uint32_t> BERTC = {'A', 0xE9, 1, '\t', 0x3000, 0x4E16, 0x301, 0x23A};
ENTRY(c10_bert_one) { bert({'A', symScalar("c"), '!'}, false); }
ENTRY(c10_bert_text) { bert(symText("len", 0, 3, BERTC), false); }
ENTRY(c10_bert_edges) {  // two neighbours out of the ends of the character classes
  static const std::vector<uint32_t> al = {0, 0x1F, 0x7F, 0x85, 0xA0, 0xAD, 0x200B, 0x2028, 0xFFFD, 0xE000, 0x33FF, 0x3400, 0x4DBF, 0x4DC0, 0x4E00, 0x9FFF, 0xA000, 0xF900, 0xFAFF, 0x20000, 0x2A6E0, 0x2B820, 0x2CEAF, 0x2F800, 0x2FA20, 0x130, 0x1E9E, 0xAC01, 0x1D400};
  bert({symPick("c", al), symPick("d", {0, 0xA0, 0x301, 0x4E00, 0x2CEAF, 0x130})}, false);
}
ENTRY(c10_bert_edges_deep) {
  static const std::vector<uint32_t> al = {0, 0x1F, 0x7F, 0x85, 0xA0, 0xAD, 0x200B, 0x2028, 0xFFFD, 0xE000, 0x33FF, 0x3400, 0x4DBF, 0x4DC0, 0x4E00, 0x9FFF, 0xA000, 0xF900, 0xFAFF, 0x20000, 0x2A6E0, 0x2B820, 0x2CEAF, 0x2F800, 0x2FA20, 0x130, 0x1E9E, 0xAC01, 0x1D400};
  bert({symPick("c", al), symPick("d", al)}, false);
}
ENTRY(c10_bert_text_deep) { bert(symText("len", 4, 4, BERTC), false); }
static const char *TRI(int k) { return k == 0 ? "null" : k == 1 ? "false" : "true"; }
ENTRY(c10_bert_json) {
  int a = choose("clean", 0, 2), b = choose("cjk", 0, 2), c = choose("strip", 0, 2), d = choose("lower", 0, 2), ord = choose("order", 0, 1);
  std::string f = std::string("\"clean_text\":") + TRI(a), g = std::string("\"handle_chinese_chars\":") + TRI(b), h = std::string("\"strip_accents\":") + TRI(c), i = std::string("\"lowercase\":") + TRI(d);
  std::string js = ord ? "{" + i + "," + h + "," + g + "," + f + ",\"type\":\"BertNormalizer\"}" : "{\"type\":\"BertNormalizer\"," + f + "," + g + "," + h + "," + i + "}";
  Text t = {1, '\t', 0xC9, 0x4E16, symPick("c", BERTC)};
  auto z = fromJson(js, with_normalizer);
  CHECK(z != nullptr, "no normalizer");
  run(*z, t, false, [&](const RT &r) { return refBert(r, a == 2, b == 2, c == 2, d == 2); });
}
ENTRY(c12_bert_one) { bert({'A', symScalar("c"), '!'}, true); }
ENTRY(c12_bert_text) { bert(symText("len", 0, 3, BERTC), true); }
ENTRY(c12_bert_text_deep) { bert(symText("len", 4, 4, BERTC), true); }
// ---------------------------------------------------------------- others
static const std::vector<uint32_t> STRIPC = {' ', 'a', 0x3000, 0x120, '\n', 0x1F620};
static void strip(const Text &t, bool align) {
  int o = choose("sides", 0, 3);
  run(Strip(o & 1, o & 2), t, align, [&](const RT &r) { return refStrip(r, o & 1, o & 2); });
}
ENTRY(c11_strip) { strip(symText("len", 0, 3 + TIER, STRIPC), false); }
ENTRY(c11_strip_one) { strip({symScalar("c"), 'x', symScalar("d")}, false); }
ENTRY(c11_strip_single) { strip({symScalar("c")}, false); }
ENTRY(c12_strip) { strip(symText("len", 0, 3 + TIER, STRIPC), true); }
static const std::vector<uint32_t> ACC = {'e', 0x301, 0x2FF, 0x300, 0x36F, 0x370, 0x1F620};
static void accents(const Text &t, bool align) { run(StripAccents(), t, align, [&](const RT &r) { return refAccents(r); }); }
ENTRY(c11_accents) { accents(symText("len", 0, 3 + TIER, ACC), false); }
ENTRY(c11_accents_one) { accents({symScalar("c"), symScalar("d")}, false); }
ENTRY(c12_accents) { accents(symText("len", 0, 3 + TIER, ACC), true); }
static const std::vector<Text> PRE = {{}, {'_'}, {0x2581}, {'a', 'b'}, {0xE9, 0x1F620, 'x'}};
static void prepend(const Text &t, bool align) {
  Text p = PRE[choose("prepend", 0, 4)];
  run(Prepend(toU8(p)), t, align, [&](const RT &r) { return refPrepend(r, p); });
}
ENTRY(c11_prepend) { prepend(symText("len", 0, 2, {'a', 0xE9, 0x4E16, 0x1F620}), false); }
ENTRY(c12_prepend) { prepend(symText("len", 0, 2, {'a', 0xE9, 0x4E16, 0x1F620}), true); }
static const std::vector<Text> PATS = {{}, {' '}, {'a', 'a'}, {'.'}, {'('}, {0xE9}, {'a', 0xE9, 'a'}, {'\\', 'd'}};
static const std::vector<Text> CONS = {{}, {'_'}, {0x2581, 0x2581}, {'a', 'a'}, {'$', '&'}};
static void replaceText(const Text &t, bool align) {
  int p = choose("pattern", 0, (int)PATS.size() - 1), c = choose("content", 0, (int)CONS.size() - 1);
  run(Replace(toU8(PATS[p]), toU8(CONS[c])), t, align, [&](const RT &r) { return refReplaceText(r, PATS[p], CONS[c]); });
}
static const std::vector<uint32_t> REPC = {'a', ' ', '.', 0xE9, '('};
ENTRY(c11_replace) { replaceText(symText("len", 0, 3 + TIER, REPC), false); }
ENTRY(c11_replace_runs) { replaceText(symText("len", 4, 5 + TIER, {'a', 0xE9}), false); }
ENTRY(c11_replace_digit) { replaceText({'1', symScalar("c"), '\\', 'd'}, false); }
ENTRY(c12_replace) { replaceText(symText("len", 0, 3 + TIER, REPC), true); }
ENTRY(c12_replace_runs) { replaceText(symText("len", 4, 5 + TIER, {'a', 0xE9}), true); }
static std::unique_ptr<Normalizer> mkForm(int f) {
  if (f == 0) return std::make_unique<NFC>();
  if (f == 1) return std::make_unique<NFD>();
  if (f == 2) return std::make_unique<NFKC>();
  return std::make_unique<NFKD>();
}
static void forms(const Text &t, int lo, int step, bool align) {
  int f = lo + step * choose("form", 0, step == 2 ? 1 : 3);
  auto z = mkForm(f);
  run(*z, t, align, [&](const RT &r) { return refForm(r, f); });
}
ENTRY(c11_decompose_one) { forms({'a', symScalar("c"), 0x323}, 1, 2, false); }
ENTRY(c12_decompose_one) { forms({'a', symScalar("c"), 0x323}, 1, 2, true); }
static const std::vector<uint32_t> FORMC = {'a', 0x301, 0x323, 0xE9, 0x1100, 0x1161, 0xFB01, 0x212B};
ENTRY(c11_forms) { forms(symText("len", 0, 3, FORMC), 0, 1, false); }
ENTRY(c12_forms) { forms(symText("len", 0, 3, FORMC), 0, 1, true); }
ENTRY(c11_forms_deep) { forms(symText("len", 4, 4, FORMC), 0, 1, false); }
ENTRY(c12_forms_deep) { forms(symText("len", 4, 4, FORMC), 0, 1, true); }
// composition of every character of a block with a following mark
ENTRY(c11_compose_block) { forms({symScalar("c", 0x41, 0x1FF), symPick("m", {0x301, 0x327})}, 0, 2, false); }
ENTRY(c11_compose_block_deep) { forms({symScalar("c", 0x200, 0x24FF), 0x301}, 0, 2, false); }
// ---------------------------------------------------------------- sequences, through JSON
struct Mem { const char *js; RT (*ref)(const RT &); };
static const Mem MEMS[] = {
    {"{\"type\":\"Prepend\",\"prepend\":\"\\u2581\"}", [](const RT &r) { return refPrepend(r, {0x2581}); }},
    {"{\"type\":\"Replace\",\"pattern\":{\"String\":\" \"},\"content\":\"\\u2581\"}", [](const RT &r) { return refReplaceText(r, {' '}, {0x2581}); }},
    {"{\"type\":\"Strip\",\"strip_left\":true,\"strip_right\":null}", [](const RT &r) { return refStrip(r, true, false); }},
    {"{\"type\":\"StripAccents\"}", [](const RT &r) { return refAccents(r); }},
    {"{\"type\":\"NFD\"}", [](const RT &r) { return refForm(r, 1); }},
    {"{\"type\":\"BertNormalizer\",\"clean_text\":true,\"handle_chinese_chars\":true,\"strip_accents\":null,\"lowercase\":true}", [](const RT &r) { return refBert(r, true, true, false, true); }},
    {"{\"type\":\"Nmt\"}", [](const RT &r) { return r; }},  // not supported: skipped
};
static void sequence(const Text &t, bool align) {
  int n = choose("members", 0, 2 + TIER);
  std::string js = "{\"type\":\"Sequence\",\"normalizers\":[";
  std::vector<int> m;
  for (int i = 0; i < n; i++) {
    m.push_back(choose("member", 0, 6));
    js += (i ? "," : "") + std::string(MEMS[m.back()].js);
  }
  js += "]}";
  noThrow("building or running a sequence threw", [&] {
    auto z = fromJson(js, with_normalizer);
    CHECK(z != nullptr, "no normalizer");
    run(*z, t, align, [&](RT r) { for (int k : m) r = MEMS[k].ref(r); return r; });
  });
}
ENTRY(c11_sequence) { sequence({' ', symPick("c", {' ', 0xC9, 0x301, 0x4E16}), symPick("d", {' ', 'b', 0x1F620})}, false); }
ENTRY(c12_sequence) { sequence({' ', symPick("c", {' ', 0xC9, 0x301, 0x4E16}), symPick("d", {' ', 'b', 0x1F620})}, true); }
ENTRY(c11_json) {
  int k = choose("kind", 0, 3), a = choose("a", 0, 2), b = choose("b", 0, 2);
  Text t = {' ', symPick("c", {' ', 'a', 0xE9}), 'a', ' '};
  noThrow("building or running threw", [&] {
    std::string js;
    if (k == 0) js = std::string("{\"type\":\"Strip\",\"strip_left\":") + TRI(a) + ",\"strip_right\":" + TRI(b) + "}";
    if (k == 1) js = std::string("{\"type\":\"Prepend\",\"prepend\":") + (a == 0 ? "null" : a == 1 ? "\"\\\"\\u00e9\"" : "\"\"") + "}";
    if (k == 2) js = std::string("{\"type\":\"Replace\",\"pattern\":") + (a == 0 ? "null" : a == 1 ? "{\"String\":\"a\"}" : "{\"String\":\"\\u00e9\"}") + ",\"content\":" + (b == 0 ? "null" : b == 1 ? "\"\\n\"" : "\"xyz\"") + "}";
    if (k == 3) js = std::string("{\"type\":\"") + (a == 0 ? "NFC" : a == 1 ? "NFD" : b == 0 ? "NFKC" : b == 1 ? "NFKD" : "StripAccents") + "\"}";
    auto z = fromJson(js, with_normalizer);
    CHECK(z != nullptr, "no normalizer");
    run(*z, t, false, [&](const RT &r) {
      if (k == 0) return refStrip(r, a == 2, b == 2);
      if (k == 1) return refPrepend(r, a == 1 ? Text{'"', 0xE9} : Text());
      if (k == 2) return refReplaceText(r, a == 0 ? Text() : a == 1 ? Text{'a'} : Text{0xE9}, b == 0 ? Text() : b == 1 ? Text{'\n'} : Text{'x', 'y', 'z'});
      return a < 2 ? refForm(r, a) : b < 2 ? refForm(r, 2 + b) : refAccents(r);
    });
  });
}
// ---------------------------------------------------------------- long texts
static const std::vector<int> LENS = {16, 65, 128, 130, 257};
static void longBert(bool align) {
  static const int O[] = {15, 0, 4, 10};
  int o = O[choose("options", 0, 3)];
  Text t = longText(LENS, BERTC, 2);
  run(BertNormalizer(o & 1, o & 2, o & 4, o & 8), t, align, [&](const RT &r) { return refBert(r, o & 1, o & 2, o & 4, o & 8); });
  REACH("long");
}
static void longOthers(bool align) {
  int k = choose("normalizer", 0, 5);
  static const std::vector<uint32_t> al = {'a', ' ', 0x301, 0xE9, 0x4E16};
  Text t = longText({16, 65, 130, 257}, al, 2);
  if (k == 0) { int s = 30 * choose("spaces", 0, 1); t.insert(t.begin(), 130 + s, ' '); t.insert(t.end(), 129 + s, 0x3000); run(Strip(true, true), t, align, [&](const RT &r) { return refStrip(r, true, true); }); }
  if (k == 1) run(StripAccents(), t, align, [&](const RT &r) { return refAccents(r); });
  if (k == 2) { Text p = longText({9, 17, 130}, al, 1); run(Prepend(toU8(p)), t, align, [&](const RT &r) { return refPrepend(r, p); }); }
  if (k == 3) { Text p = longText({9, 17, 130}, al, 1); run(Replace(" ", toU8(p)), Text(t.begin(), t.begin() + (t.size() < 66 ? t.size() : 66)), align, [&](const RT &r) { return refReplaceText(r, {' '}, p); }); }
  if (k == 4) run(NFD(), t, align, [&](const RT &r) { return refForm(r, 1); });
  if (k == 5) run(NFC(), t, align, [&](const RT &r) { return refForm(r, 0); });
  REACH("long");
}
ENTRY(c10_long) { longBert(false); }
ENTRY(c11_long) { longOthers(false); }
ENTRY(c12_long) { if (choose("bert", 0, 1)) longBert(true); else longOthers(true); }
// ---------------------------------------------------------------- edits and splicing
ENTRY(c12_fresh) {
  Text t = {symScalar("c"), 'x', symScalar("d")};
  NormalizedString n(toW(t));
  check(n, ident(t), true);
}
ENTRY(c12_splice) {  // a part of the text is normalized on its own and put back
  static const std::vector<uint32_t> al = {'a', 0xC9, 0x4E16, 1};
  Text t = symText("len", 1, 3 + TIER, al);
  int a = choose("a", 0, (int)t.size() - 1), b = choose("b", a + 1, (int)t.size());
  Text mid(t.begin() + a, t.begin() + b);
  NormalizedString whole(toW(t));
  BertNormalizer z(true, true, false, true);
  noThrow("splicing threw", [&] {
    whole.transform_range({a, b}, z.normalize(NormalizedString(toW(mid))));
    RT r, id = ident(t);
    r.insert(r.end(), id.begin(), id.begin() + a);
    for (auto x : refBert(ident(mid), true, true, false, true)) r.push_back({x.c, x.a + a, x.b + a});
    r.insert(r.end(), id.begin() + b, id.end());
    check(whole, r, true);
  });
}
ENTRY(c12_splice_twice) {  // two parts in turn, positions counted in the text as it is then
  static const std::vector<uint32_t> al = {'a', 0xC9, 0x4E16, ' '};
  Text t = symText("len", 2, 3, al);
  int cut = choose("cut", 1, (int)t.size() - 1);
  Text l(t.begin(), t.begin() + cut), r(t.begin() + cut, t.end());
  auto z = fromJson("{\"type\":\"Sequence\",\"normalizers\":[{\"type\":\"Prepend\",\"prepend\":\"\\u2581\"},{\"type\":\"NFD\"},{\"type\":\"Replace\",\"pattern\":{\"String\":\" \"},\"content\":\"--\"}]}", with_normalizer);
  auto ref = [](const RT &x) { return refReplaceText(refForm(refPrepend(x, {0x2581}), 1), {' '}, {'-', '-'}); };
  noThrow("splicing threw", [&] {
    NormalizedString whole(toW(t));
    NormalizedString L = z->normalize(NormalizedString(toW(l))), R = z->normalize(NormalizedString(toW(r)));
    int nl = (int)L.normalized.size();
    whole.transform_range({0, cut}, L);
    whole.transform_range({nl, nl + (int)r.size()}, R);
    RT o = ref(ident(l));
    for (auto x : ref(ident(r))) o.push_back({x.c, x.a + cut, x.b + cut});
    check(whole, o, true);
  });
}
