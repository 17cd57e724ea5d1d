// C17 UTF-8 conversions, C05 byte-level alphabet and round trip
#include "ref.h"
#include "tokenizers/common.h"
#include "tokenizers/decoder.h"
#include "tokenizers/normalizer.h"
#include "tokenizers/pre_tokenizer.h"
#ifndef TIER
#define TIER 0
#endif
static void sameText(const std::wstring &w, const Text &t, const char *msg) {
  CHECK(w.size() == t.size(), msg);
  uint32_t d = 0;
  for (size_t i = 0; i < t.size(); i++) d |= (uint32_t)w[i] ^ t[i];
  CHECK(d == 0, msg);
}
ENTRY(c17_roundtrip) {
  int n = choose("n", 0, TIER ? 4 : 3);
  Text t;
  for (int i = 0; i < n; i++) t.push_back(symScalar("c"));
  std::string u, v = toU8(t);
  noThrow("conversion of scalar values to UTF-8 threw", [&] { u = convert_to_string(toW(t)); });
  obs(u);
  CHECK(sameStr(u, v), "not the UTF-8 form of the text");
  std::wstring w;
  noThrow("conversion of well-formed UTF-8 threw", [&] { w = convert_from_string(v); });
  obs(w);
  sameText(w, t, "UTF-8 did not decode to the original text");
  REACH("roundtrip");
}
ENTRY(c17_concat) {
  Text a, b;
  int n = choose("n", 0, 2), m = choose("m", 0, TIER ? 2 : 1);
  for (int i = 0; i < n; i++) a.push_back(symScalar("a"));
  for (int i = 0; i < m; i++) b.push_back(symScalar("b"));
  std::string ab = convert_to_string(toW(a) + toW(b));
  CHECK(sameStr(ab, convert_to_string(toW(a)) + convert_to_string(toW(b))), "UTF-8 of a concatenation differs from the concatenation");
  CHECK(sameW(convert_from_string(ab), convert_from_string(toU8(a)) + convert_from_string(toU8(b))), "text of a concatenation differs from the concatenation");
  obs(ab);
  REACH("concat");
}
ENTRY(c17_long) {
  static const std::vector<int> lens = {15, 16, 17, 64, 127, 128, 255, 256, 300};
  Text t = longText(lens, {'a', 0xE9, 0x4E16, 0x1F600}, 1);
  t[t.size() / 2] = symScalar("c");
  std::string v = toU8(t);
  noThrow("a conversion threw", [&] {
    std::string u = convert_to_string(toW(t));
    CHECK(sameStr(u, v), "not the UTF-8 form of the text");
    sameText(convert_from_string(v), t, "UTF-8 did not decode to the original text");
  });
  REACH("long");
}
ENTRY(c17_bytes) {
  int n = choose("n", 0, TIER ? 5 : 4);
  std::string s;
  for (int i = 0; i < n; i++) s.push_back((char)symInt("byte", 0, 255));
  Text t;
  bool good = refDecode(s, t), threw = false;
  std::wstring w;
  try { w = convert_from_string(s); } catch (const std::exception &) { threw = true; }
  obs((uint64_t)threw);
  if (good) {
    REACH("well-formed");
    CHECK(!threw, "well-formed UTF-8 was rejected");
    obs(w);
    sameText(w, t, "UTF-8 decoded to the wrong text");
  } else {
    REACH("malformed");
    CHECK(threw, "malformed UTF-8 gave text instead of an error");
  }
}
// ---------------------------------------------------------------- C05
ENTRY(c05_alphabet) {
  auto m = bytes_char();
  CHECK(m.size() == 256, "the byte alphabet does not have 256 entries");
  int b = symInt("byte", 0, 255);
  auto it = m.find((uint16_t)b);
  CHECK(it != m.end(), "a byte has no character");
  if (it == m.end()) return;
  std::string want;
  utf8Append(want, refByteChar(b));
  CHECK(sameStr(it->second, want), "a byte's character differs from GPT-2's table");
  obs(it->second);
  REACH("byte");
}
static void byteRoundtrip(const Text &t, bool prefix, bool regex) {
  std::vector<std::string> pieces;
  std::string joined;
  noThrow("byte-level pre-tokenizing threw", [&] {
    ByteLevelPreTokenizer p(prefix, regex);
    PreTokenizedString s = p.pre_tokenize(PreTokenizedString(NormalizedString(toW(t))));
    for (auto &x : s.splits) { pieces.push_back(x.normalized); joined += x.normalized; }
  });
  Text src = t;
  bool ws = !t.empty() && (t[0] == ' ' || (t[0] >= 9 && t[0] <= 13) || t[0] == 0x85 || t[0] == 0xA0 || t[0] == 0x1680 || (t[0] >= 0x2000 && t[0] <= 0x200A) || t[0] == 0x2028 || t[0] == 0x2029 || t[0] == 0x202F || t[0] == 0x205F || t[0] == 0x3000);
  if (prefix && !t.empty() && !ws) src.insert(src.begin(), ' ');
  obs(pieces);
  std::string bytes = toU8(src);
  // before a leading character that is whitespace only in Unicode the library may or may not add the space
  if (prefix && ws && t[0] >= 0x80 && joined.size() > refByteLevel(bytes).size()) bytes = " " + bytes;
  CHECK(sameStr(joined, refByteLevel(bytes)), "pieces are not the byte-level form of the text");
  std::vector<std::string> d;
  noThrow("byte-level decoding threw", [&] { d = ByteLevelDecoder().decode_chain(pieces); });
  obs(d);
  std::string all;
  for (auto &x : d) all += x;
  CHECK(sameStr(all, bytes), "decoding the pieces does not give the bytes of the text");
  REACH(pieces.size() > 1 ? "several pieces" : "one piece or none");
}
ENTRY(c05_chars1) { byteRoundtrip({(uint32_t)symInt("c", 0, 0x7FF)}, false, false); }
ENTRY(c05_chars3) {  // every value of every byte of three- and four-byte characters
  int k = choose("varied", 0, TIER ? 5 : 4);
  uint32_t c = 0;
  if (k == 0) c = 0x800 + 0x40 * symInt("x", 0, 0x1F);
  if (k == 1) c = 0x1000 * symInt("x", 1, 0xF) + 0x123;
  if (k == 2) c = 0x4E00 + symInt("x", 0, 0x7F);
  if (k == 3) c = 0x10000 * symInt("x", 1, 0x10) + 0x2345;
  if (k == 4) c = 0x1F000 + 0x40 * symInt("x", 0, 0x3F) + 5;
  if (k == 5) c = (uint32_t)symInt("c", 0x800, 0xD7FF);
  ASSUME((c < 0xD800) | (c > 0xDFFF));
  byteRoundtrip({c}, false, false);
}
ENTRY(c05_text) {
  static const std::vector<uint32_t> al = {' ', 'a', '\'', 's', '1', 0xE9, '\n', 0x1F600, 0x301};
  Text t = symText("n", 0, TIER ? 4 : 3, al);
  bool prefix = choose("add_prefix_space", 0, 1), regex = choose("use_regex", 0, 1);
  byteRoundtrip(t, prefix, regex);
}
ENTRY(c05_long) {
  Text t = longText({16, 17, 65, 130, 257}, {' ', 'a', '\'', 's', 0xE9, '\n', 0x1F600}, 2);
  byteRoundtrip(t, choose("add_prefix_space", 0, 1), choose("use_regex", 0, 1));
}
