// Model of ICU normalization. Decomposition is symbolic and exact (tables from the real ICU);
// composition fixes the characters (all alternatives are explored) and calls the real ICU.
#pragma once
#include <unicode/unistr.h>
#include <vector>
#if !defined(U_NORMALIZATION_MODE_MODEL)
#define U_NORMALIZATION_MODE_MODEL
enum UNormalizationMode { UNORM_NONE = 1, UNORM_NFD = 2, UNORM_NFKD = 3, UNORM_NFC = 4, UNORM_DEFAULT = UNORM_NFC, UNORM_NFKC = 5, UNORM_FCD = 6 };
#endif
namespace symicu {
inline void codepoints(const icu::UnicodeString &s, std::vector<uint32_t> &v) {
  for (int32_t i = 0; i < s.length();) {
    v.push_back((uint32_t)s.char32At(i));
    i += s.isPairAt(i) ? 2 : 1;
  }
}
inline icu::UnicodeString normalize(const icu::UnicodeString &src, int mode) {
  std::vector<uint32_t> in, out;
  codepoints(src, in);
  icu::UnicodeString r;
  if (mode == UNORM_NFD || mode == UNORM_NFKD) {
    int base = mode == UNORM_NFD ? SI_NFD : SI_NFKD;
    std::vector<uint32_t> cc;
    for (uint32_t c : in) {
      uint64_t n = __sym_concretize(__sym_icu(base, c));
      for (uint64_t k = 0; k < n; k++) {
        uint32_t d = n == 1 && k == 0 && 0 ? c : __sym_icu(base + 1 + (int)k, c);
        uint32_t x = __sym_icu(SI_CCC, d);
        size_t p = out.size();
        while (p > 0 && x != 0 && cc[p - 1] > x) p--;
        out.insert(out.begin() + p, d);
        cc.insert(cc.begin() + p, x);
      }
    }
  } else if (mode == UNORM_NFC || mode == UNORM_NFKC) {
    uint32_t lim = mode == UNORM_NFC ? 0x300 : 0xA0;
    bool simple = true;
    for (uint32_t c : in) simple = simple & (c < lim);
    if (simple) return src;
    std::vector<uint32_t> buf(in.size() * 18 + 8);
    uint64_t n = __sym_unorm(mode == UNORM_NFC ? 0 : 2, in.data(), in.size(), buf.data(), buf.size());
    out.assign(buf.begin(), buf.begin() + n);
  } else {
    return src;
  }
  for (uint32_t c : out) r.append((UChar32)c);
  return r;
}
}  // namespace symicu
U_NAMESPACE_BEGIN
class Normalizer {
 public:
  static void normalize(const UnicodeString &source, UNormalizationMode mode, int32_t, UnicodeString &result, UErrorCode &status) {
    if (U_FAILURE(status)) return;
    result = symicu::normalize(source, mode);
  }
};
U_NAMESPACE_END
