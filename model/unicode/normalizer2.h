#pragma once
#include <unicode/normlzr.h>
U_NAMESPACE_BEGIN
class Normalizer2 {
 public:
  int mode;
  static const Normalizer2 *inst(int m) {
    static const Normalizer2 a[4] = {{UNORM_NFC}, {UNORM_NFD}, {UNORM_NFKC}, {UNORM_NFKD}};
    return &a[m];
  }
  static const Normalizer2 *getNFCInstance(UErrorCode &) { return inst(0); }
  static const Normalizer2 *getNFDInstance(UErrorCode &) { return inst(1); }
  static const Normalizer2 *getNFKCInstance(UErrorCode &) { return inst(2); }
  static const Normalizer2 *getNFKDInstance(UErrorCode &) { return inst(3); }
  UnicodeString normalize(const UnicodeString &s, UErrorCode &) const { return symicu::normalize(s, mode); }
  UnicodeString &normalize(const UnicodeString &s, UnicodeString &d, UErrorCode &) const { d = symicu::normalize(s, mode); return d; }
  uint8_t getCombiningClass(UChar32 c) const { return (uint8_t)__sym_icu(SI_CCC, (uint32_t)c); }
  UBool isNormalized(const UnicodeString &s, UErrorCode &) const { return symicu::normalize(s, mode) == s; }
  UBool getDecomposition(UChar32 c, UnicodeString &d) const {
    int base = mode == UNORM_NFC || mode == UNORM_NFD ? SI_NFD : SI_NFKD;
    uint64_t n = __sym_concretize(__sym_icu(base, (uint32_t)c));
    UnicodeString r;
    for (uint64_t k = 0; k < n; k++) r.append((UChar32)__sym_icu(base + 1 + (int)k, (uint32_t)c));
    if (r == UnicodeString(c)) return false;
    d = r;
    return true;
  }
};
U_NAMESPACE_END
