// Character classes of the reference definitions.
#pragma once
#include <unicode/uchar.h>
#include "ref.h"
static inline bool ws(uint32_t c) { return u_isUWhiteSpace((UChar32)c); }
static inline bool letter(uint32_t c) { int t = u_charType((UChar32)c); return (t >= 1) & (t <= 5); }
static inline bool number(uint32_t c) { int t = u_charType((UChar32)c); return (t >= 9) & (t <= 11); }
static inline bool punct(uint32_t c) {
  int t = u_charType((UChar32)c);
  bool p = ((t >= 19) & (t <= 23)) | (t == 28) | (t == 29);
  return p | ((c >= 33) & (c <= 47)) | ((c >= 58) & (c <= 64)) | ((c >= 91) & (c <= 96)) | ((c >= 123) & (c <= 126));
}
// alphabetic, mark, decimal digit or connector punctuation
static inline bool wordCh(uint32_t c) {
  int t = u_charType((UChar32)c);
  return u_isUAlphabetic((UChar32)c) | ((t >= 6) & (t <= 9)) | (t == 22);
}
static inline std::string sub(const Text &t, int a, int b) { return toU8(Text(t.begin() + a, t.begin() + b)); }
