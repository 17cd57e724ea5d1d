// Reference definitions shared by harnesses: UTF-8 decoding, the byte-level alphabet.
#pragma once
#include "sym.h"
// well-formed UTF-8 (Unicode table 3-7); false when malformed
inline bool refDecode(const std::string &s, Text &out) {
  size_t i = 0, n = s.size();
  auto b = [&](size_t k) { return (uint32_t)(unsigned char)s[k]; };
  while (i < n) {
    uint32_t c = b(i);
    if (c < 0x80) { out.push_back(c); i++; continue; }
    int len = (c >= 0xC2) & (c <= 0xDF) ? 2 : (c & 0xF0) == 0xE0 ? 3 : (c >= 0xF0) & (c <= 0xF4) ? 4 : 0;
    if (!len || i + len > n) return false;
    uint32_t d = b(i + 1);
    uint32_t lo = c == 0xE0 ? 0xA0 : c == 0xF0 ? 0x90 : 0x80, hi = c == 0xED ? 0x9F : c == 0xF4 ? 0x8F : 0xBF;
    if ((d < lo) | (d > hi)) return false;
    uint32_t v = len == 2 ? c & 0x1F : len == 3 ? c & 0xF : c & 7;
    v = v << 6 | (d & 0x3F);
    for (int k = 2; k < len; k++) {
      uint32_t e = b(i + k);
      if ((e & 0xC0) != 0x80) return false;
      v = v << 6 | (e & 0x3F);
    }
    out.push_back(v);
    i += len;
  }
  return true;
}
// GPT-2 bytes_to_unicode
inline uint32_t refByteChar(int b) {
  if ((b >= 33 && b <= 126) || (b >= 161 && b <= 172) || (b >= 174 && b <= 255)) return b;
  if (b <= 32) return 256 + b;            // 0..32 -> 256..288
  if (b <= 160) return 289 + (b - 127);   // 127..160 -> 289..322
  return 323;                             // 173
}
inline std::string refByteLevel(const std::string &bytes) {
  std::string o;
  for (unsigned char c : bytes) utf8Append(o, refByteChar(c));
  return o;
}
inline std::string refReplace(const std::string &s, const std::string &from, const std::string &to) {
  std::string o;
  for (size_t i = 0; i < s.size();) {
    bool m = i + from.size() <= s.size();
    for (size_t k = 0; m && k < from.size(); k++) m = s[i + k] == from[k];
    if (m) { o += to; i += from.size(); }
    else o.push_back(s[i++]);
  }
  return o;
}
