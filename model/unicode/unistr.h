// Model of icu::UnicodeString (the part tokenizers use), UTF-16 storage.
#pragma once
#include <unicode/utypes.h>
#include <unicode/utf16.h>

#include <string>
#include <string_view>

#include "../sym_rt.h"
U_NAMESPACE_BEGIN
class UnicodeString {
 public:
  std::u16string u;
  UnicodeString() {}
  UnicodeString(const UnicodeString &) = default;
  UnicodeString(UnicodeString &&) = default;
  UnicodeString &operator=(const UnicodeString &) = default;
  UnicodeString &operator=(UnicodeString &&) = default;
  UnicodeString(UChar32 c) { append(c); }
  UnicodeString(char16_t c) : u(1, c) {}
  UnicodeString(const char16_t *s) : u(s) {}
  UnicodeString(const char16_t *s, int32_t n) : u(s, n) {}
  UnicodeString(const char *s) { *this = fromUTF8(s); }
  int32_t length() const { return (int32_t)u.size(); }
  UBool isEmpty() const { return u.empty(); }
  UnicodeString &append(UChar32 c) {
    if ((uint32_t)c <= 0xFFFF) u.push_back((char16_t)c);
    else if ((uint32_t)c <= 0x10FFFF) {
      u.push_back((char16_t)(((uint32_t)c >> 10) + 0xD7C0));
      u.push_back((char16_t)(((uint32_t)c & 0x3FF) | 0xDC00));
    }
    return *this;
  }
  UnicodeString &append(char16_t c) { u.push_back(c); return *this; }
  UnicodeString &append(const UnicodeString &o) { u += o.u; return *this; }
  UnicodeString &append(const char16_t *s, int32_t n) { u.append(s, n); return *this; }
  UnicodeString &operator+=(char16_t c) { return append(c); }
  UnicodeString &operator+=(UChar32 c) { return append(c); }
  UnicodeString &operator+=(const UnicodeString &o) { return append(o); }
  char16_t charAt(int32_t i) const { return (uint32_t)i < u.size() ? u[i] : (char16_t)0xffff; }
  char16_t operator[](int32_t i) const { return charAt(i); }
  UChar32 char32At(int32_t i) const {
    if ((uint32_t)i >= u.size()) return 0xffff;
    uint32_t c = u[i];
    if ((c & 0xF800) != 0xD800) return (UChar32)c;
    if ((c & 0x400) == 0) {
      if ((size_t)i + 1 < u.size() && (u[i + 1] & 0xFC00) == 0xDC00) return (UChar32)(((c & 0x3FF) << 10) + (u[i + 1] & 0x3FF) + 0x10000);
    } else if (i > 0 && (u[i - 1] & 0xFC00) == 0xD800) {
      return (UChar32)(((uint32_t)(u[i - 1] & 0x3FF) << 10) + (c & 0x3FF) + 0x10000);
    }
    return (UChar32)c;
  }
  bool isPairAt(size_t i) const { return i + 1 < u.size() && (u[i] & 0xFC00) == 0xD800 && (u[i + 1] & 0xFC00) == 0xDC00; }
  int32_t countChar32(int32_t start = 0, int32_t len = INT32_MAX) const {
    pin(start, len);
    int32_t n = 0;
    for (size_t i = start, e = (size_t)start + len; i < e; n++) i += (i + 1 < e && isPairAt(i)) ? 2 : 1;
    return n;
  }
  int32_t getChar32Start(int32_t i) const {
    if (i > 0 && i < length() && isPairAt(i - 1)) return i - 1;
    return i;
  }
  int32_t getChar32Limit(int32_t i) const {
    if (i > 0 && i < length() && isPairAt(i - 1)) return i + 1;
    return i;
  }
  int32_t moveIndex32(int32_t i, int32_t d) const {
    if (i < 0) i = 0;
    if (i > length()) i = length();
    for (; d > 0 && i < length(); d--) i += isPairAt(i) ? 2 : 1;
    for (; d < 0 && i > 0; d++) i -= (i >= 2 && isPairAt(i - 2)) ? 2 : 1;
    return i;
  }
  static UnicodeString fromUTF8(std::string_view s) {
    UnicodeString r;
    size_t i = 0, n = s.size();
    while (i < n) {
      uint32_t c = (uint8_t)s[i++];
      if (c < 0x80) { r.u.push_back((char16_t)c); continue; }
      if (c >= 0xC2 && c < 0xE0) {
        if (i < n && ((uint8_t)s[i] & 0xC0) == 0x80) { r.u.push_back((char16_t)(((c & 0x1F) << 6) | ((uint8_t)s[i] & 0x3F))); i++; continue; }
      } else if (c >= 0xE0 && c < 0xF0) {
        if (i < n) {
          uint32_t d = (uint8_t)s[i];
          uint32_t lo = 0x80, hi = 0xBF;
          if (c == 0xE0) lo = 0xA0;
          if (c == 0xED) hi = 0x9F;
          if (d >= lo && d <= hi) {
            i++;
            if (i < n && ((uint8_t)s[i] & 0xC0) == 0x80) {
              r.u.push_back((char16_t)(((c & 0xF) << 12) | ((d & 0x3F) << 6) | ((uint8_t)s[i] & 0x3F)));
              i++;
              continue;
            }
          }
        }
      } else if (c >= 0xF0 && c < 0xF5) {
        if (i < n) {
          uint32_t d = (uint8_t)s[i];
          uint32_t lo = 0x80, hi = 0xBF;
          if (c == 0xF0) lo = 0x90;
          if (c == 0xF4) hi = 0x8F;
          if (d >= lo && d <= hi) {
            i++;
            if (i < n && ((uint8_t)s[i] & 0xC0) == 0x80) {
              uint32_t e = (uint8_t)s[i++];
              if (i < n && ((uint8_t)s[i] & 0xC0) == 0x80) {
                r.append((UChar32)(((c & 7) << 18) | ((d & 0x3F) << 12) | ((e & 0x3F) << 6) | ((uint8_t)s[i] & 0x3F)));
                i++;
                continue;
              }
            }
          }
        }
      }
      r.u.push_back(0xFFFD);
    }
    return r;
  }
  static UnicodeString fromUTF32(const UChar32 *p, int32_t n) {
    UnicodeString r;
    for (int32_t i = 0; i < n; i++) {
      uint32_t c = (uint32_t)p[i];
      if (c > 0x10FFFF || (c >= 0xD800 && c <= 0xDFFF)) c = 0xFFFD;
      r.append((UChar32)c);
    }
    return r;
  }
  template <class S>
  S &toUTF8String(S &out) const {
    for (size_t i = 0; i < u.size(); i++) {
      uint32_t c = u[i];
      if (c < 0x80) { out.push_back((char)c); continue; }
      if (c < 0x800) { out.push_back((char)(0xC0 | (c >> 6))); out.push_back((char)(0x80 | (c & 0x3F))); continue; }
      if ((c & 0xF800) == 0xD800) {
        if (isPairAt(i)) {
          c = ((c & 0x3FF) << 10) + (u[i + 1] & 0x3FF) + 0x10000;
          i++;
          out.push_back((char)(0xF0 | (c >> 18)));
          out.push_back((char)(0x80 | ((c >> 12) & 0x3F)));
          out.push_back((char)(0x80 | ((c >> 6) & 0x3F)));
          out.push_back((char)(0x80 | (c & 0x3F)));
          continue;
        }
        c = 0xFFFD;
      }
      out.push_back((char)(0xE0 | (c >> 12)));
      out.push_back((char)(0x80 | ((c >> 6) & 0x3F)));
      out.push_back((char)(0x80 | (c & 0x3F)));
    }
    return out;
  }
  int32_t toUTF32(UChar32 *p, int32_t cap, UErrorCode &status) const {
    int32_t n = 0;
    for (size_t i = 0; i < u.size(); i++, n++) {
      UChar32 c = char32At(i);
      if (isPairAt(i)) i++;
      else if ((c & 0xF800) == 0xD800 && c < 0x10000) { status = U_INVALID_CHAR_FOUND; return n; }
      if (n < cap) p[n] = c;
    }
    if (n > cap) status = U_BUFFER_OVERFLOW_ERROR;
    return n;
  }
  void pin(int32_t &start, int32_t &len) const {
    if (start < 0) start = 0; else if (start > length()) start = length();
    if (len < 0) len = 0; else if (len > length() - start) len = length() - start;
  }
  UnicodeString tempSubString(int32_t start = 0, int32_t len = INT32_MAX) const {
    pin(start, len);
    UnicodeString r;
    r.u = u.substr(start, len);
    return r;
  }
  UnicodeString tempSubStringBetween(int32_t start, int32_t limit = INT32_MAX) const {
    if (start < 0) start = 0; else if (start > length()) start = length();
    if (limit < 0) limit = 0; else if (limit > length()) limit = length();
    return tempSubString(start, limit - start);
  }
  UnicodeString &setTo(const UnicodeString &o) { u = o.u; return *this; }
  UnicodeString &remove() { u.clear(); return *this; }
  UnicodeString &remove(int32_t start, int32_t len = INT32_MAX) { pin(start, len); u.erase(start, len); return *this; }
  UnicodeString &insert(int32_t at, const UnicodeString &o) { int32_t z = 0; pin(at, z); u.insert(at, o.u); return *this; }
  int32_t indexOf(const UnicodeString &o, int32_t start = 0) const {
    size_t r = u.find(o.u, start);
    return r == std::u16string::npos ? -1 : (int32_t)r;
  }
  int32_t indexOf(char16_t c, int32_t start = 0) const {
    size_t r = u.find(c, start);
    return r == std::u16string::npos ? -1 : (int32_t)r;
  }
  UBool startsWith(const UnicodeString &o) const { return u.compare(0, o.u.size(), o.u) == 0; }
  UBool endsWith(const UnicodeString &o) const { return u.size() >= o.u.size() && u.compare(u.size() - o.u.size(), o.u.size(), o.u) == 0; }
  bool operator==(const UnicodeString &o) const { return u == o.u; }
  bool operator!=(const UnicodeString &o) const { return u != o.u; }
  bool operator<(const UnicodeString &o) const { return u < o.u; }
  const char16_t *getBuffer() const { return u.data(); }
  UnicodeString &caseMap(int fn) {
    UnicodeString r;
    for (size_t i = 0; i < u.size(); i++) {
      UChar32 c = char32At((int32_t)i);
      if (isPairAt(i)) i++;
      if (fn == 128 && c == 0x3A3) __sym_unsupported("lower case of a capital sigma depends on its context");
      uint32_t n = __sym_icu(fn, (uint32_t)c);
      for (uint32_t k = 1; k <= n; k++) r.u.push_back((char16_t)__sym_icu(fn + (int)k, (uint32_t)c));
    }
    u = r.u;
    return *this;
  }
  // case mapping of the root locale, which is what the default locale "C" gives
  UnicodeString &toLower() { return caseMap(128); }
  UnicodeString &toUpper() { return caseMap(160); }
  UnicodeString &foldCase(uint32_t o = 0) { if (o) __sym_unsupported("UnicodeString::foldCase options"); return caseMap(192); }
  UnicodeString &trim() {
    size_t e = u.size(), b = 0;
    while (e > 0) {
      UChar32 c = char32At((int32_t)e - 1);
      if (c != 0x20 && !__sym_icu(7, (uint32_t)c)) break;
      e -= c > 0xFFFF ? 2 : 1;
    }
    while (b < e) {
      UChar32 c = char32At((int32_t)b);
      if (c != 0x20 && !__sym_icu(7, (uint32_t)c)) break;
      b += c > 0xFFFF ? 2 : 1;
    }
    u = u.substr(b, e - b);
    return *this;
  }
  UnicodeString &reverse() {
    std::u16string r;
    for (size_t i = u.size(); i > 0; i--) {
      if (i > 1 && isPairAt(i - 2)) { r.push_back(u[i - 2]); r.push_back(u[i - 1]); i--; }
      else r.push_back(u[i - 1]);
    }
    u = r;
    return *this;
  }
  UnicodeString &replace(int32_t start, int32_t len, const UnicodeString &o) { pin(start, len); u.replace(start, len, o.u); return *this; }
  UnicodeString &findAndReplace(const UnicodeString &a, const UnicodeString &b) {
    if (a.u.empty()) return *this;
    for (size_t i = u.find(a.u); i != std::u16string::npos; i = u.find(a.u, i + b.u.size())) u.replace(i, a.u.size(), b.u);
    return *this;
  }
};
inline UnicodeString operator+(const UnicodeString &a, const UnicodeString &b) { UnicodeString r(a); r.append(b); return r; }
U_NAMESPACE_END
