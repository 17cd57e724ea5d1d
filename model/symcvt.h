// Model of std::wstring_convert with codecvt_utf8 / codecvt_utf8_utf16 (libstdc++ behaviour) and a C locale.
#pragma once
#include "symio.h"
#include <stdexcept>
#include <string>
namespace std _GLIBCXX_VISIBILITY(default) {
enum codecvt_mode { consume_header = 4, generate_header = 2, little_endian = 1 };
template <class E, unsigned long M = 0x10ffff, codecvt_mode Mo = (codecvt_mode)0> class codecvt_utf8 { public: typedef E elem; static constexpr unsigned long maxcode = M; static constexpr int mode = Mo; static constexpr bool utf16 = false; };
template <class E, unsigned long M = 0x10ffff, codecvt_mode Mo = (codecvt_mode)0> class codecvt_utf8_utf16 { public: typedef E elem; static constexpr unsigned long maxcode = M; static constexpr int mode = Mo; static constexpr bool utf16 = true; };
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <class Cv, class E = wchar_t, class A1 = allocator<E>, class A2 = allocator<char>> class wstring_convert {
  bool hb_ = false, hw_ = false;
  string eb_;
  basic_string<E> ew_;
  size_t cnt_ = 0;
 public:
  typedef string byte_string;
  typedef basic_string<E> wide_string;
  wstring_convert() {}
  explicit wstring_convert(Cv *) {}
  explicit wstring_convert(const byte_string &b, const wide_string &w = wide_string()) : hb_(true), hw_(true), eb_(b), ew_(w) {}
  size_t converted() const { return cnt_; }
  wide_string from_bytes(char c) { return from_bytes(&c, &c + 1); }
  wide_string from_bytes(const char *p) { return from_bytes(p, p + char_traits<char>::length(p)); }
  wide_string from_bytes(const byte_string &s) { return from_bytes(s.data(), s.data() + s.size()); }
  wide_string from_bytes(const char *p, const char *e) {
    wide_string r;
    const unsigned char *s = (const unsigned char *)p;
    size_t i = 0, n = (size_t)(e - p);
    if ((Cv::mode & consume_header) && n >= 3 && s[0] == 0xEF && s[1] == 0xBB && s[2] == 0xBF) i = 3;
    while (i < n) {
      uint32_t c = s[i];
      if (c < 0x80) { r.push_back((E)c); i++; continue; }
      if (c < 0xC2 || c >= 0xF5) goto bad;
      if (c < 0xE0) {
        if (i + 1 >= n) break;
        if ((s[i + 1] & 0xC0) != 0x80) goto bad;
        c = ((c & 0x1F) << 6) | (s[i + 1] & 0x3Fu);
        i += 2;
      } else if (c < 0xF0) {
        if (i + 1 >= n) break;
        uint32_t d = s[i + 1];
        if ((d & 0xC0) != 0x80 || (c == 0xE0 && d < 0xA0) || (c == 0xED && d >= 0xA0)) goto bad;
        if (i + 2 >= n) break;
        if ((s[i + 2] & 0xC0) != 0x80) goto bad;
        c = ((c & 0xF) << 12) | ((d & 0x3F) << 6) | (s[i + 2] & 0x3Fu);
        i += 3;
      } else {
        if (i + 1 >= n) break;
        uint32_t d = s[i + 1];
        if ((d & 0xC0) != 0x80 || (c == 0xF0 && d < 0x90) || (c == 0xF4 && d >= 0x90)) goto bad;
        if (i + 2 >= n) break;
        if ((s[i + 2] & 0xC0) != 0x80) goto bad;
        if (i + 3 >= n) break;
        if ((s[i + 3] & 0xC0) != 0x80) goto bad;
        c = ((c & 7) << 18) | ((d & 0x3F) << 12) | ((s[i + 2] & 0x3Fu) << 6) | (s[i + 3] & 0x3Fu);
        i += 4;
      }
      if (c > Cv::maxcode) goto bad;
      if (Cv::utf16 && c > 0xFFFF) { r.push_back((E)(0xD7C0 + (c >> 10))); r.push_back((E)(0xDC00 | (c & 0x3FF))); }
      else r.push_back((E)c);
      continue;
    bad:
      if (hw_) return ew_;
      throw range_error("wstring_convert::from_bytes");
    }
    cnt_ = i;
    return r;
  }
  byte_string to_bytes(E c) { return to_bytes(&c, &c + 1); }
  byte_string to_bytes(const E *p) { return to_bytes(p, p + char_traits<E>::length(p)); }
  byte_string to_bytes(const wide_string &w) { return to_bytes(w.data(), w.data() + w.size()); }
  byte_string to_bytes(const E *p, const E *e) {
    byte_string r;
    if ((Cv::mode & generate_header) && p != e) r = "\xEF\xBB\xBF";
    for (size_t i = 0, n = (size_t)(e - p); i < n; i++) {
      uint32_t c = (uint32_t)p[i];
      if (Cv::utf16 && c >= 0xD800 && c < 0xDC00) {
        if (i + 1 >= n) break;
        uint32_t d = (uint32_t)p[i + 1];
        if (d < 0xDC00 || d > 0xDFFF) goto bad;
        c = (c << 10) + d - 0x35FDC00;
        i++;
      }
      if (c > Cv::maxcode || (c >= 0xD800 && c <= 0xDFFF)) goto bad;
      if (c < 0x80) r.push_back((char)c);
      else if (c < 0x800) { r.push_back((char)(0xC0 | (c >> 6))); r.push_back((char)(0x80 | (c & 63))); }
      else if (c < 0x10000) { r.push_back((char)(0xE0 | (c >> 12))); r.push_back((char)(0x80 | ((c >> 6) & 63))); r.push_back((char)(0x80 | (c & 63))); }
      else { r.push_back((char)(0xF0 | (c >> 18))); r.push_back((char)(0x80 | ((c >> 12) & 63))); r.push_back((char)(0x80 | ((c >> 6) & 63))); r.push_back((char)(0x80 | (c & 63))); }
      continue;
    bad:
      if (hb_) return eb_;
      throw range_error("wstring_convert::to_bytes");
    }
    return r;
  }
};
_GLIBCXX_END_NAMESPACE_CXX11
class locale {
 public:
  locale() {}
  explicit locale(const char *n) { if (strcmp(n, "C") && strcmp(n, "")) __sym_unsupported("locale"); }
  static const locale &classic() { static locale l; return l; }
  static locale global(const locale &) { return locale(); }
};
template <class C> inline bool isspace(C c, const locale &) { return (c == (C)32) | ((c >= (C)9) & (c <= (C)13)); }
template <class C> inline bool isdigit(C c, const locale &) { return (c >= (C)'0') & (c <= (C)'9'); }
template <class C> inline bool isalpha(C c, const locale &) { return (c >= (C)'a' && c <= (C)'z') || (c >= (C)'A' && c <= (C)'Z'); }
template <class C> inline C tolower(C c, const locale &) { return c >= (C)'A' && c <= (C)'Z' ? (C)(c + 32) : c; }
template <class C> inline C toupper(C c, const locale &) { return c >= (C)'a' && c <= (C)'z' ? (C)(c - 32) : c; }
}
