// Harness interface. The same harness source is executed symbolically (compiled to LLVM bitcode)
// and natively (replay of concrete inputs against the real libraries).
#pragma once
#include <cstdint>
#include <initializer_list>
#include <optional>
#include <string>
#include <utility>
#include <vector>
extern "C" {
uint64_t __sym_int(const char *name, uint64_t lo, uint64_t hi);
void __sym_assume(int c);
void __sym_assert(int c, const char *msg);
void __sym_fail(const char *msg);
void __sym_reach(const char *tag);
void __sym_observe(uint64_t v);
uint64_t __sym_concretize(uint64_t v);
}
#define ASSUME(c) __sym_assume((c) ? 1 : 0)
#define CHECK(c, msg) __sym_assert((c) ? 1 : 0, msg)
#define REACH(tag) __sym_reach(tag)
#define ENTRY(n) extern "C" void n()
inline int symInt(const char *name, int lo, int hi) { return (int)__sym_int(name, (uint64_t)(int64_t)lo, (uint64_t)(int64_t)hi); }
inline bool symBool(const char *name) { return __sym_int(name, 0, 1) != 0; }
// concrete choice in [lo,hi] (every value explored on its own path)
inline int choose(const char *name, int lo, int hi) { return (int)(int64_t)__sym_concretize(__sym_int(name, (uint64_t)(int64_t)lo, (uint64_t)(int64_t)hi)); }
// one of the given values, left symbolic
inline uint32_t symPick(const char *name, const std::vector<uint32_t> &al) {
  uint64_t i = __sym_int(name, 0, al.size() - 1);
  return al[i];
}
// a Unicode scalar value
inline uint32_t symScalar(const char *name, uint32_t lo = 0, uint32_t hi = 0x10FFFF) {
  uint32_t c = (uint32_t)__sym_int(name, lo, hi);
  ASSUME((c < 0xD800) | (c > 0xDFFF));
  return c;
}
typedef std::vector<uint32_t> Text;  // code points
inline Text symText(const char *name, int minlen, int maxlen, const std::vector<uint32_t> &al) {
  int n = choose(name, minlen, maxlen);
  Text t;
  for (int i = 0; i < n; i++) t.push_back(symPick("c", al));
  return t;
}
inline std::wstring toW(const Text &t) {
  std::wstring w;
  for (uint32_t c : t) w.push_back((wchar_t)c);
  return w;
}
// reference UTF-8 encoder, independent of the code under test
inline void utf8Append(std::string &o, uint32_t c) {
  if (c < 0x80) o.push_back((char)c);
  else if (c < 0x800) { o.push_back((char)(0xC0 | (c >> 6))); o.push_back((char)(0x80 | (c & 63))); }
  else if (c < 0x10000) { o.push_back((char)(0xE0 | (c >> 12))); o.push_back((char)(0x80 | ((c >> 6) & 63))); o.push_back((char)(0x80 | (c & 63))); }
  else { o.push_back((char)(0xF0 | (c >> 18))); o.push_back((char)(0x80 | ((c >> 12) & 63))); o.push_back((char)(0x80 | ((c >> 6) & 63))); o.push_back((char)(0x80 | (c & 63))); }
}
inline std::string toU8(const Text &t) {
  std::string o;
  for (uint32_t c : t) utf8Append(o, c);
  return o;
}
inline int u8len(uint32_t c) { return 1 + (c >= 0x80) + (c >= 0x800) + (c >= 0x10000); }
inline void obs(uint64_t v) { __sym_observe(v); }
inline void obs(const std::string &s) { obs((uint64_t)s.size()); for (char c : s) obs((uint64_t)(unsigned char)c); }
inline void obs(const std::wstring &s) { obs((uint64_t)s.size()); for (wchar_t c : s) obs((uint64_t)(uint32_t)c); }
inline void obs(const std::vector<std::string> &v) { obs((uint64_t)v.size()); for (auto &s : v) obs(s); }
inline void obs(const std::vector<std::pair<int, int>> &v) { obs((uint64_t)v.size()); for (auto &p : v) { obs((uint64_t)(uint32_t)p.first); obs((uint64_t)(uint32_t)p.second); } }
inline void obs(const std::vector<int> &v) { obs((uint64_t)v.size()); for (int x : v) obs((uint64_t)(uint32_t)x); }
// runs f; any exception is a violation
template <class F> inline void noThrow(const char *msg, F f) {
  bool bad = false;
  try { f(); } catch (...) { bad = true; }
  if (bad) __sym_fail(msg);
}
// string equality without early exit: one formula instead of one path per position
inline bool sameStr(const std::string &a, const std::string &b) {
  if (a.size() != b.size()) return false;
  unsigned d = 0;
  for (size_t i = 0; i < a.size(); i++) d |= (unsigned char)(a[i] ^ b[i]);
  return d == 0;
}
inline bool sameW(const std::wstring &a, const std::wstring &b) {
  if (a.size() != b.size()) return false;
  uint32_t d = 0;
  for (size_t i = 0; i < a.size(); i++) d |= (uint32_t)a[i] ^ (uint32_t)b[i];
  return d == 0;
}
inline bool sameInts(const std::vector<int> &a, const std::vector<int> &b) {
  if (a.size() != b.size()) return false;
  uint32_t d = 0;
  for (size_t i = 0; i < a.size(); i++) d |= (uint32_t)a[i] ^ (uint32_t)b[i];
  return d == 0;
}
// random draws of the code under test (shim/random): 1 draws a number below every probability, 0 one above every probability but 1
inline int g_draws = 0, g_dropped = 0, g_trailing = 0;  // drawn, dropped, dropped since one was not
inline int g_drawlimit = 40;  // later draws do not drop
extern "C" __attribute__((weak)) int vp_draw() {
  int d = g_draws++ < g_drawlimit ? choose("draw", 0, 1) : 0;
  g_dropped += d;
  g_trailing = d ? g_trailing + 1 : 0;
  return d;
}
// a long text: characters of al in a fixed irregular order, one of them (first, middle or last) any of al
inline Text longText(const std::vector<int> &lens, const std::vector<uint32_t> &al, int places = 3) {
  int n = lens[choose("length", 0, (int)lens.size() - 1)], at = choose("place", 0, places - 1);
  Text t;
  unsigned x = 1;
  for (int i = 0; i < n; i++) { x = x * 1103515245u + 12345u; t.push_back(al[(x >> 16) % al.size()]); }
  if (n) t[at == 0 ? n / 2 : at == 1 ? n - 1 : 0] = symPick("c", al);
  return t;
}
