#pragma once
#include <unicode/unistr.h>
#include <unicode/parseerr.h>
#include <unicode/uregex.h>

#include <vector>

#include "../mini_regex.h"
U_NAMESPACE_BEGIN
class RegexMatcher;
class RegexPattern {
 public:
  minire::Prog prog;
  static RegexPattern *compile(const UnicodeString &s, uint32_t flags, UErrorCode &status) {
    if (U_FAILURE(status)) return nullptr;
    if (flags) __sym_unsupported("regex flags");
    std::vector<uint32_t> p;
    for (int32_t i = 0; i < s.length();) { p.push_back((uint32_t)s.char32At(i)); i += s.isPairAt(i) ? 2 : 1; }
    for (auto &c : p) c = (uint32_t)__sym_concretize(c);
    RegexPattern *r = new RegexPattern();
    r->prog = minire::compile(p, minire::ICU16);
    if (!r->prog.ok) { delete r; status = U_REGEX_RULE_SYNTAX; return nullptr; }
    return r;
  }
  static RegexPattern *compile(const UnicodeString &s, UParseError &, UErrorCode &status) { return compile(s, 0, status); }
  static RegexPattern *compile(const UnicodeString &s, uint32_t flags, UParseError &, UErrorCode &status) { return compile(s, flags, status); }
  inline RegexMatcher *matcher(const UnicodeString &in, UErrorCode &status) const;
  virtual ~RegexPattern() {}
};
class RegexMatcher {
 public:
  minire::Prog prog;
  std::vector<uint32_t> in;
  std::vector<int32_t> idx;
  UnicodeString text;
  std::vector<int> caps;
  size_t next = 0;
  bool have = false, lastEmptyAt = false;
  RegexMatcher(const minire::Prog &p, const UnicodeString &s) : prog(p), text(s) {
    for (int32_t i = 0; i < s.length();) { in.push_back((uint32_t)s.char32At(i)); idx.push_back(i); i += s.isPairAt(i) ? 2 : 1; }
    idx.push_back(s.length());
  }
  RegexMatcher(const UnicodeString &re, const UnicodeString &s, uint32_t flags, UErrorCode &status) {
    RegexPattern *p = RegexPattern::compile(re, flags, status);
    if (p) { *this = RegexMatcher(p->prog, s); delete p; }
  }
  virtual ~RegexMatcher() {}
  UBool find(UErrorCode &status) { return U_FAILURE(status) ? false : find(); }
  UBool find() {
    size_t from = next;
    if (have && caps[0] == caps[1]) from = (size_t)caps[1] + 1;
    if (from > in.size()) { have = false; next = in.size() + 1; return false; }
    minire::Matcher m(prog, in.data(), in.size(), minire::ICU16);
    if (!m.searchFrom(from)) { have = false; next = in.size() + 1; return false; }
    caps = m.caps;
    next = caps[1];
    have = true;
    return true;
  }
  UBool lookingAt(UErrorCode &) {
    minire::Matcher m(prog, in.data(), in.size(), minire::ICU16);
    have = m.run(0, 0);
    if (have) { caps = m.caps; next = caps[1]; }
    return have;
  }
  UBool matches(UErrorCode &status) {
    if (U_FAILURE(status)) return false;
    minire::Matcher m(prog, in.data(), in.size(), minire::ICU16);
    m.whole = true;
    have = m.run(0, 0);
    if (have) { caps = m.caps; next = caps[1]; }
    return have;
  }
  RegexMatcher &reset() { next = 0; have = false; return *this; }
  RegexMatcher &reset(const UnicodeString &s) { minire::Prog p = prog; *this = RegexMatcher(p, s); return *this; }
  UBool find(int64_t at, UErrorCode &status) {
    if (U_FAILURE(status)) return false;
    if (at < 0 || at > text.length()) { status = U_INDEX_OUTOFBOUNDS_ERROR; return false; }
    reset();
    while (idx[next] < at) next++;
    return find();
  }
  int32_t groupCount() const { return (int32_t)caps.size() / 2 - 1; }
  bool group_(int32_t g, UErrorCode &status) const {
    if (U_FAILURE(status)) return false;
    if (!have) { status = U_REGEX_INVALID_STATE; return false; }
    if (g < 0 || 2 * (size_t)g + 1 >= caps.size()) { status = U_INDEX_OUTOFBOUNDS_ERROR; return false; }
    return caps[2 * g] >= 0 && caps[2 * g + 1] >= 0;
  }
  int32_t start(int32_t g, UErrorCode &status) const { return group_(g, status) ? idx[caps[2 * g]] : -1; }
  int32_t end(int32_t g, UErrorCode &status) const { return group_(g, status) ? idx[caps[2 * g + 1]] : -1; }
  int32_t start(UErrorCode &status) const { return start(0, status); }
  int32_t end(UErrorCode &status) const { return end(0, status); }
  UnicodeString group(int32_t g, UErrorCode &status) const { return group_(g, status) ? text.tempSubStringBetween(idx[caps[2 * g]], idx[caps[2 * g + 1]]) : UnicodeString(); }
  UnicodeString group(UErrorCode &status) const { return group(0, status); }
};
inline RegexMatcher *RegexPattern::matcher(const UnicodeString &in, UErrorCode &status) const {
  if (U_FAILURE(status)) return nullptr;
  return new RegexMatcher(prog, in);
}
U_NAMESPACE_END
