// Model of icu::UnicodeSet: a list of ranges and pattern classes.
#pragma once
#include <unicode/unistr.h>
#include <unicode/uset.h>

#include <vector>

#include "../mini_regex.h"
U_NAMESPACE_BEGIN
class UnicodeSet {
  struct Part { bool on, pat; uint32_t lo, hi; minire::Prog prog; };
  std::vector<Part> p_;
 public:
  UnicodeSet() {}
  UnicodeSet(UChar32 a, UChar32 b) { add(a, b); }
  UnicodeSet(const UnicodeString &s, UErrorCode &e) { applyPattern(s, e); }
  virtual ~UnicodeSet() {}
  UnicodeSet &applyPattern(const UnicodeString &s, UErrorCode &e) {
    if (U_FAILURE(e)) return *this;
    std::vector<uint32_t> p;
    for (int32_t i = 0; i < s.length();) { p.push_back((uint32_t)s.char32At(i)); i += s.isPairAt(i) ? 2 : 1; }
    for (auto &c : p) c = (uint32_t)__sym_concretize(c);
    if (p.empty() || (p[0] != '[' && p[0] != '\\')) __sym_unsupported("pattern of a UnicodeSet");
    Part x{true, true, 0, 0, minire::compile(p, minire::ICU16)};
    if (!x.prog.ok) __sym_unsupported("pattern of a UnicodeSet");
    p_.assign(1, x);
    return *this;
  }
  UnicodeSet &add(UChar32 c) { return add(c, c); }
  UnicodeSet &add(UChar32 a, UChar32 b) { p_.push_back({true, false, (uint32_t)a, (uint32_t)b, {}}); return *this; }
  UnicodeSet &remove(UChar32 c) { return remove(c, c); }
  UnicodeSet &remove(UChar32 a, UChar32 b) { p_.push_back({false, false, (uint32_t)a, (uint32_t)b, {}}); return *this; }
  UnicodeSet *freeze() { return this; }
  UBool contains(UChar32 c) const {
    bool in = false;
    for (auto &x : p_) {
      uint32_t u = (uint32_t)c;
      bool hit = x.pat ? minire::Matcher(x.prog, &u, 1, minire::ICU16).run(0, 0) : ((u >= x.lo) & (u <= x.hi));
      if (hit) in = x.on;
    }
    return in;
  }
};
U_NAMESPACE_END
