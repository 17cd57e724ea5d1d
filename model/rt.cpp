// C library and ICU C functions the code under test may call, for the symbolic executor.
#include <unicode/uchar.h>
#include <unicode/uscript.h>
#include <cstddef>
#include <cstdint>
#include <wchar.h>
#include <wctype.h>
#include <ctype.h>

#include "sym_rt.h"
extern "C" {
char __libc_single_threaded = 0;  // as if other threads run: reference counts are atomic
void __sym_once(int);
int pthread_once(int *o, void (*f)()) {
  if (*(volatile int *)o == 2) return 0;
  __sym_once(1);
  f();
  *(volatile int *)o = 2;
  __sym_once(0);
  return 0;
}
int8_t u_charType(UChar32 c) { return (int8_t)__sym_icu(0, (uint32_t)c); }
UChar32 u_tolower(UChar32 c) { return (UChar32)__sym_icu(1, (uint32_t)c); }
UBool u_isUWhiteSpace(UChar32 c) { return __sym_icu(2, (uint32_t)c); }
uint8_t u_getCombiningClass(UChar32 c) { return (uint8_t)__sym_icu(3, (uint32_t)c); }
UChar32 u_toupper(UChar32 c) { return (UChar32)__sym_icu(4, (uint32_t)c); }
UChar32 u_foldCase(UChar32 c, uint32_t o) { if (o) __sym_unsupported("u_foldCase options"); return (UChar32)__sym_icu(5, (uint32_t)c); }
UBool u_isspace(UChar32 c) { return __sym_icu(6, (uint32_t)c); }
UBool u_isWhitespace(UChar32 c) { return __sym_icu(7, (uint32_t)c); }
UBool u_iscntrl(UChar32 c) { return __sym_icu(8, (uint32_t)c); }
UBool u_ispunct(UChar32 c) { return __sym_icu(9, (uint32_t)c); }
UBool u_isalpha(UChar32 c) { return __sym_icu(10, (uint32_t)c); }
UBool u_isalnum(UChar32 c) { return __sym_icu(11, (uint32_t)c); }
UBool u_isdigit(UChar32 c) { return __sym_icu(12, (uint32_t)c); }
UBool u_isupper(UChar32 c) { return __sym_icu(13, (uint32_t)c); }
UBool u_islower(UChar32 c) { return __sym_icu(14, (uint32_t)c); }
UBool u_isISOControl(UChar32 c) { return __sym_icu(15, (uint32_t)c); }
UBool u_isUAlphabetic(UChar32 c) { return __sym_icu(16, (uint32_t)c); }
UBool u_isprint(UChar32 c) { return __sym_icu(17, (uint32_t)c); }
UBool u_isgraph(UChar32 c) { return __sym_icu(18, (uint32_t)c); }
UBool u_isblank(UChar32 c) { return __sym_icu(19, (uint32_t)c); }
UChar32 u_totitle(UChar32 c) { return (UChar32)__sym_icu(20, (uint32_t)c); }
UBool u_isJavaSpaceChar(UChar32 c) { return __sym_icu(21, (uint32_t)c); }
UBool u_isxdigit(UChar32 c) { return __sym_icu(22, (uint32_t)c); }
UBool u_istitle(UChar32 c) { return __sym_icu(23, (uint32_t)c); }
UBool u_isbase(UChar32 c) { return __sym_icu(24, (uint32_t)c); }
UBool u_isdefined(UChar32 c) { return __sym_icu(25, (uint32_t)c); }
UBool u_isIDPart(UChar32 c) { return __sym_icu(26, (uint32_t)c); }
UBool u_isIDStart(UChar32 c) { return __sym_icu(27, (uint32_t)c); }
int32_t u_charDigitValue(UChar32 c) { return (int32_t)__sym_icu(28, (uint32_t)c); }
UBool u_isULowercase(UChar32 c) { return __sym_icu(29, (uint32_t)c); }
UBool u_isUUppercase(UChar32 c) { return __sym_icu(30, (uint32_t)c); }
UBool u_hasBinaryProperty(UChar32 c, UProperty p) {
  if (__sym_symbolic((uint64_t)p)) __sym_unsupported("u_hasBinaryProperty");
  return __sym_icu(0x1000 + (int)p, (uint32_t)c);
}
int32_t u_getIntPropertyValue(UChar32 c, UProperty p) {
  if (__sym_symbolic((uint64_t)p)) __sym_unsupported("u_getIntPropertyValue");
  return (int32_t)__sym_icu(0x2000 + (int)p, (uint32_t)c);
}
UScriptCode uscript_getScript(UChar32 c, UErrorCode *e) {
  if (*e > U_ZERO_ERROR) return USCRIPT_INVALID_CODE;
  if ((uint32_t)c > 0x10FFFF) { *e = U_ILLEGAL_ARGUMENT_ERROR; return USCRIPT_INVALID_CODE; }
  return (UScriptCode)__sym_icu(0x2000 + UCHAR_SCRIPT, (uint32_t)c);
}
UBlockCode ublock_getCode(UChar32 c) { return (UBlockCode)__sym_icu(0x2000 + UCHAR_BLOCK, (uint32_t)c); }
// C locale
#undef isspace
#undef isdigit
#undef tolower
#undef toupper
static int lowr(unsigned c) { return (c >= 'a') & (c <= 'z'); }
static int uppr(unsigned c) { return (c >= 'A') & (c <= 'Z'); }
static int dig(unsigned c) { return (c >= '0') & (c <= '9'); }
static int spc(unsigned c) { return (c == 32) | ((c >= 9) & (c <= 13)); }
static int ctl(unsigned c) { return (c < 32) | (c == 127); }
static int gph(unsigned c) { return (c > 32) & (c < 127); }
int isspace(int c) { return spc(c); }
int isdigit(int c) { return dig(c); }
int isalpha(int c) { return lowr(c) | uppr(c); }
int isalnum(int c) { return lowr(c) | uppr(c) | dig(c); }
int isupper(int c) { return uppr(c); }
int islower(int c) { return lowr(c); }
int iscntrl(int c) { return ctl(c); }
int ispunct(int c) { return gph(c) & !(lowr(c) | uppr(c) | dig(c)); }
int isprint(int c) { return gph(c) | (c == 32); }
int isgraph(int c) { return gph(c); }
int isblank(int c) { return (c == 32) | (c == 9); }
int isxdigit(int c) { return dig(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
int tolower(int c) { return uppr(c) ? c + 32 : c; }
int toupper(int c) { return lowr(c) ? c - 32 : c; }
int iswspace(wint_t c) { return spc(c); }
int iswdigit(wint_t c) { return dig(c); }
int iswalpha(wint_t c) { return lowr(c) | uppr(c); }
int iswalnum(wint_t c) { return lowr(c) | uppr(c) | dig(c); }
int iswupper(wint_t c) { return uppr(c); }
int iswlower(wint_t c) { return lowr(c); }
int iswcntrl(wint_t c) { return ctl(c); }
int iswpunct(wint_t c) { return gph(c) & !(lowr(c) | uppr(c) | dig(c)); }
int iswprint(wint_t c) { return gph(c) | (c == 32); }
int iswgraph(wint_t c) { return gph(c); }
int iswblank(wint_t c) { return (c == 32) | (c == 9); }
wint_t towlower(wint_t c) { return uppr(c) ? c + 32 : c; }
wint_t towupper(wint_t c) { return lowr(c) ? c - 32 : c; }
static int digv(unsigned c) { return dig(c) ? (int)c - '0' : lowr(c) ? (int)c - 'a' + 10 : uppr(c) ? (int)c - 'A' + 10 : 99; }
unsigned long long strtoull(const char *s, char **e, int b) {
  const char *p = s;
  while (spc((unsigned char)*p)) p++;
  int neg = 0;
  if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if ((b == 0 || b == 16) && p[0] == '0' && (p[1] | 32) == 'x' && digv((unsigned char)p[2]) < 16) { b = 16; p += 2; }
  if (b == 0) b = *p == '0' ? 8 : 10;
  unsigned long long v = 0;
  int any = 0;
  for (; digv((unsigned char)*p) < b; p++) { v = v * b + digv((unsigned char)*p); any = 1; }
  if (e) *e = (char *)(any ? p : s);
  return neg ? 0 - v : v;
}
long long strtoll(const char *s, char **e, int b) { return (long long)strtoull(s, e, b); }
long strtol(const char *s, char **e, int b) { return (long)strtoull(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return (long)strtoull(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return (long long)strtoull(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
int atoi(const char *s) { return (int)strtoull(s, 0, 10); }
static int err_;
int *__errno_location(void) { return &err_; }
int wcscmp(const wchar_t *a, const wchar_t *b) { while (*a && *a == *b) a++, b++; return *a < *b ? -1 : *a > *b; }
int wcsncmp(const wchar_t *a, const wchar_t *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) return 0; } return 0; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
wchar_t *wcschr(const wchar_t *s, wchar_t c) { for (;; s++) { if (*s == c) return (wchar_t *)s; if (!*s) return 0; } }
char *strstr(const char *h, const char *n) {
  for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char *)h; if (!*h) return 0; }
}
int puts(const char *) { return 0; }
int putchar(int) { return 0; }
int fflush(void *) { return 0; }
char *setlocale(int, const char *) { return (char *)"C"; }
char *getenv(const char *) { return 0; }
}
// std::map/set nodes: an unbalanced search tree behaves the same
namespace std {
struct _Rb_tree_node_base { int color; _Rb_tree_node_base *parent, *left, *right; };
typedef _Rb_tree_node_base *P;
P _Rb_tree_increment(P x) {
  if (x->right) { x = x->right; while (x->left) x = x->left; return x; }
  P y = x->parent;
  while (x == y->right) { x = y; y = y->parent; }
  if (x->right != y) x = y;
  return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) { return _Rb_tree_increment((P)x); }
P _Rb_tree_decrement(P x) {
  if (x->color == 0 && x->parent->parent == x) return x->right;
  if (x->left) { P y = x->left; while (y->right) y = y->right; return y; }
  P y = x->parent;
  while (x == y->left) { x = y; y = y->parent; }
  return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) { return _Rb_tree_decrement((P)x); }
// header is red (0), every other node black (1): the header test in decrement stays right
void _Rb_tree_insert_and_rebalance(const bool left, P x, P p, _Rb_tree_node_base &h) {
  x->parent = p; x->left = x->right = 0; x->color = 1;
  h.color = 0;
  if (left) {
    p->left = x;
    if (p == &h) { h.parent = x; h.right = x; } else if (p == h.left) h.left = x;
  } else {
    p->right = x;
    if (p == h.right) h.right = x;
  }
}
P _Rb_tree_rebalance_for_erase(P z, _Rb_tree_node_base &h) {
  P nxt = 0, r;
  if (!z->left) r = z->right;
  else if (!z->right) r = z->left;
  else {
    nxt = z->right;
    while (nxt->left) nxt = nxt->left;
    if (nxt->parent != z) {
      nxt->parent->left = nxt->right;
      if (nxt->right) nxt->right->parent = nxt->parent;
      nxt->right = z->right;
      z->right->parent = nxt;
    }
    nxt->left = z->left;
    z->left->parent = nxt;
    r = nxt;
  }
  P lm = h.left == z ? (z->right ? z->right : z->parent) : h.left;
  if (h.left == z && z->right) while (lm->left) lm = lm->left;
  P rm = h.right == z ? (z->left ? z->left : z->parent) : h.right;
  if (h.right == z && z->left) while (rm->right) rm = rm->right;
  if (r) r->parent = z->parent;
  if (h.parent == z) h.parent = r;
  else if (z->parent->left == z) z->parent->left = r;
  else z->parent->right = r;
  h.left = lm;
  h.right = rm;
  return z;
}
namespace __detail {
struct _List_node_base {
  _List_node_base *next, *prev;
  void _M_hook(_List_node_base *p) noexcept;
  void _M_unhook() noexcept;
  void _M_transfer(_List_node_base *f, _List_node_base *l) noexcept;
  void _M_reverse() noexcept;
  static void swap(_List_node_base &, _List_node_base &) noexcept;
};
void _List_node_base::_M_hook(_List_node_base *p) noexcept { next = p; prev = p->prev; p->prev->next = this; p->prev = this; }
void _List_node_base::_M_unhook() noexcept { prev->next = next; next->prev = prev; }
void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept {
  if (this != l) {
    l->prev->next = this; f->prev->next = l; prev->next = f;
    _List_node_base *t = prev; prev = l->prev; l->prev = f->prev; f->prev = t;
  }
}
}
}
// std::call_once
namespace std {
__thread void *__once_callable;
__thread void (*__once_call)();
}
extern "C" void __once_proxy() { std::__once_call(); }
// ---- other parts of the C and C++ libraries
extern "C" {
struct div_r { int quot, rem; };
struct ldiv_r { long quot, rem; };
div_r div(int a, int b) { return div_r{a / b, a % b}; }
ldiv_r ldiv(long a, long b) { return ldiv_r{a / b, a % b}; }
}
namespace std {
namespace __detail {
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  bool ex = x.next == &x, ey = y.next == &y;
  _List_node_base t = x;
  if (ey) x.next = x.prev = &x;
  else { x = y; x.next->prev = x.prev->next = &x; }
  if (ex) y.next = y.prev = &y;
  else { y = t; y.next->prev = y.prev->next = &y; }
}
void _List_node_base::_M_reverse() noexcept {
  _List_node_base *p = this;
  do {
    _List_node_base *n = p->next;
    p->next = p->prev;
    p->prev = n;
    p = n;
  } while (p != this);
}
}
struct _Sp_locker {
  unsigned char a, b;
  _Sp_locker(const void *) noexcept;
  _Sp_locker(const void *, const void *) noexcept;
  ~_Sp_locker();
};
_Sp_locker::_Sp_locker(const void *) noexcept { __sym_once(1); }
_Sp_locker::_Sp_locker(const void *, const void *) noexcept { __sym_once(1); }
_Sp_locker::~_Sp_locker() { __sym_once(0); }
}
