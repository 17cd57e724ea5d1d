// Model of the iostream library: string streams with formatting; std::cout and friends discard.
#pragma once
#include <bits/c++config.h>
#include <cctype>
#include <cwctype>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <iosfwd>
#include <limits>
#include <stdexcept>
#include <string>
#include <string_view>
#include <system_error>
#include <type_traits>
#include <utility>

#include "sym_rt.h"
#include "symfile.h"
namespace std _GLIBCXX_VISIBILITY(default) {
class ios_base {
 public:
  typedef unsigned fmtflags;
  typedef unsigned iostate;
  typedef unsigned openmode;
  typedef unsigned seekdir;
  static constexpr fmtflags dec = 1, hex = 2, oct = 4, basefield = 7, uppercase = 8, showbase = 16, boolalpha = 32, left = 64, right = 128, internal = 256, adjustfield = 448, skipws = 512, fixed = 1024, scientific = 2048, floatfield = 3072, showpos = 4096, unitbuf = 8192, showpoint = 16384;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static constexpr seekdir beg = 0, cur = 1, end = 2;
  class Init { public: Init() {} };
  class failure : public std::runtime_error { public: failure(const char *s) : runtime_error(s) {} };
  fmtflags f_ = dec | skipws;
  long w_ = 0, prec_ = 6;
  iostate st_ = 0;
  ios_base() {}
  virtual ~ios_base() {}
  fmtflags flags() const { return f_; }
  fmtflags flags(fmtflags f) { fmtflags o = f_; f_ = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = f_; f_ |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = f_; f_ = (f_ & ~m) | (f & m); return o; }
  void unsetf(fmtflags m) { f_ &= ~m; }
  long width() const { return w_; }
  long width(long w) { long o = w_; w_ = w; return o; }
  long precision() const { return prec_; }
  long precision(long p) { long o = prec_; prec_ = p; return o; }
  static bool sync_with_stdio(bool = true) { return true; }
};
typedef ios_base::openmode _Ios_Openmode;
inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base &uppercase(ios_base &b) { b.setf(ios_base::uppercase); return b; }
inline ios_base &nouppercase(ios_base &b) { b.unsetf(ios_base::uppercase); return b; }
inline ios_base &showbase(ios_base &b) { b.setf(ios_base::showbase); return b; }
inline ios_base &noshowbase(ios_base &b) { b.unsetf(ios_base::showbase); return b; }
inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base &noboolalpha(ios_base &b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base &internal(ios_base &b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base &skipws(ios_base &b) { b.setf(ios_base::skipws); return b; }
inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; }
inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
template <class C, class T> class basic_streambuf {  // the unread rest of a stream
 public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type;
  basic_string<C, T> *b_ = nullptr;
  size_t *p_ = nullptr;
  bool more_() const { return b_ && *p_ < b_->size(); }
  int_type sgetc() { return more_() ? T::to_int_type((*b_)[*p_]) : T::eof(); }
  int_type sbumpc() { return more_() ? T::to_int_type((*b_)[(*p_)++]) : T::eof(); }
  int_type snextc() { return T::eq_int_type(sbumpc(), T::eof()) ? T::eof() : sgetc(); }
  long in_avail() { return more_() ? (long)(b_->size() - *p_) : -1; }
  int_type sputc(C) { __sym_unsupported("writing to a stream buffer"); }
  long sputn(const C *, long) { __sym_unsupported("writing to a stream buffer"); }
};
template <class C, class T> class basic_ios : public ios_base {
 public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type;
  C fill_ = (C)' ';
  bool good() const { return st_ == 0; }
  bool eof() const { return st_ & eofbit; }
  bool fail() const { return st_ & (failbit | badbit); }
  bool bad() const { return st_ & badbit; }
  bool operator!() const { return fail(); }
  explicit operator bool() const { return !fail(); }
  iostate rdstate() const { return st_; }
  void clear(iostate s = 0) { st_ = s; }
  void setstate(iostate s) { st_ |= s; }
  void exceptions(iostate) {}
  C fill() const { return fill_; }
  C fill(C c) { C o = fill_; fill_ = c; return o; }
  template <class X> void imbue(const X &) {}
};
template <class C, class T> class basic_ostream : public virtual basic_ios<C, T> {
 public:
  typedef C char_type; typedef T traits_type;
  basic_string<C, T> *o_ = nullptr;
  basic_ostream() {}
  void put_str_(const C *s, size_t n) {
    long w = this->w_;
    this->w_ = 0;
    if (!o_) return;
    bool l = this->f_ & ios_base::left;
    if (!l) for (long k = (long)n; k < w; k++) o_->push_back(this->fill_);
    o_->append(s, n);
    if (l) for (long k = (long)n; k < w; k++) o_->push_back(this->fill_);
  }
  void put_num_(unsigned long long v, bool neg) {
    if (!o_) { this->w_ = 0; return; }
    unsigned b = (this->f_ & ios_base::hex) ? 16 : (this->f_ & ios_base::oct) ? 8 : 10;
    C buf[40];
    int n = 0;
    const char *dig = (this->f_ & ios_base::uppercase) ? "0123456789ABCDEF" : "0123456789abcdef";
    unsigned long long z = v;
    do { buf[39 - n++] = (C)dig[v % b]; v /= b; } while (v);
    if ((this->f_ & ios_base::showbase) && b == 16 && z) { buf[39 - n++] = (C)((this->f_ & ios_base::uppercase) ? 'X' : 'x'); buf[39 - n++] = (C)'0'; }
    if ((this->f_ & ios_base::showbase) && b == 8 && z) buf[39 - n++] = (C)'0';
    if (neg) buf[39 - n++] = (C)'-';
    else if ((this->f_ & ios_base::showpos) && b == 10) buf[39 - n++] = (C)'+';
    put_str_(buf + 40 - n, n);
  }
  template <class I> void put_int_(I v) {
    if ((this->f_ & (ios_base::hex | ios_base::oct)) || v >= 0) put_num_((unsigned long long)(typename make_unsigned<I>::type)v, false);
    else put_num_(0ull - (unsigned long long)(long long)v, true);
  }
  basic_ostream &operator<<(C c) { put_str_(&c, 1); return *this; }
  basic_ostream &operator<<(const C *s) { put_str_(s, T::length(s)); return *this; }
  basic_ostream &operator<<(const basic_string<C, T> &s) { put_str_(s.data(), s.size()); return *this; }
  basic_ostream &operator<<(basic_string_view<C, T> s) { put_str_(s.data(), s.size()); return *this; }
  template <class X, typename enable_if<is_integral<X>::value && !is_same<X, bool>::value && (sizeof(X) > 1) && !is_same<X, C>::value && !is_same<X, wchar_t>::value && !is_same<X, char16_t>::value && !is_same<X, char32_t>::value, int>::type = 0>
  basic_ostream &operator<<(X v) { put_int_(v); return *this; }
  template <class X, typename enable_if<(is_same<X, unsigned char>::value || is_same<X, signed char>::value || (is_same<X, char>::value && !is_same<X, C>::value)), int>::type = 0>
  basic_ostream &operator<<(X v) { C c = (C)v; put_str_(&c, 1); return *this; }
  template <class X, typename enable_if<is_same<X, bool>::value, int>::type = 0>
  basic_ostream &operator<<(X v) {
    if (this->f_ & ios_base::boolalpha) { const char *s = v ? "true" : "false"; C b[6]; int n = 0; while (s[n]) { b[n] = (C)s[n]; n++; } put_str_(b, n); }
    else put_num_(v, false);
    return *this;
  }
  template <class X, typename enable_if<is_floating_point<X>::value, int>::type = 0>
  basic_ostream &operator<<(X) { if (o_) __sym_unsupported("printing a floating point number"); return *this; }
  template <class X, typename enable_if<is_enum<X>::value && is_convertible<X, int>::value, int>::type = 0>
  basic_ostream &operator<<(X v) { put_int_((int)v); return *this; }
  basic_ostream &operator<<(const void *) { if (o_) __sym_unsupported("printing a pointer"); return *this; }
  basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
  basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  basic_ostream &operator<<(basic_streambuf<C, T> *b) {
    if (!b || !b->more_()) this->setstate(ios_base::failbit);
    while (b && b->more_()) { if (o_) o_->push_back((*b->b_)[*b->p_]); (*b->p_)++; }
    return *this;
  }
  basic_streambuf<C, T> *rdbuf() { __sym_unsupported("buffer of an output stream"); }
  basic_ostream &put(C c) { if (o_) o_->push_back(c); return *this; }
  basic_ostream &write(const C *s, long n) { if (o_) o_->append(s, n); return *this; }
  basic_ostream &flush() { return *this; }
};
template <class C, class T> basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { return o.put((C)'\n'); }
template <class C, class T> basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o.put((C)0); }
template <class C, class T> basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o; }
template <class C, class T> class basic_istream : public virtual basic_ios<C, T> {
 public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type;
  basic_string<C, T> *i_ = nullptr;
  size_t p_ = 0;
  long gc_ = 0;
  basic_streambuf<C, T> sb_;
  basic_streambuf<C, T> *rdbuf() { sb_.b_ = i_; sb_.p_ = &p_; return &sb_; }
  long tellg() { return this->fail() || !i_ ? -1 : (long)p_; }
  basic_istream &seekg(long at) { this->st_ &= ~ios_base::eofbit; if (!this->fail() && i_) { if (at < 0 || (size_t)at > i_->size()) this->setstate(ios_base::failbit); else p_ = (size_t)at; } return *this; }
  basic_istream &seekg(long o, ios_base::seekdir d) { return seekg(d == ios_base::beg ? o : d == ios_base::cur ? (long)p_ + o : (i_ ? (long)i_->size() : 0) + o); }
  static bool sp_(C c) { return (c == (C)' ') | ((c >= (C)9) & (c <= (C)13)); }
  bool ready_(bool noskip = false) {
    if (this->st_) { this->setstate(ios_base::failbit); return false; }
    if (!i_) { this->setstate(ios_base::failbit | ios_base::eofbit); return false; }
    if (!noskip && (this->f_ & ios_base::skipws)) while (p_ < i_->size() && sp_((*i_)[p_])) p_++;
    if (p_ >= i_->size()) { this->setstate(ios_base::failbit | ios_base::eofbit); return false; }
    return true;
  }
  basic_istream &operator>>(basic_string<C, T> &s) {
    s.clear();
    if (!ready_()) return *this;
    while (p_ < i_->size() && !sp_((*i_)[p_])) s.push_back((*i_)[p_++]);
    if (p_ >= i_->size()) this->setstate(ios_base::eofbit);
    return *this;
  }
  basic_istream &operator>>(C &c) { if (ready_()) c = (*i_)[p_++]; return *this; }
  template <class X, typename enable_if<is_integral<X>::value && !is_same<X, C>::value && !is_same<X, bool>::value, int>::type = 0>
  basic_istream &operator>>(X &v) {
    if (!ready_()) return *this;
    bool neg = false, any = false;
    if ((*i_)[p_] == (C)'-') { neg = true; p_++; } else if ((*i_)[p_] == (C)'+') p_++;
    unsigned b = (this->f_ & ios_base::hex) ? 16 : (this->f_ & ios_base::oct) ? 8 : 10;
    if (b == 16 && p_ + 1 < i_->size() && (*i_)[p_] == (C)'0' && ((*i_)[p_ + 1] | 32) == 'x') p_ += 2;
    unsigned long long x = 0;
    while (p_ < i_->size()) {
      uint32_t c = (uint32_t)(*i_)[p_];
      uint32_t d = (c >= '0' && c <= '9') ? c - '0' : ((c | 32) >= 'a' && (c | 32) <= 'f') ? (c | 32) - 'a' + 10 : 99;
      if (d >= b) break;
      x = x * b + d;
      any = true;
      p_++;
    }
    if (p_ >= i_->size()) this->setstate(ios_base::eofbit);
    if (!any) { v = 0; this->setstate(ios_base::failbit); return *this; }
    v = (X)(neg ? 0 - x : x);
    return *this;
  }
  basic_istream &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  basic_istream &operator>>(basic_istream &(*f)(basic_istream &)) { return f(*this); }
  int_type get() { if (!ready_(true)) return T::eof(); gc_ = 1; return T::to_int_type((*i_)[p_++]); }
  basic_istream &get(C &c) { if (ready_(true)) { gc_ = 1; c = (*i_)[p_++]; } return *this; }
  int_type peek() { if (this->st_ || !i_ || p_ >= i_->size()) { this->setstate(ios_base::eofbit); return T::eof(); } return T::to_int_type((*i_)[p_]); }
  basic_istream &unget() { if (p_) p_--; return *this; }
  basic_istream &putback(C) { if (p_) p_--; return *this; }
  basic_istream &ignore(long n = 1) { while (n-- > 0 && i_ && p_ < i_->size()) p_++; return *this; }
  basic_istream &read(C *d, long n) { gc_ = 0; while (n > 0) { if (!ready_(true)) break; *d++ = (*i_)[p_++]; gc_++; n--; } return *this; }
  long gcount() const { return gc_; }
  basic_istream &getline_(basic_string<C, T> &s, C d) {
    s.clear();
    if (!ready_(true)) return *this;
    while (p_ < i_->size()) {
      C c = (*i_)[p_++];
      if (c == d) return *this;
      s.push_back(c);
    }
    this->setstate(ios_base::eofbit);
    return *this;
  }
};
template <class C, class T> basic_istream<C, T> &ws(basic_istream<C, T> &i) { while (i.i_ && i.p_ < i.i_->size() && i.sp_((*i.i_)[i.p_])) i.p_++; return i; }
inline basic_istream<char> &getline(basic_istream<char> &i, string &s, char d = '\n') { return i.getline_(s, d); }
inline basic_istream<wchar_t> &getline(basic_istream<wchar_t> &i, wstring &s, wchar_t d = L'\n') { return i.getline_(s, d); }
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: using basic_istream<C, T>::rdbuf; };
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> {
  basic_string<C, T> b_;
 public:
  explicit basic_ostringstream(ios_base::openmode = ios_base::out) { this->o_ = &b_; }
  explicit basic_ostringstream(const basic_string<C, T> &s, ios_base::openmode m = ios_base::out) { this->o_ = &b_; if (m & (ios_base::app | ios_base::ate)) b_ = s; else if (!s.empty()) __sym_unsupported("ostringstream with initial text"); }
  basic_ostringstream(const basic_ostringstream &) = delete;
  basic_string<C, T> str() const { return b_; }
  void str(const basic_string<C, T> &s) { b_ = s; }
};
template <class C, class T, class A> class basic_istringstream : public basic_istream<C, T> {
  basic_string<C, T> b_;
 public:
  explicit basic_istringstream(ios_base::openmode = ios_base::in) { this->i_ = &b_; }
  explicit basic_istringstream(const basic_string<C, T> &s, ios_base::openmode = ios_base::in) : b_(s) { this->i_ = &b_; }
  basic_istringstream(const basic_istringstream &) = delete;
  basic_string<C, T> str() const { return b_; }
  void str(const basic_string<C, T> &s) { b_ = s; this->p_ = 0; }
};
template <class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> {
  basic_string<C, T> b_;
 public:
  explicit basic_stringstream(ios_base::openmode = 0) { this->i_ = &b_; this->o_ = &b_; }
  explicit basic_stringstream(const basic_string<C, T> &s, ios_base::openmode = 0) : b_(s) { this->i_ = &b_; this->o_ = &b_; }
  basic_stringstream(const basic_stringstream &) = delete;
  basic_string<C, T> str() const { return b_; }
  void str(const basic_string<C, T> &s) { b_ = s; this->p_ = 0; }
};
_GLIBCXX_END_NAMESPACE_CXX11
template <class C, class T> class basic_ifstream : public basic_istream<C, T> {
  basic_string<C, T> b_;
  bool open_ = false;
 public:
  basic_ifstream() {}
  basic_ifstream(const basic_ifstream &) = delete;
  explicit basic_ifstream(const char *p, ios_base::openmode m = 0) { open(p, m); }
  explicit basic_ifstream(const string &p, ios_base::openmode m = 0) { open(p, m); }
  template <class P, class = decltype(declval<const P &>().generic_string())> explicit basic_ifstream(const P &p, ios_base::openmode m = 0) { open(p.native(), m); }
  void open(const string &p, ios_base::openmode m = 0) {
    if (simdjson::symFile().first.empty() || p != simdjson::symFile().first) { this->setstate(ios_base::failbit); return; }
    b_.assign(simdjson::symFile().second.begin(), simdjson::symFile().second.end());
    this->i_ = &b_;
    this->st_ = 0;
    this->p_ = m & ios_base::ate ? b_.size() : 0;
    open_ = true;
  }
  bool is_open() const { return open_; }
  void close() { if (!open_) this->setstate(ios_base::failbit); open_ = false; this->i_ = nullptr; }
};
struct _Setw { int n; };
inline _Setw setw(int n) { return {n}; }
template <class C> struct _Setfill { C c; };
template <class C> inline _Setfill<C> setfill(C c) { return {c}; }
struct _Setprecision { int n; };
inline _Setprecision setprecision(int n) { return {n}; }
struct _Setbase { int n; };
inline _Setbase setbase(int n) { return {n}; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setw s) { o.width(s.n); return o; }
template <class C, class T> basic_istream<C, T> &operator>>(basic_istream<C, T> &o, _Setw) { __sym_unsupported("setw on input"); }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setfill<C> s) { o.fill(s.c); return o; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setprecision s) { o.precision(s.n); return o; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setbase s) { o.setf(s.n == 16 ? ios_base::hex : s.n == 8 ? ios_base::oct : ios_base::dec, ios_base::basefield); return o; }
inline basic_ostream<char> cout, cerr, clog;
inline basic_ostream<wchar_t> wcout, wcerr;
inline basic_istream<char> cin;
}
