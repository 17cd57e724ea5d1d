// Model of the simdjson On Demand API: a small DOM parser with the same interface.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

#include "sym_rt.h"
#include "symfile.h"
#define SIMDJSON_VERSION "3.6.4"
#define SIMDJSON_EXCEPTIONS 1
namespace simdjson {
enum error_code { SUCCESS = 0, CAPACITY, MEMALLOC, TAPE_ERROR, DEPTH_ERROR, STRING_ERROR, T_ATOM_ERROR, F_ATOM_ERROR, N_ATOM_ERROR, NUMBER_ERROR, UTF8_ERROR, UNINITIALIZED, EMPTY, UNESCAPED_CHARS, UNCLOSED_STRING, UNSUPPORTED_ARCHITECTURE, INCORRECT_TYPE, NUMBER_OUT_OF_RANGE, INDEX_OUT_OF_BOUNDS, NO_SUCH_FIELD, IO_ERROR, INVALID_JSON_POINTER, INVALID_URI_FRAGMENT, UNEXPECTED_ERROR, PARSER_IN_USE, OUT_OF_ORDER_ITERATION, INSUFFICIENT_PADDING, INCOMPLETE_ARRAY_OR_OBJECT, SCALAR_DOCUMENT_AS_VALUE, OUT_OF_BOUNDS, TRAILING_CONTENT, NUM_ERROR_CODES };
inline const char *error_message(error_code) noexcept { return "simdjson error"; }
struct simdjson_error : public std::exception {
  simdjson_error(error_code e) noexcept : _error(e) {}
  const char *what() const noexcept override { return "simdjson error"; }
  error_code error() const noexcept { return _error; }
 private:
  error_code _error;
};
constexpr size_t SIMDJSON_PADDING = 64;
namespace fallback { namespace ondemand {} }

struct padded_string;
template <typename T> struct simdjson_result;
namespace ondemand {
enum class json_type { array = 1, object, number, string, boolean, null };
enum class number_type { floating_point_number = 1, signed_integer, unsigned_integer };
}
namespace symjson {
struct Node {
  int kind = 0;  // 1 array 2 object 3 number 4 string 5 bool 6 null
  bool b = false, isint = false, uns = false;
  int64_t i = 0;
  double d = 0;
  std::string raw, str;
  std::vector<Node *> kids;
  std::vector<std::pair<std::string, std::string>> keys;  // raw, unescaped
};
struct Parse {
  const char *p, *e;
  error_code err = SUCCESS;
  int depth = 0;
  Parse(const char *s, size_t n) : p(s), e(s + n) {}
  void fail(error_code c) { if (!err) err = c; p = e; }
  void ws() { while (p < e && ((*p == ' ') | (*p == '\n') | (*p == '\t') | (*p == '\r'))) p++; }
  static void utf8(uint32_t c, std::string &o) {
    if (c < 0x80) o.push_back((char)c);
    else if (c < 0x800) { o.push_back((char)(0xC0 | (c >> 6))); o.push_back((char)(0x80 | (c & 63))); }
    else if (c < 0x10000) { o.push_back((char)(0xE0 | (c >> 12))); o.push_back((char)(0x80 | ((c >> 6) & 63))); o.push_back((char)(0x80 | (c & 63))); }
    else { o.push_back((char)(0xF0 | (c >> 18))); o.push_back((char)(0x80 | ((c >> 12) & 63))); o.push_back((char)(0x80 | ((c >> 6) & 63))); o.push_back((char)(0x80 | (c & 63))); }
  }
  int hex4(uint32_t &v) {
    if (e - p < 4) return 0;
    v = 0;
    for (int k = 0; k < 4; k++) {
      unsigned char c = (unsigned char)*p++;
      uint32_t h;
      if (c >= '0' && c <= '9') h = c - '0';
      else if ((c | 32) >= 'a' && (c | 32) <= 'f') h = (c | 32) - 'a' + 10;
      else return 0;
      v = v * 16 + h;
    }
    return 1;
  }
  void string(std::string &raw, std::string &out) {
    p++;  // quote
    for (;;) {
      if (p >= e) return fail(UNCLOSED_STRING);
      unsigned char c = (unsigned char)*p;
      if (c == '"') { p++; return; }
      if (c == '\\') {
        raw.push_back('\\');
        p++;
        if (p >= e) return fail(UNCLOSED_STRING);
        char x = *p;
        const char *q = p;
        p++;
        switch (x) {
          case '"': case '\\': case '/': out.push_back(x); break;
          case 'b': out.push_back('\b'); break;
          case 'f': out.push_back('\f'); break;
          case 'n': out.push_back('\n'); break;
          case 'r': out.push_back('\r'); break;
          case 't': out.push_back('\t'); break;
          case 'u': {
            uint32_t v, w;
            if (!hex4(v)) return fail(STRING_ERROR);
            if (v >= 0xD800 && v < 0xDC00) {
              if (e - p < 6 || p[0] != '\\' || p[1] != 'u') return fail(STRING_ERROR);
              p += 2;
              if (!hex4(w) || w < 0xDC00 || w > 0xDFFF) return fail(STRING_ERROR);
              v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
            } else if (v >= 0xDC00 && v < 0xE000) return fail(STRING_ERROR);
            utf8(v, out);
            break;
          }
          default: return fail(STRING_ERROR);
        }
        raw.append(q, (size_t)(p - q));
        continue;
      }
      if (c < 0x20) return fail(UNESCAPED_CHARS);
      raw.push_back((char)c);
      out.push_back((char)c);
      p++;
    }
  }
  Node *value() {
    ws();
    Node *n = new Node();
    if (p >= e || err) { fail(TAPE_ERROR); return n; }
    char c = *p;
    if (c == '{') {
      n->kind = 2;
      p++;
      ws();
      if (p < e && *p == '}') { p++; return n; }
      for (;;) {
        ws();
        if (p >= e || *p != '"') { fail(TAPE_ERROR); return n; }
        std::string r, u;
        string(r, u);
        if (err) return n;
        ws();
        if (p >= e || *p != ':') { fail(TAPE_ERROR); return n; }
        p++;
        Node *v = value();
        if (err) return n;
        n->keys.emplace_back(r, u);
        n->kids.push_back(v);
        ws();
        if (p >= e) { fail(INCOMPLETE_ARRAY_OR_OBJECT); return n; }
        if (*p == ',') { p++; continue; }
        if (*p == '}') { p++; return n; }
        fail(TAPE_ERROR);
        return n;
      }
    }
    if (c == '[') {
      n->kind = 1;
      p++;
      ws();
      if (p < e && *p == ']') { p++; return n; }
      for (;;) {
        Node *v = value();
        if (err) return n;
        n->kids.push_back(v);
        ws();
        if (p >= e) { fail(INCOMPLETE_ARRAY_OR_OBJECT); return n; }
        if (*p == ',') { p++; continue; }
        if (*p == ']') { p++; return n; }
        fail(TAPE_ERROR);
        return n;
      }
    }
    if (c == '"') { n->kind = 4; string(n->raw, n->str); return n; }
    if (e - p >= 4 && !std::memcmp(p, "true", 4)) { n->kind = 5; n->b = true; p += 4; return n; }
    if (e - p >= 5 && !std::memcmp(p, "false", 5)) { n->kind = 5; p += 5; return n; }
    if (e - p >= 4 && !std::memcmp(p, "null", 4)) { n->kind = 6; p += 4; return n; }
    n->kind = 3;
    n->isint = true;
    bool neg = false;
    if (c == '-') { neg = true; p++; }
    if (p >= e || !(*p >= '0' && *p <= '9')) { fail(NUMBER_ERROR); return n; }
    int64_t v = 0;
    double d = 0;
    while (p < e && *p >= '0' && *p <= '9') { v = v * 10 + (*p - '0'); d = d * 10 + (*p - '0'); p++; }
    if (p < e && *p == '.') {
      n->isint = false;
      p++;
      double sc = 1;
      int64_t f = 0;
      while (p < e && *p >= '0' && *p <= '9') { f = f * 10 + (*p - '0'); sc *= 10; p++; }
      d = d + (double)f / sc;
    }
    if (p < e && (*p == 'e' || *p == 'E')) __sym_unsupported("json exponent");
    n->i = neg ? -v : v;
    n->d = neg ? -d : d;
    return n;
  }
};
}  // namespace symjson

namespace ondemand {
class value; class object; class array; class field; class document; class parser; class raw_json_string;
}
template <typename T> struct simdjson_result_base {
  T first{};
  error_code second = UNINITIALIZED;
  simdjson_result_base() {}
  simdjson_result_base(T &&v) : first(std::move(v)), second(SUCCESS) {}
  simdjson_result_base(const T &v) : first(v), second(SUCCESS) {}
  simdjson_result_base(error_code e) : second(e) {}
  simdjson_result_base(T &&v, error_code e) : first(std::move(v)), second(e) {}
  error_code error() const noexcept { return second; }
  error_code get(T &v) && { if (!second) v = std::move(first); return second; }
  error_code get(T &v) & { if (!second) v = first; return second; }
  void tie(T &v, error_code &e) { if (!second) v = first; e = second; }
  T &chk() { if (second) throw simdjson_error(second); return first; }
  operator T() && { return chk(); }
  T &value_unsafe() & { return first; }
  T &&value_unsafe() && { return std::move(first); }
  T take_value() && { return chk(); }
};
template <typename T> struct simdjson_result : simdjson_result_base<T> {
  using B = simdjson_result_base<T>;
  using B::B;
  T &value() & { return B::chk(); }
  T &&value() && { return std::move(B::chk()); }
};
template <> struct simdjson_result<ondemand::value>;
template <> struct simdjson_result<ondemand::document>;
template <> struct simdjson_result<ondemand::array>;
template <> struct simdjson_result<ondemand::object>;
template <> struct simdjson_result<ondemand::field>;
namespace ondemand {
class raw_json_string {
  const char *s = nullptr;
 public:
  raw_json_string() {}
  raw_json_string(const char *s) : s(s) {}
  const char *raw() const { return s; }
  bool is_equal(std::string_view v) const { return std::string_view(s) == v; }
  friend bool operator==(const raw_json_string &a, std::string_view b) { return a.is_equal(b); }
  friend bool operator==(std::string_view b, const raw_json_string &a) { return a.is_equal(b); }
  friend bool operator!=(const raw_json_string &a, std::string_view b) { return !a.is_equal(b); }
};
class base {
 protected:
  symjson::Node *n = nullptr;
 public:
  base() {}
  explicit base(symjson::Node *n) : n(n) {}
  symjson::Node *node() const { return n; }
};
class value : public base {
 public:
  using base::base;
  simdjson_result<json_type> type();
  simdjson_result<bool> is_null();
  simdjson_result<bool> is_scalar();
  simdjson_result<std::string_view> get_string(bool = false);
  simdjson_result<raw_json_string> get_raw_json_string();
  simdjson_result<int64_t> get_int64();
  simdjson_result<uint64_t> get_uint64();
  simdjson_result<double> get_double();
  simdjson_result<bool> get_bool();
  simdjson_result<array> get_array();
  simdjson_result<object> get_object();
  simdjson_result<value> find_field(std::string_view);
  simdjson_result<value> find_field_unordered(std::string_view);
  simdjson_result<value> operator[](std::string_view);
  simdjson_result<value> operator[](const char *k);
  simdjson_result<value> at(size_t);
  simdjson_result<size_t> count_elements();
  simdjson_result<size_t> count_fields();
  simdjson_result<bool> is_integer();
  simdjson_result<bool> is_string();
  template <class T> inline simdjson_result<T> get();
  template <class T> inline error_code get(T &out);
  inline operator array();
  inline operator object();
  operator std::string_view();
  explicit operator int64_t();
  explicit operator uint64_t();
  explicit operator double();
  explicit operator bool();
};
class field {
 public:
  symjson::Node *o = nullptr;
  size_t i = 0;
  simdjson_result<std::string_view> unescaped_key(bool = false);
  simdjson_result<std::string_view> escaped_key();
  simdjson_result<std::string_view> key_raw_json_token();
  simdjson_result<raw_json_string> key();
  ondemand::value value() { return ondemand::value(o->kids[i]); }
};
struct array_iterator {
  symjson::Node *n = nullptr;
  size_t i = 0;
  inline simdjson_result<ondemand::value> operator*();
  array_iterator &operator++() { i++; return *this; }
  bool operator!=(const array_iterator &o) const { return i != o.i; }
  bool operator==(const array_iterator &o) const { return i == o.i; }
};
struct object_iterator {
  symjson::Node *n = nullptr;
  size_t i = 0;
  inline simdjson_result<ondemand::field> operator*();
  object_iterator &operator++() { i++; return *this; }
  bool operator!=(const object_iterator &o) const { return i != o.i; }
  bool operator==(const object_iterator &o) const { return i == o.i; }
};
class array : public base {
 public:
  using base::base;
  array_iterator begin() { return array_iterator{n, 0}; }
  array_iterator end() { return array_iterator{n, n->kids.size()}; }
  simdjson_result<size_t> count_elements();
  simdjson_result<bool> is_empty();
  simdjson_result<bool> reset();
  simdjson_result<value> at(size_t);
};
class object : public base {
 public:
  using base::base;
  object_iterator begin() { return object_iterator{n, 0}; }
  object_iterator end() { return object_iterator{n, n->kids.size()}; }
  simdjson_result<value> find_field(std::string_view k);
  simdjson_result<value> find_field_unordered(std::string_view k);
  simdjson_result<value> operator[](std::string_view k);
  simdjson_result<value> operator[](const char *k);
  simdjson_result<size_t> count_fields();
  simdjson_result<bool> is_empty();
  simdjson_result<bool> reset();
};
class document : public value {
 public:
  using value::value;
  simdjson_result<ondemand::value> get_value();
};
class parser {
 public:
  parser() {}
  explicit parser(size_t) {}
  simdjson_result<document> iterate(const padded_string &) &;
  simdjson_result<document> iterate(const std::string &s) &;
  simdjson_result<document> iterate(std::string_view s, size_t) &;
};
}  // namespace ondemand

// results of On Demand types forward their members
#define SYM_FWD(R, M) simdjson_result<R> M() { if (second) return simdjson_result<R>(second); return first.M(); }
template <> struct simdjson_result<ondemand::array> : simdjson_result_base<ondemand::array> {
  using B = simdjson_result_base<ondemand::array>;
  using B::B;
  ondemand::array &value() & { return chk(); }
  ondemand::array &&value() && { return std::move(chk()); }
  ondemand::array_iterator begin() { return chk().begin(); }
  ondemand::array_iterator end() { return chk().end(); }
  SYM_FWD(size_t, count_elements)
  SYM_FWD(bool, is_empty)
};
template <> struct simdjson_result<ondemand::object> : simdjson_result_base<ondemand::object> {
  using B = simdjson_result_base<ondemand::object>;
  using B::B;
  ondemand::object &value() & { return chk(); }
  ondemand::object &&value() && { return std::move(chk()); }
  ondemand::object_iterator begin() { return chk().begin(); }
  ondemand::object_iterator end() { return chk().end(); }
  inline simdjson_result<ondemand::value> operator[](std::string_view k);
  inline simdjson_result<ondemand::value> operator[](const char *k);
  inline simdjson_result<ondemand::value> find_field(std::string_view k);
  inline simdjson_result<ondemand::value> find_field_unordered(std::string_view k);
  SYM_FWD(size_t, count_fields)
  SYM_FWD(bool, is_empty)
};
template <> struct simdjson_result<ondemand::field> : simdjson_result_base<ondemand::field> {
  using B = simdjson_result_base<ondemand::field>;
  using B::B;
  simdjson_result<std::string_view> unescaped_key(bool = false) { if (second) return simdjson_result<std::string_view>(second); return first.unescaped_key(); }
  SYM_FWD(std::string_view, escaped_key)
  SYM_FWD(std::string_view, key_raw_json_token)
  SYM_FWD(ondemand::raw_json_string, key)
  inline simdjson_result<ondemand::value> value();
};
template <> struct simdjson_result<ondemand::value> : simdjson_result_base<ondemand::value> {
  using B = simdjson_result_base<ondemand::value>;
  using B::B;
  ondemand::value &value() & { return chk(); }
  ondemand::value &&value() && { return std::move(chk()); }
  SYM_FWD(ondemand::json_type, type)
  SYM_FWD(bool, is_null)
  SYM_FWD(bool, is_scalar)
  simdjson_result<std::string_view> get_string(bool = false) { if (second) return simdjson_result<std::string_view>(second); return first.get_string(); }
  SYM_FWD(ondemand::raw_json_string, get_raw_json_string)
  SYM_FWD(int64_t, get_int64)
  SYM_FWD(uint64_t, get_uint64)
  SYM_FWD(double, get_double)
  SYM_FWD(bool, get_bool)
  SYM_FWD(ondemand::array, get_array)
  SYM_FWD(ondemand::object, get_object)
  SYM_FWD(size_t, count_elements)
  SYM_FWD(size_t, count_fields)
  SYM_FWD(bool, is_integer)
  SYM_FWD(bool, is_string)
  simdjson_result<ondemand::value> operator[](std::string_view k) { if (second) return simdjson_result<ondemand::value>(second); return first[k]; }
  simdjson_result<ondemand::value> operator[](const char *k) { return (*this)[std::string_view(k)]; }
  simdjson_result<ondemand::value> find_field(std::string_view k) { return (*this)[k]; }
  simdjson_result<ondemand::value> find_field_unordered(std::string_view k) { return (*this)[k]; }
  template <class T> simdjson_result<T> get() { if (second) return simdjson_result<T>(second); return first.template get<T>(); }
  template <class T> error_code get(T &out) { if (second) return second; return first.get(out); }
  error_code get(ondemand::value &out) { if (!second) out = first; return second; }
  operator ondemand::array() { return std::move(get_array().chk()); }
  operator ondemand::object() { return std::move(get_object().chk()); }
  operator std::string_view() { return get_string().chk(); }
  operator int64_t() { return get_int64().chk(); }
  operator double() { return get_double().chk(); }
  operator bool() { return get_bool().chk(); }
};
template <> struct simdjson_result<ondemand::document> : simdjson_result_base<ondemand::document> {
  using B = simdjson_result_base<ondemand::document>;
  using B::B;
  ondemand::document &value() & { return chk(); }
  ondemand::document &&value() && { return std::move(chk()); }
  SYM_FWD(ondemand::json_type, type)
  SYM_FWD(bool, is_null)
  SYM_FWD(ondemand::array, get_array)
  SYM_FWD(ondemand::object, get_object)
  simdjson_result<ondemand::value> operator[](std::string_view k) { if (second) return simdjson_result<ondemand::value>(second); return first[k]; }
  simdjson_result<ondemand::value> operator[](const char *k) { return (*this)[std::string_view(k)]; }
};
inline simdjson_result<ondemand::value> simdjson_result<ondemand::field>::value() { if (second) return simdjson_result<ondemand::value>(second); return simdjson_result<ondemand::value>(first.value()); }
inline simdjson_result<ondemand::value> simdjson_result<ondemand::object>::operator[](std::string_view k) { if (second) return simdjson_result<ondemand::value>(second); return first[k]; }
inline simdjson_result<ondemand::value> simdjson_result<ondemand::object>::operator[](const char *k) { return (*this)[std::string_view(k)]; }
inline simdjson_result<ondemand::value> simdjson_result<ondemand::object>::find_field(std::string_view k) { return (*this)[k]; }
inline simdjson_result<ondemand::value> simdjson_result<ondemand::object>::find_field_unordered(std::string_view k) { return (*this)[k]; }
#undef SYM_FWD
namespace ondemand {
inline simdjson_result<ondemand::value> array_iterator::operator*() { return ondemand::value(n->kids[i]); }
inline simdjson_result<ondemand::field> object_iterator::operator*() { field f; f.o = n; f.i = i; return f; }
inline simdjson_result<json_type> value::type() { return (json_type)n->kind; }
inline simdjson_result<bool> value::is_null() { return n->kind == 6; }
inline simdjson_result<bool> value::is_scalar() { return n->kind > 2; }
inline simdjson_result<bool> value::is_string() { return n->kind == 4; }
inline simdjson_result<bool> value::is_integer() { return n->kind == 3 && n->isint; }
inline simdjson_result<std::string_view> value::get_string(bool) { if (n->kind != 4) return INCORRECT_TYPE; return std::string_view(n->str); }
inline simdjson_result<raw_json_string> value::get_raw_json_string() { if (n->kind != 4) return INCORRECT_TYPE; return raw_json_string(n->raw.c_str()); }
inline simdjson_result<int64_t> value::get_int64() { if (n->kind != 3) return INCORRECT_TYPE; if (!n->isint) return NUMBER_ERROR; return n->i; }
inline simdjson_result<uint64_t> value::get_uint64() { if (n->kind != 3) return INCORRECT_TYPE; if (!n->isint || n->i < 0) return NUMBER_ERROR; return (uint64_t)n->i; }
inline simdjson_result<double> value::get_double() { if (n->kind != 3) return INCORRECT_TYPE; return n->d; }
inline simdjson_result<bool> value::get_bool() { if (n->kind != 5) return INCORRECT_TYPE; return n->b; }
inline simdjson_result<array> value::get_array() { if (n->kind != 1) return INCORRECT_TYPE; return array(n); }
inline simdjson_result<object> value::get_object() { if (n->kind != 2) return INCORRECT_TYPE; return object(n); }
inline simdjson_result<value> object::operator[](std::string_view k) {
  for (size_t i = 0; i < n->kids.size(); i++) if (std::string_view(n->keys[i].first) == k) return value(n->kids[i]);
  return NO_SUCH_FIELD;
}
inline simdjson_result<value> object::operator[](const char *k) { return (*this)[std::string_view(k)]; }
inline simdjson_result<value> value::operator[](const char *k) { return (*this)[std::string_view(k)]; }
inline simdjson_result<value> object::find_field(std::string_view k) { return (*this)[k]; }
inline simdjson_result<value> object::find_field_unordered(std::string_view k) { return (*this)[k]; }
inline simdjson_result<size_t> object::count_fields() { return n->kids.size(); }
inline simdjson_result<bool> object::is_empty() { return n->kids.empty(); }
inline simdjson_result<bool> object::reset() { return !n->kids.empty(); }
inline simdjson_result<size_t> array::count_elements() { return n->kids.size(); }
inline simdjson_result<bool> array::is_empty() { return n->kids.empty(); }
inline simdjson_result<bool> array::reset() { return !n->kids.empty(); }
inline simdjson_result<value> array::at(size_t i) { if (i >= n->kids.size()) return INDEX_OUT_OF_BOUNDS; return value(n->kids[i]); }
inline simdjson_result<value> value::at(size_t i) { if (n->kind != 1) return INCORRECT_TYPE; return array(n).at(i); }
inline simdjson_result<value> value::operator[](std::string_view k) { if (n->kind != 2) return INCORRECT_TYPE; return object(n)[k]; }
inline simdjson_result<value> value::find_field(std::string_view k) { return (*this)[k]; }
inline simdjson_result<value> value::find_field_unordered(std::string_view k) { return (*this)[k]; }
inline simdjson_result<size_t> value::count_elements() { if (n->kind != 1) return INCORRECT_TYPE; return n->kids.size(); }
inline simdjson_result<size_t> value::count_fields() { if (n->kind != 2) return INCORRECT_TYPE; return n->kids.size(); }
template <> inline simdjson_result<std::string_view> value::get() { return get_string(); }
template <> inline simdjson_result<int64_t> value::get() { return get_int64(); }
template <> inline simdjson_result<uint64_t> value::get() { return get_uint64(); }
template <> inline simdjson_result<double> value::get() { return get_double(); }
template <> inline simdjson_result<bool> value::get() { return get_bool(); }
template <> inline simdjson_result<array> value::get() { return get_array(); }
template <> inline simdjson_result<object> value::get() { return get_object(); }
template <class T> inline error_code value::get(T &out) { return get<T>().get(out); }
inline value::operator array() { return get_array().chk(); }
inline value::operator object() { return get_object().chk(); }
inline value::operator std::string_view() { return get_string().chk(); }
inline value::operator int64_t() { return get_int64().chk(); }
inline value::operator uint64_t() { return get_uint64().chk(); }
inline value::operator double() { return get_double().chk(); }
inline value::operator bool() { return get_bool().chk(); }
inline simdjson_result<value> document::get_value() { return value(n); }
inline simdjson_result<std::string_view> field::unescaped_key(bool) { return std::string_view(o->keys[i].second); }
inline simdjson_result<std::string_view> field::escaped_key() { return std::string_view(o->keys[i].first); }
inline simdjson_result<std::string_view> field::key_raw_json_token() { __sym_unsupported("key_raw_json_token"); }
inline simdjson_result<raw_json_string> field::key() { return raw_json_string(o->keys[i].first.c_str()); }
}  // namespace ondemand
struct padded_string_view : std::string_view {
  padded_string_view() {}
  padded_string_view(std::string_view s, size_t = 0) : std::string_view(s) {}
};
#define SYM_JSON_MODEL 1
struct padded_string {
  std::string s;
  padded_string() {}
  explicit padded_string(size_t n) : s(n, '\0') {}
  explicit padded_string(const char *d, size_t n) : s(d, n) {}
  padded_string(const std::string &x) : s(x) {}
  padded_string(std::string_view x) : s(x) {}
  padded_string(const char *x) : s(x) {}
  size_t size() const { return s.size(); }
  size_t length() const { return s.size(); }
  const char *data() const { return s.data(); }
  char *data() { return &s[0]; }
  operator std::string_view() const { return s; }
  operator padded_string_view() const { return padded_string_view(s); }
  static simdjson_result<padded_string> load(std::string_view path);
};
inline simdjson_result<padded_string> padded_string::load(std::string_view path) {
  if (symFile().first.empty() || path != symFile().first) return simdjson_result<padded_string>(IO_ERROR);
  return simdjson_result<padded_string>(padded_string(symFile().second));
}
namespace ondemand {
inline simdjson_result<document> parser::iterate(std::string_view s, size_t) & {
  symjson::Parse P(s.data(), s.size());
  P.ws();
  if (P.p >= P.e) return EMPTY;
  symjson::Node *n = P.value();
  if (P.err) return P.err;
  return document(n);
}
inline simdjson_result<document> parser::iterate(const std::string &s) & { return iterate(std::string_view(s), 0); }
inline simdjson_result<document> parser::iterate(const padded_string &s) & { return iterate(std::string_view(s.s), 0); }
}  // namespace ondemand
}  // namespace simdjson
inline simdjson::padded_string operator""_padded(const char *s, size_t n) { return simdjson::padded_string(s, n); }
