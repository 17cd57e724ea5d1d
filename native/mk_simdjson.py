#!/usr/bin/env python3
# Writes a copy of the installed simdjson.h with field::escaped_key() (added in simdjson 3.7, which
# the project is written against; the sandbox has 3.6.4).
import sys
s = open('/usr/include/simdjson.h').read()
if 'escaped_key() const noexcept' not in s:
    a = '  simdjson_inline raw_json_string key() const noexcept;\n'
    b = '''  simdjson_inline std::string_view escaped_key() const noexcept {
    const char *p = reinterpret_cast<const char *>(first.raw());
    size_t n = 0;
    while (p[n] != '"') n += p[n] == '\\\\' ? 2 : 1;
    return std::string_view(p, n);
  }
'''
    c = '  simdjson_inline simdjson_result<std::string_view> unescaped_key(bool allow_replacement = false) noexcept;\n'
    d = '''  simdjson_inline simdjson_result<std::string_view> escaped_key() noexcept {
    if (this->error()) return this->error();
    return this->first.escaped_key();
  }
'''
    assert a in s and c in s
    s = s.replace(a, a + b).replace(c, c + d)
open(sys.argv[1], 'w').write(s)
