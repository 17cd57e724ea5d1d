// Builds a component from JSON text with the library's own factory function.
#pragma once
#include <memory>
#include <string>
#include "simdjson.h"
template <class R> inline std::unique_ptr<R> fromJson(const std::string &js, std::unique_ptr<R> (*make)(simdjson::ondemand::object)) {
  simdjson::ondemand::parser p;
  simdjson::padded_string ps(js);
  simdjson::ondemand::document d = p.iterate(ps);
  simdjson::ondemand::object o = d.get_object();
  return make(o);
}
