// The one file that exists for code run by the symbolic executor: its path and content.
#pragma once
#include <string>
#include <utility>
namespace simdjson {
inline std::pair<std::string, std::string> &symFile() { static std::pair<std::string, std::string> f; return f; }
}
