#ifndef MINIABSL_MATCH_H_
#define MINIABSL_MATCH_H_
#include <algorithm>
#include <cctype>
#include "absl/strings/string_view.h"
namespace absl {
inline bool StrContains(string_view a, string_view b) { return a.find(b) != a.npos; }
inline bool StrContains(string_view a, char b) { return a.find(b) != a.npos; }
inline bool StartsWith(string_view a, string_view b) { return a.substr(0, b.size()) == b; }
inline bool EndsWith(string_view a, string_view b) { return a.size() >= b.size() && a.substr(a.size() - b.size()) == b; }
inline bool EqualsIgnoreCase(string_view a, string_view b) {
  return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](char x, char y) {
    return std::tolower((unsigned char)x) == std::tolower((unsigned char)y); });
}
inline bool StartsWithIgnoreCase(string_view a, string_view b) { return a.size() >= b.size() && EqualsIgnoreCase(a.substr(0, b.size()), b); }
inline bool EndsWithIgnoreCase(string_view a, string_view b) { return a.size() >= b.size() && EqualsIgnoreCase(a.substr(a.size() - b.size()), b); }
}  // namespace absl
#endif
