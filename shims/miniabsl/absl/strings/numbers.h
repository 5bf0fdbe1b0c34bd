#ifndef MINIABSL_NUMBERS_H_
#define MINIABSL_NUMBERS_H_
#include <charconv>
#include <cstdlib>
#include <limits>
#include <string>
#include <system_error>
#include "absl/strings/ascii.h"
namespace absl {
template <typename T> bool SimpleAtof_(string_view s, T* out) {
  *out = 0;
  s = StripAsciiWhitespace(s);
  if (!s.empty() && s[0] == '+') { s.remove_prefix(1); if (!s.empty() && s[0] == '-') return false; }
  auto r = std::from_chars(s.data(), s.data() + s.size(), *out);
  if (r.ec == std::errc::invalid_argument || r.ptr != s.data() + s.size()) return false;
  if (r.ec == std::errc::result_out_of_range) { *out = s[0] == '-' ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::infinity(); }
  return true;
}
inline bool SimpleAtod(string_view s, double* d) {  // The formats of strtod.
  std::string z(StripAsciiWhitespace(s));
  if (z.empty()) return false;
  char* e = nullptr;
  *d = std::strtod(z.c_str(), &e);
  return e == z.c_str() + z.size();
}
inline bool SimpleAtof(string_view s, float* d) { return SimpleAtof_(s, d); }
template <typename I> bool SimpleAtoi(string_view s, I* out) {
  s = StripAsciiWhitespace(s);
  if (!s.empty() && s[0] == '+') s.remove_prefix(1);
  auto r = std::from_chars(s.data(), s.data() + s.size(), *out);
  return r.ec == std::errc() && r.ptr == s.data() + s.size();
}
inline bool SimpleAtob(string_view s, bool* b) {
  std::string l = AsciiStrToLower(s);
  for (auto* x : {"true", "t", "yes", "y", "1"}) if (l == x) { *b = true; return true; }
  for (auto* x : {"false", "f", "no", "n", "0"}) if (l == x) { *b = false; return true; }
  return false;
}
}  // namespace absl
#endif
