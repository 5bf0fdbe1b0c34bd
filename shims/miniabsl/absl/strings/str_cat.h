#ifndef MINIABSL_STR_CAT_H_
#define MINIABSL_STR_CAT_H_
#include <cstdio>
#include <string>
#include <type_traits>
#include <utility>
#include "absl/strings/string_view.h"
namespace absl {
enum PadSpec : unsigned char { kNoPad = 1, kZeroPad2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6, kZeroPad7, kZeroPad8 };
struct Hex {
  unsigned long long v; int pad;
  template <typename I> explicit Hex(I x, PadSpec p = kNoPad) : v((std::make_unsigned_t<I>)x), pad(p) {}
};
namespace mini {
inline void Put(std::string* o, string_view s) { o->append(s); }
inline void Put(std::string* o, const char* s) { if (s) o->append(s); }
inline void Put(std::string* o, const std::string& s) { o->append(s); }
inline void Put(std::string* o, char c) { o->push_back(c); }
inline void Put(std::string* o, bool b) { o->append(b ? "1" : "0"); }
template <typename T> std::enable_if_t<std::is_enum_v<T>> Put(std::string* o, T v) { o->append(std::to_string((long long)v)); }
inline void Put(std::string* o, const Hex& h) { char b[32]; snprintf(b, sizeof b, "%0*llx", h.pad, h.v); o->append(b); }
template <typename T>
std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool> && !std::is_same_v<T, char>> Put(std::string* o, T v) { o->append(std::to_string(v)); }
template <typename T>
std::enable_if_t<std::is_floating_point_v<T>> Put(std::string* o, T v) { char b[64]; snprintf(b, sizeof b, "%.6g", (double)v); o->append(b); }
}  // namespace mini
struct StringifySink {
  std::string* o;
  void Append(string_view s) { o->append(s); }
  void Append(size_t n, char c) { o->append(n, c); }
  friend void AbslFormatFlush(StringifySink* s, string_view v) { s->Append(v); }
};
namespace mini {
template <typename T, typename = std::enable_if_t<std::is_class_v<T>>, typename = decltype(AbslStringify(std::declval<StringifySink&>(), std::declval<const T&>()))>
void Put(std::string* o, const T& v) { StringifySink s{o}; AbslStringify(s, v); }
}  // namespace mini
template <typename... A> void StrAppend(std::string* o, const A&... a) { (mini::Put(o, a), ...); }
template <typename... A> std::string StrCat(const A&... a) { std::string r; StrAppend(&r, a...); return r; }
}  // namespace absl
#endif
