// snprintf-based; strings are passed through %s, integers of any width through %d/%u/%x.
#ifndef MINIABSL_STR_FORMAT_H_
#define MINIABSL_STR_FORMAT_H_
#include <cstdio>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"
namespace absl {
namespace mini {
struct FArg {
  enum K { kInt, kUint, kDouble, kStr, kPtr } k;
  long long i = 0; unsigned long long u = 0; double d = 0; std::string s; const void* p = nullptr; bool ch = false;
  FArg(const std::string& x) : k(kStr), s(x) {}
  FArg(string_view x) : k(kStr), s(x) {}
  FArg(const char* x) : k(kStr), s(x ? x : "") {}
  FArg(char c) : k(kInt), i(c), u((unsigned char)c), ch(true) {}
  FArg(bool b) : k(kInt), i(b), u(b) {}
  template <typename T, std::enable_if_t<(std::is_integral_v<T> || std::is_enum_v<T>) && !std::is_same_v<T, bool> && !std::is_same_v<T, char>, int> = 0>
  FArg(T v) : k(std::is_signed_v<T> ? kInt : kUint), i((long long)v), u((unsigned long long)v) {
    if constexpr (std::is_integral_v<T>) u = (unsigned long long)(std::make_unsigned_t<T>)v;
  }
  template <typename T, std::enable_if_t<std::is_floating_point_v<T>, int> = 0>
  FArg(T v) : k(kDouble), d((double)v) {}
  template <typename T, std::enable_if_t<std::is_class_v<T>, int> = 0, typename = decltype(AbslStringify(std::declval<StringifySink&>(), std::declval<const T&>()))>
  FArg(const T& v) : k(kStr) { StringifySink k{&s}; AbslStringify(k, v); }
  template <typename T> FArg(const T* v) : k(kPtr), p(v) {}
};
inline std::string Fmt(string_view f, const std::vector<FArg>& a) {
  std::string r;
  size_t n = 0;
  for (size_t j = 0; j < f.size(); ++j) {
    if (f[j] != '%') { r.push_back(f[j]); continue; }
    if (j + 1 < f.size() && f[j + 1] == '%') { r.push_back('%'); ++j; continue; }
    std::string spec = "%";
    ++j;
    while (j < f.size() && std::string("-+ #0123456789.*lhzjtq").find(f[j]) != std::string::npos) {
      if (f[j] == '*') { spec += std::to_string(n < a.size() ? a[n].i : 0); ++n; }
      else if (std::string("lhzjtq").find(f[j]) == std::string::npos) spec.push_back(f[j]);
      ++j;
    }
    if (j >= f.size() || n >= a.size()) break;
    char c = f[j];
    const FArg& x = a[n++];
    char b[512];
    if (c == 'v') c = x.k == FArg::kStr ? 's' : x.k == FArg::kDouble ? 'g' : x.k == FArg::kUint ? 'u' : x.ch ? 'c' : 'd';
    if (c == 's') {
      std::string v = x.k == FArg::kStr ? x.s : std::to_string(x.i);
      int m = snprintf(nullptr, 0, (spec + "s").c_str(), v.c_str());
      std::string t(m + 1, 0);
      snprintf(t.data(), m + 1, (spec + "s").c_str(), v.c_str());
      t.resize(m);
      if (spec == "%") r += v; else r += t;
    } else if (c == 'd' || c == 'i') {
      if (x.k == FArg::kUint) snprintf(b, sizeof b, (spec + "llu").c_str(), x.u); else snprintf(b, sizeof b, (spec + "lld").c_str(), x.i);
      r += b;
    } else if (c == 'u' || c == 'x' || c == 'X' || c == 'o') {
      snprintf(b, sizeof b, (spec + "ll" + c).c_str(), x.u);
      r += b;
    } else if (c == 'c') {
      r.push_back((char)x.i);
    } else if (c == 'p') {
      snprintf(b, sizeof b, "%p", x.p); r += b;
    } else {
      snprintf(b, sizeof b, (spec + c).c_str(), x.k == FArg::kDouble ? x.d : (double)x.i);
      r += b;
    }
  }
  return r;
}
}  // namespace mini
template <typename... A> std::string StrFormat(string_view f, const A&... a) { return mini::Fmt(f, {mini::FArg(a)...}); }
enum class FormatConversionCharSet { kFloating, kIntegral, kString };
template <FormatConversionCharSet... C> class ParsedFormat {
 public:
  explicit ParsedFormat(string_view s) : s_(s) {}
  static std::unique_ptr<ParsedFormat> New(string_view s) { return std::make_unique<ParsedFormat>(s); }
  const std::string& str() const { return s_; }
 private:
  std::string s_;
};
template <FormatConversionCharSet... C, typename... A> std::string StrFormat(const ParsedFormat<C...>& f, const A&... a) { return mini::Fmt(f.str(), {mini::FArg(a)...}); }
template <typename S, typename... A> bool Format(S* sink, string_view f, const A&... a) { sink->Append(mini::Fmt(f, {mini::FArg(a)...})); return true; }
template <typename... A> void StrAppendFormat(std::string* o, string_view f, const A&... a) { o->append(mini::Fmt(f, {mini::FArg(a)...})); }
}  // namespace absl
#endif
