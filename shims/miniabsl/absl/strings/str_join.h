#ifndef MINIABSL_STR_JOIN_H_
#define MINIABSL_STR_JOIN_H_
#include <initializer_list>
#include <string>
#include <utility>
#include "absl/strings/str_cat.h"
namespace absl {
template <typename R, typename F> std::string StrJoin(const R& r, string_view sep, F&& f) {
  std::string o; bool first = true;
  for (auto&& x : r) { if (!first) o.append(sep); first = false; f(&o, x); }
  return o;
}
template <typename R> std::string StrJoin(const R& r, string_view sep) { return StrJoin(r, sep, [](std::string* o, const auto& x) { StrAppend(o, x); }); }
template <typename T> std::string StrJoin(std::initializer_list<T> r, string_view sep) { return StrJoin<std::initializer_list<T>>(r, sep); }
}  // namespace absl
#endif
