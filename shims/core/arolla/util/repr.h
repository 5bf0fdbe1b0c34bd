#ifndef CORE_AROLLA_REPR_H_
#define CORE_AROLLA_REPR_H_
#include <cstdio>
#include <string>
#include <type_traits>
#include <typeinfo>
#include "arolla/util/text.h"
#include "arolla/util/unit.h"
namespace arolla {
struct ReprToken { struct Precedence { signed char left = -1, right = -1; }; std::string str; Precedence precedence{}; static constexpr Precedence kHighest{-1, -1}, kSafeForArithmetic{0, 0}, kSafeForSubscription{0, -1}; };
template <typename T> struct ReprTraits { ReprTraits() = delete; };
template <typename T> ReprToken GenReprToken(const T& v) {
  if constexpr (std::is_default_constructible_v<ReprTraits<T>>) return ReprTraits<T>()(v);
  else if constexpr (requires { v.ArollaReprToken(); }) return v.ArollaReprToken();
  else if constexpr (std::is_same_v<T, bool>) return {v ? "true" : "false"};
  else if constexpr (std::is_same_v<T, Unit>) return {"present"};
  else if constexpr (std::is_same_v<T, Text>) return {"'" + std::string(v.view()) + "'"};
  else if constexpr (std::is_same_v<T, std::string>) return {"b'" + v + "'"};
  else if constexpr (std::is_integral_v<T>) return {sizeof(T) == 8 ? "int64{" + std::to_string(v) + "}" : std::to_string(v)};
  else if constexpr (std::is_floating_point_v<T>) { char b[64]; snprintf(b, sizeof b, sizeof(T) == 8 ? "float64{%.17g}" : "%.9g", (double)v); return {b}; }
  else return {typeid(T).name()};
}
template <typename T> std::string Repr(const T& v) { return GenReprToken(v).str; }
}  // namespace arolla
#define AROLLA_DECLARE_REPR(...) template <> struct ReprTraits<__VA_ARGS__> { ReprToken operator()(const __VA_ARGS__& value) const; }
#endif
