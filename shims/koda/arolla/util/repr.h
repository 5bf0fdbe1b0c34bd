#ifndef SHIM_AROLLA_REPR_H_
#define SHIM_AROLLA_REPR_H_
#include <string>
#include <type_traits>
namespace arolla {
struct ReprToken { struct Precedence { signed char left = -1, right = -1; }; std::string str; Precedence precedence{}; };
template <typename T> struct ReprTraits { ReprTraits() = delete; };
template <typename T> ReprToken GenReprToken(const T& v) {
  if constexpr (std::is_default_constructible_v<ReprTraits<T>>) return ReprTraits<T>()(v); else return {"?"};
}
template <typename T> std::string Repr(const T& v) { return GenReprToken(v).str; }
}  // namespace arolla
#define AROLLA_DECLARE_REPR(...) template <> struct ReprTraits<__VA_ARGS__> { ReprToken operator()(const __VA_ARGS__& value) const; }
#endif
