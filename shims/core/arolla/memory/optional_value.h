#ifndef CORE_AROLLA_OPTIONAL_VALUE_H_
#define CORE_AROLLA_OPTIONAL_VALUE_H_
#include <cstdint>
#include <optional>
#include <ostream>
#include <string>
#include <type_traits>
#include <utility>
#include "absl/status/statusor.h"
#include "arolla/util/meta.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"
#include "arolla/util/view_types.h"
namespace arolla {
template <typename T> struct OptionalValue {
  static_assert(std::is_default_constructible_v<T>);
  using value_type = T;
  constexpr OptionalValue() : present(false), value() {}
  constexpr OptionalValue(T v) : present(true), value(std::move(v)) {}
  constexpr OptionalValue(std::nullopt_t) : present(false), value() {}
  constexpr OptionalValue(bool p, T v) : present(p), value(std::move(v)) {}
  template <typename X, typename = std::enable_if_t<std::is_convertible_v<X, T>>>
  constexpr OptionalValue(std::optional<X> o) : present(o.has_value()), value(o.has_value() ? T(*std::move(o)) : T()) {}
  template <typename X, typename = std::enable_if_t<std::is_convertible_v<X, T> && !std::is_same_v<X, T>>>
  constexpr OptionalValue(OptionalValue<X> o) : present(o.present), value(o.present ? T(std::move(o.value)) : T()) {}
  template <typename X, std::enable_if_t<std::is_constructible_v<T, X> && !std::is_convertible_v<X, T>, int> = 0>
  constexpr explicit OptionalValue(X&& v) : present(true), value(std::forward<X>(v)) {}
  template <typename X, std::enable_if_t<std::is_constructible_v<T, X> && !std::is_convertible_v<X, T>, int> = 0>
  constexpr explicit OptionalValue(const OptionalValue<X>& o) : present(o.present), value(o.present ? T(o.value) : T()) {}
  template <typename X, std::enable_if_t<std::is_convertible_v<X, T> && !std::is_same_v<std::decay_t<X>, T> && !meta::is_wrapped_with_v<OptionalValue, std::decay_t<X>> && !meta::is_wrapped_with_v<std::optional, std::decay_t<X>>, int> = 0>
  constexpr OptionalValue(X&& v) : present(true), value(std::forward<X>(v)) {}
  constexpr std::optional<T> AsOptional() const { return present ? std::optional<T>(value) : std::nullopt; }
  constexpr operator std::optional<T>() const { return AsOptional(); }
  constexpr explicit operator bool() const { return present; }
  constexpr bool has_value() const { return present; }
  constexpr const T& value_or(const T& d) const { return present ? value : d; }
  bool present;
  T value;
};
template <> struct OptionalValue<Unit> {
  using value_type = Unit;
  constexpr OptionalValue() : present(false) {}
  constexpr OptionalValue(Unit) : present(true) {}
  constexpr OptionalValue(std::nullopt_t) : present(false) {}
  constexpr OptionalValue(bool p, Unit) : present(p) {}
  constexpr explicit OptionalValue(bool p) : present(p) {}
  constexpr OptionalValue(std::optional<Unit> o) : present(o.has_value()) {}
  constexpr std::optional<Unit> AsOptional() const { return present ? std::optional<Unit>(Unit{}) : std::nullopt; }
  constexpr operator std::optional<Unit>() const { return AsOptional(); }
  constexpr explicit operator bool() const { return present; }
  constexpr bool has_value() const { return present; }
  bool present;
  static constexpr Unit value = {};
};
using OptionalUnit = OptionalValue<Unit>;
inline constexpr OptionalUnit kPresent{Unit{}};
inline constexpr OptionalUnit kMissing{};
template <typename T, typename U, typename = decltype(std::declval<T>() == std::declval<U>())>
constexpr bool operator==(const OptionalValue<T>& a, const OptionalValue<U>& b) { return a.present == b.present && (!a.present || a.value == b.value); }
template <typename T, typename U, typename = std::enable_if_t<!meta::is_wrapped_with_v<OptionalValue, U>>, typename = decltype(std::declval<T>() == std::declval<U>())>
constexpr bool operator==(const OptionalValue<T>& a, const U& b) { return a.present && a.value == b; }
template <typename T> constexpr bool operator==(const OptionalValue<T>& a, std::nullopt_t) { return !a.present; }
template <typename T> constexpr OptionalValue<T> MakeOptional(T v) { return {std::move(v)}; }
template <typename T> struct is_optional : std::false_type {};
template <typename T> struct is_optional<OptionalValue<T>> : std::true_type {};
template <typename T> inline constexpr bool is_optional_v = is_optional<T>::value;
template <typename T> struct wrap_with_optional { using type = OptionalValue<T>; };
template <typename T> struct wrap_with_optional<OptionalValue<T>> { using type = OptionalValue<T>; };
template <typename T> using wrap_with_optional_t = typename wrap_with_optional<T>::type;
template <typename T> struct strip_optional { using type = T; };
template <typename T> struct strip_optional<OptionalValue<T>> { using type = T; };
template <typename T> using strip_optional_t = typename strip_optional<T>::type;
template <typename T> std::ostream& operator<<(std::ostream& o, const OptionalValue<T>& v) { if (v.present) { if constexpr (requires { o << v.value; }) return o << "?{" << v.value << "}"; else return o << "?{..}"; } return o << "{NA}"; }
template <> inline std::ostream& operator<<(std::ostream& o, const OptionalValue<Unit>& v) { return o << (v.present ? "present" : "missing"); }
template <typename T> struct ViewTypeTraits<OptionalValue<T>> { using type = OptionalValue<view_type_t<T>>; };
}  // namespace arolla
#endif
