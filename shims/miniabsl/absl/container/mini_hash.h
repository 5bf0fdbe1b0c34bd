#ifndef MINIABSL_MINI_HASH_H_
#define MINIABSL_MINI_HASH_H_
#include <cstdint>
#include <cstring>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
namespace absl {
namespace mini {
// What the hash of a type may be made of: AbslHashValue, or one of the types absl knows.
struct HashState {
  uint64_t h = 0x51ed270b0a1ull;
  void Mix(uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }
  template <typename... A> static HashState combine(HashState s, const A&... a) { ((s = One(std::move(s), a)), ...); return s; }
  template <typename T> static HashState combine_contiguous(HashState s, const T* p, size_t n) {
    if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) { s.Mix(std::hash<std::string_view>()(std::string_view((const char*)p, n * sizeof(T)))); }
    else for (size_t i = 0; i < n; ++i) s = One(std::move(s), p[i]);
    return s;
  }
  template <typename T> static HashState One(HashState s, const T& v) {
    if constexpr (requires { AbslHashValue(std::move(s), v); }) { return AbslHashValue(std::move(s), v); }
    else if constexpr (std::is_floating_point_v<T>) { s.Mix(std::hash<T>()(v)); return s; }
    else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) { s.Mix((uint64_t)v); return s; }
    else if constexpr (std::is_convertible_v<const T&, std::string_view>) { s.Mix(std::hash<std::string_view>()(std::string_view(v))); return s; }
    else if constexpr (std::is_pointer_v<T>) { s.Mix((uint64_t)(uintptr_t)v); return s; }
    else if constexpr (requires { v.first; v.second; }) return combine(std::move(s), v.first, v.second);
    else if constexpr (requires { std::tuple_size<T>::value; }) return std::apply([&](const auto&... e) { return combine(std::move(s), e...); }, v);
    else if constexpr (requires { v.has_value(); *v; }) { s.Mix(v.has_value()); return v.has_value() ? One(std::move(s), *v) : s; }
    else if constexpr (requires { v.get(); *v; }) { s.Mix((uint64_t)(uintptr_t)v.get()); return s; }
    else if constexpr (requires { std::hash<T>()(v); }) { s.Mix(std::hash<T>()(v)); return s; }
    else if constexpr (requires { v.begin(); v.end(); }) { uint64_t n = 0; for (const auto& e : v) { s = One(std::move(s), e); ++n; } s.Mix(n); return s; }
    else { static_assert(sizeof(T) == 0, "no hash"); return s; }
  }
};
template <typename T> struct Hash { size_t operator()(const T& v) const { return HashState::One(HashState(), v).h; } };
template <> struct Hash<std::string> { using is_transparent = void; size_t operator()(std::string_view s) const { return HashState::One(HashState(), s).h; } };
template <> struct Hash<std::string_view> : Hash<std::string> {};
template <typename T> struct Hash<std::unique_ptr<T>> { using is_transparent = void; size_t operator()(const std::unique_ptr<T>& v) const { return (size_t)v.get(); } size_t operator()(const T* v) const { return (size_t)v; } };
// Calls the predicate with its arguments in whichever order it takes.
template <typename E, typename = void> struct EqBase {};
template <typename E> struct EqBase<E, std::void_t<typename E::is_transparent>> { using is_transparent = void; };
template <typename E> struct Eq : EqBase<E> {
  E e;
  Eq() = default;
  template <typename A, typename B> bool operator()(const A& a, const B& b) const { if constexpr (std::is_invocable_v<const E&, const A&, const B&>) return e(a, b); else return e(b, a); }
};
}  // namespace mini
}  // namespace absl
#endif
