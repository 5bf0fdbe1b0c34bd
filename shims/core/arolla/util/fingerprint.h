#ifndef CORE_AROLLA_FINGERPRINT_H_
#define CORE_AROLLA_FINGERPRINT_H_
#include <cstdint>
#include <cstring>
#include <memory>
#include <optional>
#include <ostream>
#include <string>
#include <string_view>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include "absl/numeric/int128.h"
#include "arolla/util/cityhash.h"
#include "arolla/util/meta.h"
namespace arolla {
struct Fingerprint {
  absl::uint128 value;
  std::string AsString() const { char b[40]; snprintf(b, sizeof b, "%016llx%016llx", (unsigned long long)absl::Uint128High64(value), (unsigned long long)absl::Uint128Low64(value)); return b; }
  signed long long PythonHash() const { return (long long)absl::Uint128Low64(value); }
  friend bool operator==(const Fingerprint& a, const Fingerprint& b) { return a.value == b.value; }
  friend bool operator!=(const Fingerprint& a, const Fingerprint& b) { return a.value != b.value; }
  friend bool operator<(const Fingerprint& a, const Fingerprint& b) { return a.value < b.value; }
  template <typename H> friend H AbslHashValue(H h, const Fingerprint& f) { return H::combine(std::move(h), absl::Uint128High64(f.value), absl::Uint128Low64(f.value)); }
  friend std::ostream& operator<<(std::ostream& o, const Fingerprint& f) { return o << f.AsString(); }
};
inline uint64_t shim_fp_counter = 1;
inline Fingerprint RandomFingerprint() { return Fingerprint{++shim_fp_counter}; }
class FingerprintHasher;
template <typename T> struct FingerprintHasherTraits { FingerprintHasherTraits() = delete; };
class FingerprintHasher {
 public:
  explicit FingerprintHasher(std::string_view s) : s_{5, 6} { Str(s); }
  Fingerprint Finish() && { return Fingerprint{absl::MakeUint128(s_.second, s_.first)}; }
  template <typename... A> FingerprintHasher& Combine(const A&... a) & { (One(a), ...); return *this; }
  template <typename... A> FingerprintHasher&& Combine(const A&... a) && { (One(a), ...); return std::move(*this); }
  template <typename S> FingerprintHasher& CombineSpan(S&& s) & { for (auto& x : s) One(x); return *this; }
  template <typename S> FingerprintHasher&& CombineSpan(S&& s) && { for (auto& x : s) One(x); return std::move(*this); }
  FingerprintHasher& CombineRawBytes(const void* p, size_t n) & { s_ = CityHash128WithSeed((const char*)p, n, s_); return *this; }
  FingerprintHasher&& CombineRawBytes(const void* p, size_t n) && { s_ = CityHash128WithSeed((const char*)p, n, s_); return std::move(*this); }
 private:
  void Str(std::string_view s) { uint64_t n = s.size(); CombineRawBytes(&n, 8); CombineRawBytes(s.data(), s.size()); }
  template <typename T> void One(const T& v) {
    if constexpr (std::is_default_constructible_v<FingerprintHasherTraits<T>>) FingerprintHasherTraits<T>()(this, v);
    else if constexpr (requires { v.ArollaFingerprint(this); }) v.ArollaFingerprint(this);
    else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T> || std::is_pointer_v<T>) CombineRawBytes(&v, sizeof v);
    else if constexpr (std::is_convertible_v<const T&, std::string_view>) Str(std::string_view(v));
    else if constexpr (std::is_same_v<T, Fingerprint>) CombineRawBytes(&v.value, 16);
    else if constexpr (requires { v.expr_fingerprint(); }) One(v.expr_fingerprint());
    else if constexpr (requires { *v; }) { One((bool)v); if (v) One(*v); }
    else if constexpr (std::is_empty_v<T>) Str(typeid(T).name());
    else static_assert(sizeof(T) == 0, "no fingerprint");
  }
  std::pair<uint64_t, uint64_t> s_;
};
inline Fingerprint FingerprintOfString(std::string_view s) { return FingerprintHasher(s).Finish(); }
}  // namespace arolla
#define AROLLA_DECLARE_FINGERPRINT_HASHER_TRAITS(...) \
  template <> struct FingerprintHasherTraits<__VA_ARGS__> { void operator()(FingerprintHasher* hasher, const __VA_ARGS__& value) const; }
#endif
