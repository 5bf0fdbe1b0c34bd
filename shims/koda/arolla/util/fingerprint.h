#ifndef SHIM_AROLLA_FINGERPRINT_H_
#define SHIM_AROLLA_FINGERPRINT_H_
#include <cstdint>
#include <functional>
#include <ostream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
namespace arolla {
struct Fingerprint {
  unsigned __int128 value = 0;
  friend bool operator==(const Fingerprint& a, const Fingerprint& b) { return a.value == b.value; }
  friend bool operator!=(const Fingerprint& a, const Fingerprint& b) { return a.value != b.value; }
  friend bool operator<(const Fingerprint& a, const Fingerprint& b) { return a.value < b.value; }
  std::string AsString() const { return std::to_string((unsigned long long)value); }
  size_t PythonHash() const { return (size_t)value; }
};
inline uint64_t shim_fp_counter = 1;
inline Fingerprint RandomFingerprint() { return Fingerprint{++shim_fp_counter}; }
template <typename T> struct FingerprintHasherTraits { FingerprintHasherTraits() = delete; };
class FingerprintHasher {
 public:
  explicit FingerprintHasher(std::string_view s) : h_(std::hash<std::string_view>()(s)) {}
  Fingerprint Finish() && { return Fingerprint{h_}; }
  template <typename... A> FingerprintHasher& Combine(const A&... a) & { (One(a), ...); return *this; }
  template <typename... A> FingerprintHasher&& Combine(const A&... a) && { (One(a), ...); return std::move(*this); }
  template <typename S> FingerprintHasher& CombineSpan(S&& s) & { for (auto& x : s) One(x); return *this; }
 private:
  void Mix(uint64_t x) { h_ = (h_ ^ x) * 0x9E3779B97F4A7C15ull + 1; }
  void One(const Fingerprint& f) { Mix((uint64_t)f.value); }
  void One(std::string_view s) { Mix(std::hash<std::string_view>()(s)); }
  template <typename T> void One(const T& v) {
    if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) Mix((uint64_t)v);
    else if constexpr (std::is_pointer_v<T>) Mix((uint64_t)v);
    else if constexpr (std::is_convertible_v<const T&, std::string_view>) One(std::string_view(v));
    else if constexpr (std::is_default_constructible_v<FingerprintHasherTraits<T>>) FingerprintHasherTraits<T>()(this, v);
  }
  uint64_t h_;
};
}  // namespace arolla
#define AROLLA_DECLARE_FINGERPRINT_HASHER_TRAITS(...) \
  template <> struct FingerprintHasherTraits<__VA_ARGS__> { void operator()(FingerprintHasher* hasher, const __VA_ARGS__& value) const; }
#endif
