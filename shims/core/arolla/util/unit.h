#ifndef CORE_AROLLA_UNIT_H_
#define CORE_AROLLA_UNIT_H_
#include <compare>
#include <utility>
namespace arolla {
struct Unit {
  friend constexpr bool operator==(Unit, Unit) { return true; }
  friend constexpr std::strong_ordering operator<=>(Unit, Unit) { return std::strong_ordering::equal; }
  template <typename H> friend H AbslHashValue(H h, Unit) { return H::combine(std::move(h), 0); }
};
inline constexpr Unit kUnit{};
}  // namespace arolla
#endif
