#ifndef MINIABSL_INT128_H_
#define MINIABSL_INT128_H_
#include <cstdint>
namespace absl {
using uint128 = unsigned __int128;
using int128 = __int128;
constexpr uint128 MakeUint128(uint64_t hi, uint64_t lo) { return (uint128(hi) << 64) | lo; }
constexpr uint64_t Uint128Low64(uint128 v) { return (uint64_t)v; }
constexpr uint64_t Uint128High64(uint128 v) { return (uint64_t)(v >> 64); }
constexpr uint128 Uint128Max() { return ~uint128(0); }
}  // namespace absl
#endif
