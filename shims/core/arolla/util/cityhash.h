// Not CityHash: a deterministic 128-bit mix with the same signature (two seeded 64-bit lanes).
#ifndef CORE_AROLLA_CITYHASH_H_
#define CORE_AROLLA_CITYHASH_H_
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <utility>
#include "absl/numeric/int128.h"
namespace arolla {
namespace shim {
inline uint64_t Fmix(uint64_t k) {
  k ^= k >> 33; k *= 0xff51afd7ed558ccdull; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ull; k ^= k >> 33;
  return k;
}
inline std::pair<uint64_t, uint64_t> Mix128(const char* p, size_t n, uint64_t a, uint64_t b) {
  a ^= n * 0x9E3779B97F4A7C15ull;
  while (n > 0) {
    uint64_t w = 0;
    size_t k = n < 8 ? n : 8;
    memcpy(&w, p, k);
    a = Fmix(a ^ w) + b; b = Fmix(b + w * 0x87c37b91114253d5ull) ^ a;
    p += k; n -= k;
  }
  return {Fmix(a), Fmix(b ^ 0x5bd1e9955bd1e995ull)};
}
}  // namespace shim
inline uint64_t CityHash64(const char* p, size_t n) { return shim::Mix128(p, n, 1, 2).first; }
inline uint64_t CityHash64WithSeed(const char* p, size_t n, uint64_t s) { return shim::Mix128(p, n, s, 2).first; }
inline std::pair<uint64_t, uint64_t> CityHash128(const void* p, size_t n) { return shim::Mix128((const char*)p, n, 3, 4); }
inline std::pair<uint64_t, uint64_t> CityHash128WithSeed(const void* p, size_t n, std::pair<uint64_t, uint64_t> s) { return shim::Mix128((const char*)p, n, s.first, s.second); }
}  // namespace arolla
#endif
