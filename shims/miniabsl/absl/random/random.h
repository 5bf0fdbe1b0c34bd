#ifndef MINIABSL_RANDOM_H_
#define MINIABSL_RANDOM_H_
#include <random>
namespace absl {
using BitGen = std::mt19937_64;
template <typename T, typename G> T Uniform(G& g) { return (T)g(); }
template <typename T, typename G> T Uniform(G& g, T a, T b) { return a + (T)(g() % (uint64_t)(b - a)); }
}
#endif
