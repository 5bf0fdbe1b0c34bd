#ifndef MINIABSL_HASH_HASH_H_
#define MINIABSL_HASH_HASH_H_
#include "absl/container/mini_hash.h"
namespace absl {
template <typename T> using Hash = mini::Hash<T>;
template <int&... X, typename... A> size_t HashOf(const A&... a) { return mini::HashState::combine(mini::HashState(), a...).h; }
template <typename T> using DefaultHashContainerHash = mini::Hash<T>;
}  // namespace absl
#endif
