#ifndef MINIABSL_flat_hash_set_H_
#define MINIABSL_flat_hash_set_H_
#include <string>
#include <string_view>
#include <unordered_set>
#include <utility>
#include "absl/container/mini_hash.h"
namespace absl {
template <typename K, typename H = mini::Hash<K>, typename E = std::equal_to<>>
class flat_hash_set : public std::unordered_set<K, H, mini::Eq<E>> {
 public:
  using std::unordered_set<K, H, mini::Eq<E>>::unordered_set;
};
}  // namespace absl
#endif
