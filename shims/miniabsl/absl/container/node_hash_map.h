#ifndef MINIABSL_node_hash_map_H_
#define MINIABSL_node_hash_map_H_
#include "absl/container/flat_hash_map.h"
namespace absl {
template <typename K, typename V, typename H = mini::Hash<K>, typename E = std::equal_to<>> using node_hash_map = flat_hash_map<K, V, H, E>;
}
#endif
