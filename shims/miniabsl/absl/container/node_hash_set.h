#ifndef MINIABSL_node_hash_set_H_
#define MINIABSL_node_hash_set_H_
#include "absl/container/flat_hash_set.h"
namespace absl { template <typename K, typename H = mini::Hash<K>, typename E = std::equal_to<>> using node_hash_set = flat_hash_set<K, H, E>; }
#endif
