#ifndef MINIABSL_btree_map_H_
#define MINIABSL_btree_map_H_
#include <functional>
#include <map>
namespace absl {
template <typename K, typename V, typename C = std::less<>> class btree_map : public std::map<K, V, C> { public: using std::map<K, V, C>::map; };
}
#endif
