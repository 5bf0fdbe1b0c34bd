#ifndef MINIABSL_btree_set_H_
#define MINIABSL_btree_set_H_
#include <functional>
#include <set>
namespace absl {
template <typename K, typename C = std::less<>> class btree_set : public std::set<K, C> { public: using std::set<K, C>::set; };
}
#endif
