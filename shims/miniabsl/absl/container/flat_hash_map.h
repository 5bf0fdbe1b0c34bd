#ifndef MINIABSL_flat_hash_map_H_
#define MINIABSL_flat_hash_map_H_
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include "absl/container/mini_hash.h"
namespace absl {
namespace mini {
template <typename K, typename V, typename H, typename E, template <typename, typename, typename, typename> class Self>
class HashMap : public std::unordered_map<K, V, H, Eq<E>> {
  using Base = std::unordered_map<K, V, H, Eq<E>>;
 public:
  using Base::Base;
  using Base::operator[];
  using Base::try_emplace;
  using Base::find;
  using Base::contains;
  using Base::erase;
  using Base::at;
  // Heterogeneous keys: the key is built only when it is inserted.
  template <typename X, std::enable_if_t<!std::is_same_v<std::decay_t<X>, K> && !std::is_convertible_v<X, K>, int> = 0> V& operator[](X&& x) { return try_emplace(std::forward<X>(x)).first->second; }
  template <typename X, typename... A, std::enable_if_t<!std::is_same_v<std::decay_t<X>, K> && !std::is_convertible_v<X, typename Base::const_iterator>, int> = 0>
  std::pair<typename Base::iterator, bool> try_emplace(X&& x, A&&... a) { return Base::try_emplace(K(std::forward<X>(x)), std::forward<A>(a)...); }
  template <typename X, std::enable_if_t<!std::is_same_v<std::decay_t<X>, K> && !std::is_convertible_v<X, typename Base::const_iterator>, int> = 0>
  auto find(X&& x, size_t) { return find(std::forward<X>(x)); }
  auto find(const K& x, size_t) { return Base::find(x); }
  auto find(const K& x, size_t) const { return Base::find(x); }
  template <typename X, std::enable_if_t<!std::is_same_v<std::decay_t<X>, K> && !std::is_convertible_v<X, typename Base::iterator> && !std::is_convertible_v<X, typename Base::const_iterator>, int> = 0>
  size_t erase(X&& x) { auto i = find(x); if (i == this->end()) return 0; Base::erase(i); return 1; }
  template <typename X, std::enable_if_t<!std::is_same_v<std::decay_t<X>, K>, int> = 0> V& at(X&& x) { return find(x)->second; }
  template <typename X, std::enable_if_t<!std::is_same_v<std::decay_t<X>, K>, int> = 0> const V& at(X&& x) const { return find(x)->second; }
  void prefetch(const K&) const {}
  size_t capacity() const { return this->bucket_count(); }
  size_t hash(const K& k) const { return this->hash_function()(k); }
};
}  // namespace mini
template <typename K, typename V, typename H = mini::Hash<K>, typename E = std::equal_to<>>
class flat_hash_map : public mini::HashMap<K, V, H, E, flat_hash_map> { public: using mini::HashMap<K, V, H, E, flat_hash_map>::HashMap; };
}  // namespace absl
#endif
