#ifndef MINIABSL_INLINED_VECTOR_H_
#define MINIABSL_INLINED_VECTOR_H_
#include <memory>
#include <vector>
namespace absl {
// A vector whose iterators are pointers, as absl's are.
template <typename T, size_t N, typename A = std::allocator<T>>
class InlinedVector : public std::vector<T, A> {
  using B = std::vector<T, A>;
 public:
  using B::vector;
  using iterator = T*; using const_iterator = const T*;
  iterator begin() { return this->data(); }
  iterator end() { return this->data() + this->size(); }
  const_iterator begin() const { return this->data(); }
  const_iterator end() const { return this->data() + this->size(); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  iterator erase(const_iterator i) { auto k = i - begin(); B::erase(B::begin() + k); return begin() + k; }
  iterator erase(const_iterator i, const_iterator j) { auto k = i - begin(), m = j - begin(); B::erase(B::begin() + k, B::begin() + m); return begin() + k; }
  template <typename... X> iterator insert(const_iterator i, X&&... x) { auto k = i - begin(); B::insert(B::begin() + k, std::forward<X>(x)...); return begin() + k; }
  template <typename... X> iterator emplace(const_iterator i, X&&... x) { auto k = i - begin(); B::emplace(B::begin() + k, std::forward<X>(x)...); return begin() + k; }
};
}  // namespace absl
#endif
