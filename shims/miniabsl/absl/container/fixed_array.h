#ifndef MINIABSL_FIXED_ARRAY_H_
#define MINIABSL_FIXED_ARRAY_H_
#include <algorithm>
#include <cstddef>
#include <initializer_list>
#include <memory>
namespace absl {
template <typename T, size_t N = 0, typename A = std::allocator<T>> class FixedArray {
 public:
  using value_type = T; using iterator = T*; using const_iterator = const T*; using size_type = size_t; using reference = T&; using const_reference = const T&;
  explicit FixedArray(size_t n, const A& = A()) : n_(n), p_(new T[n ? n : 1]) {}
  FixedArray(size_t n, const T& v, const A& = A()) : FixedArray(n) { std::fill(begin(), end(), v); }
  FixedArray(std::initializer_list<T> l) : FixedArray(l.begin(), l.end()) {}
  template <typename It, typename = typename std::iterator_traits<It>::iterator_category> FixedArray(It b, It e) : FixedArray(std::distance(b, e)) { std::copy(b, e, begin()); }
  FixedArray(const FixedArray& o) : FixedArray(o.begin(), o.end()) {}
  FixedArray(FixedArray&& o) : FixedArray(o.n_) { std::move(o.begin(), o.end(), begin()); }
  FixedArray& operator=(const FixedArray&) = delete;
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  T* data() { return p_.get(); }
  const T* data() const { return p_.get(); }
  T* begin() { return p_.get(); }
  T* end() { return p_.get() + n_; }
  const T* begin() const { return p_.get(); }
  const T* end() const { return p_.get() + n_; }
  T& operator[](size_t i) { return p_[i]; }
  const T& operator[](size_t i) const { return p_[i]; }
  T& front() { return p_[0]; } T& back() { return p_[n_ - 1]; }
  const T& front() const { return p_[0]; } const T& back() const { return p_[n_ - 1]; }
  void fill(const T& v) { std::fill(begin(), end(), v); }
 private:
  size_t n_; std::unique_ptr<T[]> p_;
};
}  // namespace absl
#endif
