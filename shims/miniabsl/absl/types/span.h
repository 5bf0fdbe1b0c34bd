#ifndef MINIABSL_SPAN_H_
#define MINIABSL_SPAN_H_
#include <algorithm>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <type_traits>
#include <vector>
namespace absl {
template <typename T>
class Span {
 public:
  using element_type = T; using value_type = std::remove_cv_t<T>; using pointer = T*; using reference = T&; using iterator = T*;
  using const_iterator = const T*; using size_type = size_t; using difference_type = ptrdiff_t; using reverse_iterator = std::reverse_iterator<T*>;
  static constexpr size_t npos = ~size_t(0);
  constexpr Span() = default;
  constexpr Span(T* p, size_t n) : p_(p), n_(n) {}
  template <size_t N> constexpr Span(T (&a)[N]) : p_(a), n_(N) {}
  template <typename V, std::enable_if_t<std::is_convertible_v<decltype(std::declval<V&>().data()), T*> && !std::is_same_v<std::decay_t<V>, Span>, int> = 0>
  constexpr Span(V& v) : p_(v.data()), n_(v.size()) {}
  template <typename V, std::enable_if_t<std::is_const_v<T> && std::is_convertible_v<decltype(std::declval<const V&>().data()), T*> && !std::is_same_v<std::decay_t<V>, Span>, int> = 0>
  constexpr Span(const V& v) : p_(v.data()), n_(v.size()) {}
  template <typename U = T, std::enable_if_t<std::is_const_v<U>, int> = 0>
  constexpr Span(std::initializer_list<value_type> v) : p_(v.begin()), n_(v.size()) {}
  constexpr T* data() const { return p_; }
  constexpr size_t size() const { return n_; }
  constexpr size_t length() const { return n_; }
  constexpr bool empty() const { return n_ == 0; }
  constexpr T& operator[](size_t i) const { return p_[i]; }
  constexpr T& at(size_t i) const { return p_[i]; }
  constexpr T& front() const { return p_[0]; }
  constexpr T& back() const { return p_[n_ - 1]; }
  constexpr T* begin() const { return p_; }
  constexpr T* end() const { return p_ + n_; }
  constexpr const T* cbegin() const { return p_; }
  constexpr const T* cend() const { return p_ + n_; }
  auto rbegin() const { return reverse_iterator(end()); }
  auto rend() const { return reverse_iterator(begin()); }
  constexpr void remove_prefix(size_t k) { p_ += k; n_ -= k; }
  constexpr void remove_suffix(size_t k) { n_ -= k; }
  constexpr Span subspan(size_t pos, size_t len = npos) const { return Span(p_ + pos, std::min(n_ - pos, len)); }
  constexpr Span first(size_t k) const { return Span(p_, k); }
  constexpr Span last(size_t k) const { return Span(p_ + n_ - k, k); }
  template <typename U> friend bool operator==(Span a, Span<U> b) { return std::equal(a.begin(), a.end(), b.begin(), b.end()); }
 private:
  T* p_ = nullptr; size_t n_ = 0;
};
template <typename T> constexpr Span<T> MakeSpan(T* p, size_t n) { return Span<T>(p, n); }
template <typename T> constexpr Span<T> MakeSpan(T* b, T* e) { return Span<T>(b, e - b); }
template <typename C> constexpr auto MakeSpan(C& c) { return Span<std::remove_pointer_t<decltype(c.data())>>(c.data(), c.size()); }
template <typename T, size_t N> constexpr Span<T> MakeSpan(T (&a)[N]) { return Span<T>(a, N); }
template <typename T> constexpr Span<const T> MakeConstSpan(T* p, size_t n) { return Span<const T>(p, n); }
template <typename T> constexpr Span<const T> MakeConstSpan(T* b, T* e) { return Span<const T>(b, e - b); }
template <typename C> constexpr auto MakeConstSpan(const C& c) { return Span<const std::remove_pointer_t<decltype(c.data())>>(c.data(), c.size()); }
template <typename T> constexpr Span<const T> MakeConstSpan(std::initializer_list<T> v) { return Span<const T>(v.begin(), v.size()); }
}  // namespace absl
#endif
