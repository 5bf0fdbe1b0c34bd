#ifndef CORE_AROLLA_ITERATOR_H_
#define CORE_AROLLA_ITERATOR_H_
#include <cstddef>
#include <iterator>
#include <type_traits>
namespace arolla {
// Random access over any A with operator[](id) and size_type.
template <typename A> class ConstArrayIterator {
 public:
  using iterator_category = std::random_access_iterator_tag;
  using value_type = typename A::value_type;
  using pointer = const value_type*;
  using reference = decltype(std::declval<const A>()[typename A::difference_type{}]);
  using difference_type = typename A::difference_type;
  ConstArrayIterator() = default;
  ConstArrayIterator(const A* a, difference_type p) : a_(a), p_(p) {}
  reference operator*() const { return (*a_)[p_]; }
  template <typename R = reference, typename = std::enable_if_t<std::is_lvalue_reference_v<R>>> pointer operator->() const { return &**this; }
  reference operator[](difference_type i) const { return (*a_)[p_ + i]; }
  ConstArrayIterator& operator+=(difference_type d) { p_ += d; return *this; }
  ConstArrayIterator& operator-=(difference_type d) { p_ -= d; return *this; }
  ConstArrayIterator& operator++() { ++p_; return *this; }
  ConstArrayIterator& operator--() { --p_; return *this; }
  ConstArrayIterator operator++(int) { auto t = *this; ++p_; return t; }
  ConstArrayIterator operator--(int) { auto t = *this; --p_; return t; }
  friend ConstArrayIterator operator+(ConstArrayIterator i, difference_type d) { return i += d; }
  friend ConstArrayIterator operator+(difference_type d, ConstArrayIterator i) { return i += d; }
  friend ConstArrayIterator operator-(ConstArrayIterator i, difference_type d) { return i -= d; }
  friend difference_type operator-(const ConstArrayIterator& a, const ConstArrayIterator& b) { return a.p_ - b.p_; }
  friend bool operator==(const ConstArrayIterator& a, const ConstArrayIterator& b) { return a.p_ == b.p_; }
  friend auto operator<=>(const ConstArrayIterator& a, const ConstArrayIterator& b) { return a.p_ <=> b.p_; }
 private:
  const A* a_ = nullptr;
  difference_type p_ = 0;
};
}  // namespace arolla
#endif
