#ifndef MINIABSL_NO_DESTRUCTOR_H_
#define MINIABSL_NO_DESTRUCTOR_H_
#include <new>
#include <type_traits>
#include <utility>
namespace absl {
template <typename T>
class NoDestructor {
 public:
  template <typename... A, std::enable_if_t<std::is_constructible_v<T, A&&...>, int> = 0>
  explicit NoDestructor(A&&... a) { new (b_) T(std::forward<A>(a)...); }
  NoDestructor(const T& x) { new (b_) T(x); }
  NoDestructor(T&& x) { new (b_) T(std::move(x)); }
  NoDestructor(const NoDestructor&) = delete;
  NoDestructor& operator=(const NoDestructor&) = delete;
  T* get() { return std::launder(reinterpret_cast<T*>(b_)); }
  const T* get() const { return std::launder(reinterpret_cast<const T*>(b_)); }
  T& operator*() { return *get(); }
  const T& operator*() const { return *get(); }
  T* operator->() { return get(); }
  const T* operator->() const { return get(); }
 private:
  alignas(T) unsigned char b_[sizeof(T)];
};
template <typename T> NoDestructor(T) -> NoDestructor<T>;
}  // namespace absl
#endif
