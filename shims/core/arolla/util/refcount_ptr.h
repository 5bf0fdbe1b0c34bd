#ifndef CORE_AROLLA_REFCOUNT_PTR_H_
#define CORE_AROLLA_REFCOUNT_PTR_H_
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <memory>
#include <utility>
namespace arolla {
class RefcountedBase {
 public:
  RefcountedBase() = default;
  RefcountedBase(const RefcountedBase&) {}
  RefcountedBase& operator=(const RefcountedBase&) { return *this; }
 private:
  mutable std::atomic<int> n_{0};
  template <typename> friend class RefcountPtr;
};
template <typename T> class RefcountPtr {
 public:
  using element_type = T;
  template <typename... A> static RefcountPtr Make(A&&... a) { return Own(new T(std::forward<A>(a)...)); }
  static RefcountPtr Own(T* p) { return RefcountPtr(p); }
  template <typename D> static RefcountPtr Own(std::unique_ptr<T, D> p) { return RefcountPtr(p.release()); }
  static RefcountPtr NewRef(T* p) { return RefcountPtr(p); }
  constexpr RefcountPtr() = default;
  constexpr RefcountPtr(std::nullptr_t) {}
  explicit RefcountPtr(T* p) : p_(p) { Inc(); }
  RefcountPtr(const RefcountPtr& o) : p_(o.p_) { Inc(); }
  RefcountPtr(RefcountPtr&& o) noexcept : p_(std::exchange(o.p_, nullptr)) {}
  template <typename U> RefcountPtr(const RefcountPtr<U>& o) : p_(o.get()) { Inc(); }
  ~RefcountPtr() { Dec(); }
  RefcountPtr& operator=(std::nullptr_t) { reset(); return *this; }
  RefcountPtr& operator=(const RefcountPtr& o) { RefcountPtr t(o); swap(t); return *this; }
  RefcountPtr& operator=(RefcountPtr&& o) noexcept { RefcountPtr t(std::move(o)); swap(t); return *this; }
  void reset() { Dec(); p_ = nullptr; }
  void swap(RefcountPtr& o) noexcept { std::swap(p_, o.p_); }
  friend void swap(RefcountPtr& a, RefcountPtr& b) noexcept { a.swap(b); }
  T* get() const { return p_; }
  T& operator*() const { return *p_; }
  T* operator->() const { return p_; }
  explicit operator bool() const { return p_ != nullptr; }
  friend bool operator==(const RefcountPtr& a, const RefcountPtr& b) { return a.p_ == b.p_; }
  friend bool operator==(const RefcountPtr& a, std::nullptr_t) { return a.p_ == nullptr; }
  friend bool operator<(const RefcountPtr& a, const RefcountPtr& b) { return a.p_ < b.p_; }
  template <typename H> friend H AbslHashValue(H h, const RefcountPtr& p) { return H::combine(std::move(h), p.p_); }
 private:
  void Inc() { if (p_) p_->RefcountedBase::n_.fetch_add(1); }
  void Dec() { if (p_ && p_->RefcountedBase::n_.fetch_sub(1) == 1) delete p_; }
  T* p_ = nullptr;
};
}  // namespace arolla
#endif
