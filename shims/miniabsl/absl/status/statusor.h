#ifndef MINIABSL_STATUSOR_H_
#define MINIABSL_STATUSOR_H_
#include <cstdlib>
#include <optional>
#include <type_traits>
#include <utility>
#include "absl/status/status.h"
namespace absl {
template <typename T>
class [[nodiscard]] StatusOr {
 public:
  using value_type = T;
  StatusOr() : s_(UnknownError("")) {}
  StatusOr(const Status& s) : s_(s) { if (s_.ok()) s_ = InternalError("OK status in StatusOr"); }
  StatusOr(Status&& s) : s_(std::move(s)) { if (s_.ok()) s_ = InternalError("OK status in StatusOr"); }
  template <typename U = T, std::enable_if_t<std::is_constructible_v<T, U&&> && !std::is_same_v<std::decay_t<U>, StatusOr> &&
      !std::is_convertible_v<U&&, Status> && !std::is_same_v<std::decay_t<U>, std::in_place_t>, int> = 0>
  StatusOr(U&& v) : v_(std::in_place, std::forward<U>(v)) {}
  template <typename... A> explicit StatusOr(std::in_place_t, A&&... a) : v_(std::in_place, std::forward<A>(a)...) {}
  template <typename U, std::enable_if_t<!std::is_same_v<U, T> && std::is_constructible_v<T, U&&>, int> = 0>
  StatusOr(StatusOr<U>&& o) : s_(o.status()) { if (o.ok()) v_.emplace(*std::move(o)); }
  bool ok() const { return s_.ok(); }
  const Status& status() const& { return s_; }
  Status status() && { return s_; }
  T& value() & { Chk(); return *v_; }
  const T& value() const& { Chk(); return *v_; }
  T&& value() && { Chk(); return std::move(*v_); }
  T& operator*() & { Chk(); return *v_; }
  const T& operator*() const& { Chk(); return *v_; }
  T&& operator*() && { Chk(); return std::move(*v_); }
  T* operator->() { Chk(); return &*v_; }
  const T* operator->() const { Chk(); return &*v_; }
  template <typename U> T value_or(U&& u) const& { return ok() ? *v_ : T(std::forward<U>(u)); }
  template <typename... A> T& emplace(A&&... a) { s_ = Status(); return v_.emplace(std::forward<A>(a)...); }
  void IgnoreError() const {}
 private:
  void Chk() const { if (!s_.ok()) std::abort(); }
  Status s_;
  std::optional<T> v_;
};
template <typename T>
class [[nodiscard]] StatusOr<T&> {
 public:
  StatusOr(const Status& s) : s_(s) { if (s_.ok()) s_ = InternalError("OK status in StatusOr"); }
  StatusOr(Status&& s) : s_(std::move(s)) { if (s_.ok()) s_ = InternalError("OK status in StatusOr"); }
  StatusOr(T& v) : p_(&v) {}
  bool ok() const { return s_.ok(); }
  const Status& status() const& { return s_; }
  Status status() && { return s_; }
  T& value() const { Chk(); return *p_; }
  T& operator*() const { Chk(); return *p_; }
  T* operator->() const { Chk(); return p_; }
  void IgnoreError() const {}
 private:
  void Chk() const { if (!s_.ok()) std::abort(); }
  Status s_;
  T* p_ = nullptr;
};
}  // namespace absl
#endif
