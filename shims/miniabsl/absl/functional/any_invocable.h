#ifndef MINIABSL_ANY_INVOCABLE_H_
#define MINIABSL_ANY_INVOCABLE_H_
#include <cstddef>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
namespace absl {
template <typename Sig> class AnyInvocable;
namespace mini {
template <typename T> struct IsAny : std::false_type {};
template <typename S> struct IsAny<AnyInvocable<S>> : std::true_type {};
template <typename T> struct IsInPlace : std::false_type {};
template <typename S> struct IsInPlace<std::in_place_type_t<S>> : std::true_type {};
template <typename F> bool IsNull(const F& f) {
  if constexpr (std::is_pointer_v<F> || std::is_member_pointer_v<F> || IsAny<F>::value) return f == nullptr;
  else return false;
}
template <typename S> bool IsNull(const std::function<S>& f) { return f == nullptr; }
template <typename R, typename... A>
struct AnyBase {
  virtual ~AnyBase() = default;
  virtual R Call(A... a) = 0;
};
// CallAs: the type through which the target is invoked (F&, const F&, F&&).
template <typename F, typename CallAs, typename R, typename... A>
struct AnyImpl final : AnyBase<R, A...> {
  F f;
  template <typename... X> explicit AnyImpl(X&&... x) : f(std::forward<X>(x)...) {}
  R Call(A... a) final {
    if constexpr (std::is_void_v<R>) std::invoke(static_cast<CallAs>(f), std::forward<A>(a)...);
    else return std::invoke(static_cast<CallAs>(f), std::forward<A>(a)...);
  }
};
}  // namespace mini
#define MINI_ANY(QUAL, CALLAS, NOEX, SELF)                                                                  \
  template <typename R, typename... A>                                                                      \
  class AnyInvocable<R(A...) QUAL NOEX> {                                                                   \
   public:                                                                                                  \
    using result_type = R;                                                                                  \
    AnyInvocable() = default;                                                                               \
    AnyInvocable(std::nullptr_t) {}                                                                         \
    AnyInvocable(AnyInvocable&&) = default;                                                                 \
    AnyInvocable& operator=(AnyInvocable&&) = default;                                                      \
    AnyInvocable& operator=(std::nullptr_t) { p_.reset(); return *this; }                                   \
    template <typename F, typename D = std::decay_t<F>,                                                     \
              std::enable_if_t<!std::is_same_v<D, AnyInvocable> && !mini::IsInPlace<D>::value &&            \
                  std::is_constructible_v<D, F&&> && std::is_invocable_r_v<R, D CALLAS, A...>, int> = 0>    \
    AnyInvocable(F&& f) {                                                                                   \
      if (!mini::IsNull(f)) p_ = std::make_unique<mini::AnyImpl<D, D CALLAS, R, A...>>(std::forward<F>(f)); \
    }                                                                                                       \
    template <typename T, typename... X>                                                                    \
    explicit AnyInvocable(std::in_place_type_t<T>, X&&... x)                                                \
        : p_(std::make_unique<mini::AnyImpl<T, T CALLAS, R, A...>>(std::forward<X>(x)...)) {}               \
    template <typename F, typename D = std::decay_t<F>,                                                     \
              std::enable_if_t<!std::is_same_v<D, AnyInvocable> &&                                          \
                  std::is_invocable_r_v<R, D CALLAS, A...>, int> = 0>                                       \
    AnyInvocable& operator=(F&& f) { *this = AnyInvocable(std::forward<F>(f)); return *this; }              \
    explicit operator bool() const { return p_ != nullptr; }                                                \
    void swap(AnyInvocable& o) { p_.swap(o.p_); }                                                           \
    friend void swap(AnyInvocable& a, AnyInvocable& b) { a.swap(b); }                                       \
    friend bool operator==(const AnyInvocable& f, std::nullptr_t) { return !f.p_; }                         \
    friend bool operator==(std::nullptr_t, const AnyInvocable& f) { return !f.p_; }                         \
    friend bool operator!=(const AnyInvocable& f, std::nullptr_t) { return !!f.p_; }                        \
    friend bool operator!=(std::nullptr_t, const AnyInvocable& f) { return !!f.p_; }                        \
    R operator()(A... a) SELF { return p_->Call(std::forward<A>(a)...); }                                   \
   private:                                                                                                 \
    std::unique_ptr<mini::AnyBase<R, A...>> p_;                                                             \
  };
#define MINI_NOTHING
MINI_ANY(MINI_NOTHING, &, MINI_NOTHING, MINI_NOTHING)
MINI_ANY(const, const&, MINI_NOTHING, const)
MINI_ANY(&, &, MINI_NOTHING, &)
MINI_ANY(const&, const&, MINI_NOTHING, const&)
MINI_ANY(&&, &&, MINI_NOTHING, &&)
#undef MINI_ANY
#undef MINI_NOTHING
}  // namespace absl
#endif
