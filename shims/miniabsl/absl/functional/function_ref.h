#ifndef MINIABSL_FUNCTION_REF_H_
#define MINIABSL_FUNCTION_REF_H_
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
namespace absl {
template <typename S> class FunctionRef;
template <typename R, typename... A>
class FunctionRef<R(A...)> {
 public:
  template <typename F, std::enable_if_t<!std::is_same_v<std::decay_t<F>, FunctionRef> && std::is_invocable_r_v<R, F&, A...>, int> = 0>
  FunctionRef(F&& f) : o_((void*)std::addressof(f)), c_([](void* o, A... a) -> R { return std::invoke(*(std::remove_reference_t<F>*)o, std::forward<A>(a)...); }) {}
  R operator()(A... a) const { return c_(o_, std::forward<A>(a)...); }
 private:
  void* o_; R (*c_)(void*, A...);
};
template <typename R, typename... A> class FunctionRef<R(A...) const> : public FunctionRef<R(A...)> { using FunctionRef<R(A...)>::FunctionRef; };
}
#endif
