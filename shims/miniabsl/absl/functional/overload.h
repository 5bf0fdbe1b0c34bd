#ifndef MINIABSL_OVERLOAD_H_
#define MINIABSL_OVERLOAD_H_
namespace absl { template <class... T> struct Overload final : T... { using T::operator()...; }; template <class... T> Overload(T...) -> Overload<T...>; }
#endif
