// Element-wise operations: an argument of optional type does not require presence, any other does.
#ifndef CORE_AROLLA_DENSE_OPS_H_
#define CORE_AROLLA_DENSE_OPS_H_
#include <cstdint>
#include <tuple>
#include <type_traits>
#include <utility>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/memory/optional_value.h"
#include "arolla/util/meta.h"
#include "arolla/util/status.h"
#include "arolla/util/view_types.h"
namespace arolla {
struct DenseOpFlags { static constexpr int kRunOnMissing = 1, kNoBitmapOffset = 2, kNoSizeValidation = 4; };
namespace shim {
template <typename L> struct ArgList;
template <typename... A> struct ArgList<meta::type_list<A...>> { using tuple = std::tuple<std::decay_t<A>...>; };
template <typename L, size_t N> struct Drop : Drop<meta::tail_t<L>, N - 1> {};
template <typename L> struct Drop<L, 0> { using type = L; };
template <typename A, typename D> auto PickArg(const D& d, int64_t i) {
  if constexpr (is_optional_v<A>) { if (d.present(i)) return A(true, typename A::value_type(d.values[i])); else return A(); }
  else return A(d.values[i]);
}
template <typename A, typename D> bool ArgOk(const D& d, int64_t i) { return is_optional_v<A> || d.present(i); }
template <typename R> struct Unwrap { using type = R; static constexpr bool status = false; };
template <typename R> struct Unwrap<absl::StatusOr<R>> { using type = R; static constexpr bool status = true; };
template <typename Tuple, typename Fn, size_t... I, typename... D>
void ForEachImpl(Fn& fn, std::index_sequence<I...>, const D&... d) {
  int64_t n = std::get<0>(std::tie(d...)).size();
  for (int64_t i = 0; i < n; ++i) {
    bool ok = (ArgOk<std::tuple_element_t<I, Tuple>>(d, i) && ...);
    if constexpr (std::is_same_v<std::invoke_result_t<Fn&, int64_t, bool, std::tuple_element_t<I, Tuple>...>, void>) fn(i, ok, PickArg<std::tuple_element_t<I, Tuple>>(d, i)...);
  }
}
template <typename... D> bool SameSizes(const D&... d) { int64_t n = std::get<0>(std::tie(d...)).size(); return ((d.size() == n) && ...); }
template <typename T> struct Base { using type = T; };
template <> struct Base<std::string_view> { using type = Text; };
}  // namespace shim
inline absl::Status SizeMismatchError(std::initializer_list<int64_t>);
// fn(id, valid, args...)
template <typename Fn, typename... D> absl::Status DenseArraysForEach(Fn&& fn, const D&... d) {
  using F = std::decay_t<Fn>;
  using Args = typename shim::Drop<typename meta::function_traits<F>::arg_types, 2>::type;
  if (!shim::SameSizes(d...)) return SizeMismatchError({d.size()...});
  shim::ForEachImpl<typename shim::ArgList<Args>::tuple>(fn, std::index_sequence_for<D...>(), d...);
  return absl::OkStatus();
}
// fn(id, args...) where every required argument is present
template <typename Fn, typename... D> absl::Status DenseArraysForEachPresent(Fn&& fn, const D&... d) {
  using F = std::decay_t<Fn>;
  using Args = typename shim::Drop<typename meta::function_traits<F>::arg_types, 1>::type;
  using Tuple = typename shim::ArgList<Args>::tuple;
  if (!shim::SameSizes(d...)) return SizeMismatchError({d.size()...});
  int64_t n = std::get<0>(std::tie(d...)).size();
  [&]<size_t... I>(std::index_sequence<I...>) {
    for (int64_t i = 0; i < n; ++i)
      if ((shim::ArgOk<std::tuple_element_t<I, Tuple>>(d, i) && ...)) fn(i, shim::PickArg<std::tuple_element_t<I, Tuple>>(d, i)...);
  }(std::index_sequence_for<D...>());
  return absl::OkStatus();
}
template <int kFlags, typename Fn, typename ResT> class DenseOp {
  using Args = typename meta::function_traits<std::decay_t<Fn>>::arg_types;
  using Tuple = typename shim::ArgList<Args>::tuple;
  using Raw = std::decay_t<typename meta::function_traits<std::decay_t<Fn>>::return_type>;
  using U = shim::Unwrap<Raw>;
  using V = strip_optional_t<typename U::type>;
  using Res = std::conditional_t<std::is_void_v<ResT>, typename shim::Base<V>::type, ResT>;
 public:
  explicit DenseOp(Fn fn) : fn_(std::move(fn)) {}
  template <typename... D> auto operator()(const D&... d) const {
    constexpr bool plain = !U::status && (sizeof...(D) == 1 || (kFlags & DenseOpFlags::kNoSizeValidation));
    if constexpr (plain) { DenseArray<Res> out; (void)Run(out, d...); return out; }
    else { absl::StatusOr<DenseArray<Res>> r(std::in_place); if (auto s = Run(*r, d...); !s.ok()) return absl::StatusOr<DenseArray<Res>>(s); return r; }
  }
 private:
  template <typename... D> absl::Status Run(DenseArray<Res>& out, const D&... d) const {
    if (!shim::SameSizes(d...)) return SizeMismatchError({d.size()...});
    int64_t n = std::get<0>(std::tie(d...)).size();
    DenseArrayBuilder<Res> b(n);
    absl::Status st;
    [&]<size_t... I>(std::index_sequence<I...>) {
      for (int64_t i = 0; i < n && st.ok(); ++i) {
        if (!(shim::ArgOk<std::tuple_element_t<I, Tuple>>(d, i) && ...)) continue;
        auto r = fn_(shim::PickArg<std::tuple_element_t<I, Tuple>>(d, i)...);
        if constexpr (U::status) { if (!r.ok()) st = r.status(); else b.Set(i, *r); } else b.Set(i, r);
      }
    }(std::index_sequence_for<D...>());
    if (!st.ok()) return st;
    out = std::move(b).Build();
    if (out.IsAllPresent()) out.bitmap = {};
    return absl::OkStatus();
  }
  Fn fn_;
};
template <int kFlags, typename ResT = void, typename Fn> auto CreateDenseOp(Fn fn, RawBufferFactory* = nullptr) { return DenseOp<kFlags, Fn, ResT>(std::move(fn)); }
template <typename ResT, typename Fn> requires(!std::is_void_v<ResT>) auto CreateDenseOp(Fn fn, RawBufferFactory* = nullptr) { return DenseOp<0, Fn, ResT>(std::move(fn)); }
template <typename Fn> auto CreateDenseOp(Fn fn, RawBufferFactory* = nullptr) { return DenseOp<0, Fn, void>(std::move(fn)); }
}  // namespace arolla
#endif
