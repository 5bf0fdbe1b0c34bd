#ifndef CORE_AROLLA_LOGIC_OPS_H_
#define CORE_AROLLA_LOGIC_OPS_H_
#include "absl/status/statusor.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/ops/dense_ops.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qexpr/eval_context.h"
#include "arolla/util/status.h"
#include "arolla/util/unit.h"
namespace arolla {
struct DenseArrayHasOp {
  template <typename T> DenseArray<Unit> operator()(const DenseArray<T>& a) const { return a.ToMask(); }
  template <typename T> DenseArray<Unit> operator()(EvaluationContext*, const DenseArray<T>& a) const { return a.ToMask(); }
};
struct DenseArrayPresenceNotOp {
  template <typename T> DenseArray<Unit> operator()(EvaluationContext*, const DenseArray<T>& a) const {
    DenseArrayBuilder<Unit> b(a.size());
    for (int64_t i = 0; i < a.size(); ++i) if (!a.present(i)) b.Set(i, Unit{});
    return std::move(b).Build();
  }
};
struct DenseArrayPresenceAndOp {
  template <typename T> absl::StatusOr<DenseArray<T>> operator()(EvaluationContext*, const DenseArray<T>& a, const DenseArray<Unit>& m) const {
    if (a.size() != m.size()) return SizeMismatchError({a.size(), m.size()});
    if (m.IsAllPresent()) return a;
    DenseArrayBuilder<Unit> b(a.size());
    for (int64_t i = 0; i < a.size(); ++i) if (a.present(i) && m.present(i)) b.Set(i, Unit{});
    return DenseArray<T>{a.values, std::move(b).Build().bitmap};
  }
  template <typename T> DenseArray<T> operator()(EvaluationContext*, const DenseArray<T>& a, OptionalUnit m) const {
    return m ? a : CreateEmptyDenseArray<T>(a.size());
  }
};
struct DenseArrayPresenceOrOp {
  template <typename T> absl::StatusOr<DenseArray<T>> operator()(EvaluationContext*, const DenseArray<T>& a, const DenseArray<T>& c) const {
    if (a.size() != c.size()) return SizeMismatchError({a.size(), c.size()});
    if (a.IsAllPresent()) return a;
    DenseArrayBuilder<T> b(a.size());
    for (int64_t i = 0; i < a.size(); ++i) b.Set(i, a.present(i) ? a[i] : c[i]);
    auto r = std::move(b).Build();
    if (r.IsAllPresent()) r.bitmap = {};
    return r;
  }
  template <typename T, typename V> DenseArray<T> operator()(EvaluationContext*, const DenseArray<T>& a, const OptionalValue<V>& c) const {
    DenseArrayBuilder<T> b(a.size());
    for (int64_t i = 0; i < a.size(); ++i) if (a.present(i)) b.Set(i, a.values[i]); else if (c.present) b.Set(i, c.value);
    auto r = std::move(b).Build();
    if (r.IsAllPresent()) r.bitmap = {};
    return r;
  }
  template <typename T, typename V> requires(!std::is_same_v<V, DenseArray<T>> && !is_optional_v<V>)
  DenseArray<T> operator()(EvaluationContext* c, const DenseArray<T>& a, const V& v) const { return (*this)(c, a, OptionalValue<V>(v)); }
};
}  // namespace arolla
#endif
