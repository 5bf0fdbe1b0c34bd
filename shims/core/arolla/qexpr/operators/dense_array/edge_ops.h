#ifndef CORE_AROLLA_EDGE_OPS_H_
#define CORE_AROLLA_EDGE_OPS_H_
#include <map>
#include <utility>
#include <vector>
#include "absl/container/flat_hash_map.h"
#include "absl/status/statusor.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/edge.h"
#include "arolla/qexpr/eval_context.h"
#include "arolla/util/status.h"
namespace arolla {
struct DenseArrayEdgeSizesOp {
  absl::StatusOr<DenseArray<int64_t>> operator()(EvaluationContext*, const DenseArrayEdge& e) const {
    std::vector<int64_t> n(e.parent_size(), 0);
    auto m = e.ToMappingEdge();
    m.edge_values().ForEachPresent([&](int64_t, int64_t p) { ++n[p]; });
    return CreateFullDenseArray<int64_t>(n);
  }
};
struct DenseArrayExpandOp {
  template <typename T> absl::StatusOr<DenseArray<T>> operator()(EvaluationContext*, const DenseArray<T>& a, const DenseArrayEdge& e) const {
    if (a.size() != e.parent_size()) return SizeMismatchError({a.size(), e.parent_size()});
    DenseArrayBuilder<T> b(e.child_size());
    auto m = e.ToMappingEdge();
    m.edge_values().ForEachPresent([&](int64_t i, int64_t p) { b.Set(i, a[p]); });
    auto r = std::move(b).Build();
    if (r.IsAllPresent()) r.bitmap = {};
    return r;
  }
};
// Groups the rows by (parent, value), in the order in which the pairs first occur.
struct DenseArrayGroupByOp {
  template <typename T> absl::StatusOr<DenseArrayEdge> operator()(EvaluationContext*, const DenseArray<T>& a, const DenseArrayEdge& over) const {
    if (a.size() != over.child_size()) return SizeMismatchError({a.size(), over.child_size()});
    auto m = over.ToMappingEdge();
    std::vector<std::pair<int64_t, T>> seen;
    std::vector<OptionalValue<int64_t>> ids(a.size());
    for (int64_t i = 0; i < a.size(); ++i) {
      if (!a.present(i) || !m.edge_values().present(i)) continue;
      int64_t p = m.edge_values().values[i];
      T v(a.values[i]);
      size_t k = 0;
      while (k < seen.size() && !(seen[k].first == p && Same(seen[k].second, v))) ++k;
      if (k == seen.size()) seen.emplace_back(p, std::move(v));
      ids[i] = (int64_t)k;
    }
    return DenseArrayEdge::FromMapping(CreateDenseArray<int64_t>(ids), seen.size());
  }
 private:
  template <typename T> static bool Same(const T& a, const T& b) {
    if constexpr (requires { typename T::Eq; }) return typename T::Eq{}(a, b); else return a == b;
  }
};
}  // namespace arolla
#endif
