#ifndef CORE_AROLLA_DENSE_GROUP_OPS_H_
#define CORE_AROLLA_DENSE_GROUP_OPS_H_
#include <optional>
#include <vector>
#include "absl/status/statusor.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/edge.h"
#include "arolla/qexpr/operators/aggregation/group_op_accumulators.h"
#include "arolla/util/status.h"
#include "arolla/util/unit.h"
namespace arolla {
template <typename A> class DenseGroupOps;
// The common value of a group, if there is one.
template <typename T> class DenseGroupOps<CollapseAccumulator<T>> {
 public:
  explicit DenseGroupOps(RawBufferFactory* = nullptr) {}
  absl::StatusOr<DenseArray<T>> Apply(const DenseArrayEdge& e, const DenseArray<T>& a) const {
    if (a.size() != e.child_size()) return SizeMismatchError({a.size(), e.child_size()});
    std::vector<std::optional<T>> v(e.parent_size());
    std::vector<bool> bad(e.parent_size(), false);
    auto m = e.ToMappingEdge();
    m.edge_values().ForEachPresent([&](int64_t i, int64_t p) {
      if (!a.present(i)) return;
      T x(a.values[i]);
      if (!v[p].has_value()) v[p] = std::move(x); else if (!(*v[p] == x)) bad[p] = true;
    });
    DenseArrayBuilder<T> b(v.size());
    for (size_t p = 0; p < v.size(); ++p) if (v[p].has_value() && !bad[p]) b.Set(p, *v[p]);
    return std::move(b).Build();
  }
};
// For each present row: which present row of its group it is, from 1.
template <> class DenseGroupOps<CountPartialAccumulator> {
 public:
  explicit DenseGroupOps(RawBufferFactory* = nullptr) {}
  absl::StatusOr<DenseArray<int64_t>> Apply(const DenseArrayEdge& e, const DenseArray<Unit>& a) const {
    if (a.size() != e.child_size()) return SizeMismatchError({a.size(), e.child_size()});
    std::vector<int64_t> n(e.parent_size(), 0);
    DenseArrayBuilder<int64_t> b(a.size());
    auto m = e.ToMappingEdge();
    m.edge_values().ForEachPresent([&](int64_t i, int64_t p) {
      if (a.present(i)) b.Set(i, ++n[p]); else b.Set(i, n[p]);
    });
    return std::move(b).Build();
  }
};
}  // namespace arolla
#endif
