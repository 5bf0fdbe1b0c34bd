#ifndef CORE_AROLLA_EDGE_H_
#define CORE_AROLLA_EDGE_H_
#include <cstdint>
#include <utility>
#include <vector>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/types/span.h"
#include "arolla/dense_array/dense_array.h"
namespace arolla {
class DenseArrayEdge {
 public:
  enum EdgeType { MAPPING = 1, SPLIT_POINTS = 2 };
  DenseArrayEdge() : v_{Buffer<int64_t>::Create({0})} {}
  static absl::StatusOr<DenseArrayEdge> FromSplitPoints(DenseArray<int64_t> s) {
    if (!s.IsFull()) return absl::InvalidArgumentError("split points must be full");
    if (s.size() == 0) return absl::InvalidArgumentError("split points array must have at least 1 element");
    if (s.values[0] != 0) return absl::InvalidArgumentError("split points array must have first element equal to 0");
    for (int64_t i = 1; i < s.size(); ++i) if (s.values[i] < s.values[i - 1]) return absl::InvalidArgumentError("split points must be sorted");
    return UnsafeFromSplitPoints(std::move(s));
  }
  static DenseArrayEdge UnsafeFromSplitPoints(DenseArray<int64_t> s) { DenseArrayEdge e; e.t_ = SPLIT_POINTS; e.p_ = s.size() - 1; e.c_ = s.values.back(); e.v_ = std::move(s); return e; }
  static absl::StatusOr<DenseArrayEdge> FromMapping(DenseArray<int64_t> m, int64_t parents) {
    if (parents < 0) return absl::InvalidArgumentError("parent_size can not be negative");
    for (int64_t i = 0; i < m.size(); ++i) if (m.present(i) && (m.values[i] < 0 || m.values[i] >= parents)) return absl::InvalidArgumentError("mapping out of range");
    return UnsafeFromMapping(std::move(m), parents);
  }
  static DenseArrayEdge UnsafeFromMapping(DenseArray<int64_t> m, int64_t parents) { DenseArrayEdge e; e.t_ = MAPPING; e.p_ = parents; e.c_ = m.size(); e.v_ = std::move(m); return e; }
  static absl::StatusOr<DenseArrayEdge> FromUniformGroups(int64_t parents, int64_t group, RawBufferFactory* = nullptr) {
    if (parents < 0 || group < 0) return absl::InvalidArgumentError("parent_size and group_size cannot be negative");
    Buffer<int64_t>::Builder b(parents + 1);
    for (int64_t i = 0; i <= parents; ++i) b.Set(i, i * group);
    return UnsafeFromSplitPoints({std::move(b).Build()});
  }
  EdgeType edge_type() const { return t_; }
  int64_t parent_size() const { return p_; }
  int64_t child_size() const { return c_; }
  const DenseArray<int64_t>& edge_values() const { return v_; }
  int64_t split_size(int64_t i) const { return v_.values[i + 1] - v_.values[i]; }
  absl::StatusOr<DenseArrayEdge> ToSplitPointsEdge() const { return *this; }
  DenseArrayEdge ToMappingEdge() const {
    if (t_ == MAPPING) return *this;
    Buffer<int64_t>::Builder b(c_);
    for (int64_t p = 0; p < p_; ++p) for (int64_t i = v_.values[p]; i < v_.values[p + 1]; ++i) b.Set(i, p);
    return UnsafeFromMapping({std::move(b).Build()}, p_);
  }
 private:
  EdgeType t_ = SPLIT_POINTS;
  int64_t p_ = 0, c_ = 0;
  DenseArray<int64_t> v_;
};
}  // namespace arolla
#endif
