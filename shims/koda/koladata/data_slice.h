// A miniature DataSlice: a rank, flat items, a schema tag and optionally a callable (a functor).
#ifndef SHIM_KD_DATA_SLICE_H_
#define SHIM_KD_DATA_SLICE_H_
#include <any>
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "absl/status/statusor.h"
#include "absl/types/span.h"
#include "arolla/qtype/qtype.h"
#include "arolla/util/unit.h"
#include "koladata/internal/dtype.h"
namespace koladata {
namespace internal {
class DataItem {
 public:
  DataItem() = default;
  template <typename T> explicit DataItem(T v) : v_(std::move(v)) {}
  bool has_value() const { return v_.has_value(); }
  template <typename T> bool holds_value() const { return std::any_cast<T>(&v_) != nullptr; }
  template <typename T> const T& value() const { return *std::any_cast<T>(&v_); }
 private:
  std::any v_;
};
}  // namespace internal
class DataSlice {
 public:
  class Shape {
   public:
    explicit Shape(int64_t r = 0, int64_t n = 1) : r_(r), n_(n) {}
    int64_t rank() const { return r_; }
    int64_t size() const { return n_; }
   private:
    int64_t r_, n_;
  };
  using Callable = std::function<absl::StatusOr<arolla::TypedValue>(absl::Span<const arolla::TypedRef>, absl::Span<const std::string>)>;
  using Impl = std::vector<internal::DataItem>;
  DataSlice() : DataSlice(internal::DataItem(), schema::SchemaTag()) {}
  DataSlice(internal::DataItem v, schema::SchemaTag s) : rep_(std::make_shared<Rep>()) { rep_->items.push_back(std::move(v)); rep_->schema = s; }
  DataSlice(int64_t rank, Impl items, schema::SchemaTag s) : rep_(std::make_shared<Rep>()) { rep_->rank = rank; rep_->items = std::move(items); rep_->schema = s; }
  template <typename T> static DataSlice CreatePrimitive(T v) { return DataSlice(internal::DataItem(v), schema::SchemaTag{"PRIM"}); }
  static DataSlice UnsafeCreate(internal::DataItem v, schema::SchemaTag s, int = 0) { return DataSlice(std::move(v), s); }
  static DataSlice Functor(Callable c) { DataSlice r; r.rep_->fn = std::move(c); return r; }
  bool is_item() const { return rep_->rank == 0; }
  const internal::DataItem& item() const { return rep_->items[0]; }
  const Impl& slice() const { return rep_->items; }
  const schema::SchemaTag& GetSchemaImpl() const { return rep_->schema; }
  Shape GetShape() const { return Shape(rep_->rank, (int64_t)rep_->items.size()); }
  int64_t size() const { return (int64_t)rep_->items.size(); }
  int GetBag() const { return 0; }
  const Callable& functor() const { return rep_->fn; }
 private:
  struct Rep { int64_t rank = 0; Impl items; schema::SchemaTag schema; Callable fn; };
  std::shared_ptr<Rep> rep_;
};
}  // namespace koladata
namespace arolla { SHIM_SIMPLE_TYPE("DATA_SLICE", ::koladata::DataSlice) }
#endif
