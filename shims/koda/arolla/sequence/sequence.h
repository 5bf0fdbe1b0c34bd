#ifndef SHIM_SEQUENCE_H_
#define SHIM_SEQUENCE_H_
#include <memory>
#include <vector>
#include "arolla/qtype/qtype.h"
namespace arolla {
class Sequence {
 public:
  Sequence() = default;
  Sequence(QTypePtr t, std::shared_ptr<const std::vector<TypedValue>> v) : t_(t), v_(std::move(v)) {}
  QTypePtr value_qtype() const { return t_; }
  size_t size() const { return v_ ? v_->size() : 0; }
  TypedRef GetRef(size_t i) const { return (*v_)[i].AsRef(); }
 private:
  QTypePtr t_ = GetNothingQType();
  std::shared_ptr<const std::vector<TypedValue>> v_;
};
class MutableSequence {
 public:
  static absl::StatusOr<MutableSequence> Make(QTypePtr t, size_t n) {
    MutableSequence r;
    r.t_ = t;
    r.v_ = std::make_shared<std::vector<TypedValue>>();
    for (size_t i = 0; i < n; ++i) r.v_->push_back(TypedValue::UnsafeFromTypeDefaultConstructed(t));
    return r;
  }
  size_t size() const { return v_->size(); }
  QTypePtr value_qtype() const { return t_; }
  TypedRef GetRef(size_t i) const { return (*v_)[i].AsRef(); }
  void UnsafeSetRef(size_t i, TypedRef r) { (*v_)[i] = TypedValue(r); }
  absl::Status SetRef(size_t i, TypedRef r) { if (r.GetType() != t_) return absl::InvalidArgumentError("type"); (*v_)[i] = TypedValue(r); return absl::OkStatus(); }
  Sequence Finish() && { return Sequence(t_, std::move(v_)); }
 private:
  QTypePtr t_ = nullptr;
  std::shared_ptr<std::vector<TypedValue>> v_;
};
}
#endif
