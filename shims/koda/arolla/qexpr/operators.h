#ifndef SHIM_QEXPR_OPS_H_
#define SHIM_QEXPR_OPS_H_
#include <memory>
#include <string>
#include <type_traits>
#include <vector>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
#include "absl/types/span.h"
#include "arolla/qexpr/eval_context.h"
#include "arolla/qtype/qtype.h"
namespace arolla {
class BoundOperator {
 public:
  virtual ~BoundOperator() = default;
  virtual void Run(EvaluationContext* ctx, FramePtr frame) const = 0;
};
class QExprOperatorSignature {
 public:
  std::vector<QTypePtr> in; QTypePtr out;
  static const QExprOperatorSignature* Get(absl::Span<const QTypePtr> i, QTypePtr o) { return new QExprOperatorSignature{{i.begin(), i.end()}, o}; }
  absl::Span<const QTypePtr> input_types() const { return in; }
  QTypePtr output_type() const { return out; }
};
class QExprOperator {
 public:
  QExprOperator(absl::Span<const QTypePtr> in, QTypePtr out) : sig_(QExprOperatorSignature::Get(in, out)) {}
  explicit QExprOperator(const QExprOperatorSignature* s) : sig_(s) {}
  virtual ~QExprOperator() = default;
  const QExprOperatorSignature* signature() const { return sig_; }
  absl::StatusOr<std::unique_ptr<BoundOperator>> Bind(absl::Span<const TypedSlot> in, TypedSlot out) const { return DoBind(in, out); }
  virtual absl::StatusOr<std::unique_ptr<BoundOperator>> DoBind(absl::Span<const TypedSlot> in, TypedSlot out) const = 0;
 private:
  const QExprOperatorSignature* sig_;
};
using OperatorPtr = std::shared_ptr<const QExprOperator>;
class OperatorFamily {
 public:
  virtual ~OperatorFamily() = default;
  absl::StatusOr<OperatorPtr> GetOperator(absl::Span<const QTypePtr> in, QTypePtr out) const { return DoGetOperator(in, out); }
 private:
  virtual absl::StatusOr<OperatorPtr> DoGetOperator(absl::Span<const QTypePtr> in, QTypePtr out) const = 0;
};
namespace shim {
template <typename F> class FnBound final : public BoundOperator {
 public:
  explicit FnBound(F f) : f_(std::move(f)) {}
  void Run(EvaluationContext* ctx, FramePtr frame) const final {
    if constexpr (std::is_void_v<decltype(f_(ctx, frame))>) f_(ctx, frame);
    else { absl::Status s = f_(ctx, frame); if (!s.ok()) ctx->set_status(std::move(s)); }
  }
 private:
  F f_;
};
}
template <typename F> std::unique_ptr<BoundOperator> MakeBoundOperator(F f) { return std::make_unique<shim::FnBound<F>>(std::move(f)); }
inline absl::StatusOr<OperatorPtr> EnsureOutputQTypeMatches(absl::StatusOr<OperatorPtr> o, absl::Span<const QTypePtr>, QTypePtr) { return o; }
}
#endif
