#ifndef SHIM_EXPR_OP_H_
#define SHIM_EXPR_OP_H_
#include <functional>
#include <memory>
#include "absl/status/statusor.h"
#include "absl/types/span.h"
#include "arolla/qtype/qtype.h"
namespace arolla::expr {
class ExprOperator {
 public:
  std::function<absl::StatusOr<TypedValue>(absl::Span<const TypedRef>)> eval;
};
using ExprOperatorPtr = std::shared_ptr<const ExprOperator>;
}
namespace arolla { SHIM_SIMPLE_TYPE("EXPR_OPERATOR", ::arolla::expr::ExprOperatorPtr) }
#endif
