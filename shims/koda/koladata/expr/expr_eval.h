#ifndef SHIM_KD_EXPR_EVAL_H_
#define SHIM_KD_EXPR_EVAL_H_
#include "arolla/expr/expr_operator.h"
namespace koladata::expr {
inline absl::StatusOr<arolla::TypedValue> EvalOpWithCompilationCache(const arolla::expr::ExprOperatorPtr& op, absl::Span<const arolla::TypedRef> in) { return op->eval(in); }
}
#endif
