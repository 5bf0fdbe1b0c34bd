#ifndef SHIM_EVALCTX_H_
#define SHIM_EVALCTX_H_
#include <utility>
#include "absl/status/status.h"
namespace arolla {
class EvaluationContext {
 public:
  const absl::Status& status() const& { return s_; }
  absl::Status&& status() && { return std::move(s_); }
  void set_status(absl::Status s) { if (s_.ok()) s_ = std::move(s); }
  template <typename... A> void set_status(A&&...) {}
 private:
  absl::Status s_;
};
}
#endif
