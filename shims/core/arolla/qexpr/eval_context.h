#ifndef CORE_AROLLA_EVALCTX_H_
#define CORE_AROLLA_EVALCTX_H_
#include <utility>
#include "absl/status/status.h"
#include "arolla/memory/raw_buffer_factory.h"
namespace arolla {
class EvaluationContext {
 public:
  const absl::Status& status() const& { return s_; }
  absl::Status&& status() && { return std::move(s_); }
  void set_status(absl::Status s) { if (s_.ok()) s_ = std::move(s); }
  RawBufferFactory& buffer_factory() { return *GetHeapBufferFactory(); }
 private:
  absl::Status s_;
};
}
#endif
