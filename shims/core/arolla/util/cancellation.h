#ifndef CORE_AROLLA_CANCELLATION_H_
#define CORE_AROLLA_CANCELLATION_H_
#include "absl/status/status.h"
namespace arolla {
inline bool Cancelled() noexcept { return false; }
inline absl::Status CheckCancellation() noexcept { return absl::OkStatus(); }
}  // namespace arolla
#endif
