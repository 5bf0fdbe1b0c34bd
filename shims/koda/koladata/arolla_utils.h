#ifndef SHIM_KD_AU_H_
#define SHIM_KD_AU_H_
#include "absl/status/statusor.h"
#include "koladata/data_slice.h"
namespace koladata {
template <typename T> absl::StatusOr<T> ToArollaScalar(const DataSlice& s) {
  if (!s.is_item() || !s.item().template holds_value<T>()) return absl::InvalidArgumentError("not a scalar");
  return s.item().template value<T>();
}
}
#endif
