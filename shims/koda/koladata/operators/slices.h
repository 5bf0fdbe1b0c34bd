#ifndef SHIM_KD_SLICES_H_
#define SHIM_KD_SLICES_H_
#include <vector>
#include "koladata/data_slice.h"
namespace koladata::ops {
// Supplied by the driver.
absl::StatusOr<DataSlice> ConcatOrStack(absl::Span<const DataSlice* const> args);
}
#endif
