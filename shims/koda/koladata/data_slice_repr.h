#ifndef SHIM_KD_DSR_H_
#define SHIM_KD_DSR_H_
#include "koladata/data_slice.h"
namespace koladata { inline std::string DataSliceRepr(const DataSlice&) { return "slice"; } }
#endif
