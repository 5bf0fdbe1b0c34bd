#ifndef SHIM_KD_OPUTILS_H_
#define SHIM_KD_OPUTILS_H_
#include "absl/status/status.h"
#include "arolla/qtype/qtype.h"
namespace koladata::ops {
inline absl::Status VerifyIsNonDeterministicToken(arolla::QTypePtr) { return absl::OkStatus(); }
}
#endif
