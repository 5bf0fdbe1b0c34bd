#ifndef SHIM_ANNOT_H_
#define SHIM_ANNOT_H_
#include "absl/status/status.h"
#include "arolla/qtype/qtype.h"
namespace arolla::expr { inline absl::Status VerifySourceLocationType(QTypePtr) { return absl::OkStatus(); } }
#endif
