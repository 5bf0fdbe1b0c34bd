#ifndef SHIM_AROLLA_STATUS_H_
#define SHIM_AROLLA_STATUS_H_
#include <string>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
namespace arolla {
struct SourceLocationPayload { std::string function_name, file_name; int line = 0, column = 0; std::string line_text; };
inline absl::Status WithSourceLocation(absl::Status s, ...) { return s; }
inline absl::Status WithCause(absl::Status s, absl::Status) { return s; }
template <typename T> const absl::Status& GetStatusOrOk(const absl::StatusOr<T>& s) { return s.status(); }
inline const absl::Status& GetStatusOrOk(const absl::Status& s) { return s; }
}
#endif
