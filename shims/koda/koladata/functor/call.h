#ifndef SHIM_KD_CALL_H_
#define SHIM_KD_CALL_H_
#include "koladata/data_slice.h"
namespace koladata::functor {
inline absl::StatusOr<arolla::TypedValue> CallFunctorWithCompilationCache(const DataSlice& f, absl::Span<const arolla::TypedRef> args, absl::Span<const std::string> kw) { return f.functor()(args, kw); }
}
#endif
