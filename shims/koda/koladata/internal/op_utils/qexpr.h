#ifndef SHIM_KD_QEXPR_H_
#define SHIM_KD_QEXPR_H_
#include "arolla/qexpr/operators.h"
namespace koladata {
enum class KodaOperatorWrapperFlags : int { kNone = 0, kWrapError = 1, kCheckCancellation = 2, kProfile = 4, kAll = 7 };
constexpr KodaOperatorWrapperFlags operator~(KodaOperatorWrapperFlags f) { return (KodaOperatorWrapperFlags)(7 & ~(int)f); }
constexpr KodaOperatorWrapperFlags operator|(KodaOperatorWrapperFlags a, KodaOperatorWrapperFlags b) { return (KodaOperatorWrapperFlags)((int)a | (int)b); }
constexpr KodaOperatorWrapperFlags operator&(KodaOperatorWrapperFlags a, KodaOperatorWrapperFlags b) { return (KodaOperatorWrapperFlags)((int)a & (int)b); }
template <KodaOperatorWrapperFlags = KodaOperatorWrapperFlags::kAll, typename F>
std::unique_ptr<arolla::BoundOperator> MakeBoundOperator(absl::string_view, F f) { return arolla::MakeBoundOperator(std::move(f)); }
}
#endif
