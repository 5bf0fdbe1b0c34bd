#ifndef CORE_AROLLA_ACCUMULATORS_H_
#define CORE_AROLLA_ACCUMULATORS_H_
namespace arolla {
template <typename T> struct CollapseAccumulator { using value = T; };
struct CountPartialAccumulator {};
}  // namespace arolla
#endif
