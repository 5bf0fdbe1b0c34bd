// Stand-in for absl/base/nullability.h (the installed abseil predates it).
#ifndef SHIM_ABSL_BASE_NULLABILITY_H_
#define SHIM_ABSL_BASE_NULLABILITY_H_
#define absl_nonnull
#define absl_nullable
#define absl_nullability_unknown
namespace absl {
template <typename T> using Nonnull = T;
template <typename T> using Nullable = T;
}  // namespace absl
#endif
