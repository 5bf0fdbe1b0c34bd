#ifndef MINIABSL_ATTRIBUTES_H_
#define MINIABSL_ATTRIBUTES_H_
#define ABSL_ATTRIBUTE_LIFETIME_BOUND
#define ABSL_ATTRIBUTE_NOINLINE
#define ABSL_ATTRIBUTE_ALWAYS_INLINE
#define ABSL_ATTRIBUTE_UNUSED
#define ABSL_ATTRIBUTE_WEAK
#define ABSL_ATTRIBUTE_COLD
#define ABSL_ATTRIBUTE_HOT
#define ABSL_MUST_USE_RESULT
#define ABSL_ATTRIBUTE_TRIVIAL_ABI
#define ABSL_ATTRIBUTE_VIEW
#define ABSL_ATTRIBUTE_OWNER
#define ABSL_CONST_INIT
#define ABSL_FALLTHROUGH_INTENDED [[fallthrough]]
#endif
