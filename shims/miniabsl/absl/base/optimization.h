#ifndef MINIABSL_OPT_H_
#define MINIABSL_OPT_H_
#define ABSL_PREDICT_TRUE(x) (__builtin_expect(!!(x), 1))
#define ABSL_PREDICT_FALSE(x) (__builtin_expect(!!(x), 0))
#define ABSL_CACHELINE_SIZE 64
#define ABSL_CACHELINE_ALIGNED
#define ABSL_ASSERT(x)
#define ABSL_ASSUME(x)
#define ABSL_BLOCK_TAIL_CALL_OPTIMIZATION()
namespace absl { [[noreturn]] inline void UnreachableImpl() { __builtin_unreachable(); } }
#define ABSL_UNREACHABLE() __builtin_unreachable()
#endif
