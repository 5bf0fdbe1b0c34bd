#ifndef MINIABSL_DYN_H_
#define MINIABSL_DYN_H_
#define ABSL_ANNOTATE_MEMORY_IS_INITIALIZED(p, n)
#define ABSL_ANNOTATE_MEMORY_IS_UNINITIALIZED(p, n)
#endif
