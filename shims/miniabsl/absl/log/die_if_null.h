#ifndef MINIABSL_DIE_H_
#define MINIABSL_DIE_H_
#include "absl/log/check.h"
#define ABSL_DIE_IF_NULL(x) (x)
#endif
