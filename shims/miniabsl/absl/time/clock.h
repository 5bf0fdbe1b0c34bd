#ifndef MINIABSL_CLOCK_H_
#define MINIABSL_CLOCK_H_
#include "absl/time/time.h"
#endif
