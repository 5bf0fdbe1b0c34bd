#ifndef SHIM_REGOP_H_
#define SHIM_REGOP_H_
#include "arolla/expr/expr_operator.h"
#endif
