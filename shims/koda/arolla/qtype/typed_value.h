#ifndef SHIM_typed_value_H_
#define SHIM_typed_value_H_
#include "arolla/qtype/qtype.h"
#endif
