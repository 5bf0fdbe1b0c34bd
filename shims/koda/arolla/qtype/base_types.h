#ifndef SHIM_base_types_H_
#define SHIM_base_types_H_
#include "arolla/qtype/qtype.h"
#endif
