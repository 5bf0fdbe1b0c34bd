#ifndef SHIM_simple_qtype_H_
#define SHIM_simple_qtype_H_
#include "arolla/qtype/qtype.h"
#endif
