#ifndef SHIM_derived_qtype_H_
#define SHIM_derived_qtype_H_
#include "arolla/qtype/qtype.h"
#endif
