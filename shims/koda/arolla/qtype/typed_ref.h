#ifndef SHIM_typed_ref_H_
#define SHIM_typed_ref_H_
#include "arolla/qtype/qtype.h"
#endif
