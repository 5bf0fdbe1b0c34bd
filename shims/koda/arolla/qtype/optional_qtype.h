#ifndef SHIM_optional_qtype_H_
#define SHIM_optional_qtype_H_
#include "arolla/qtype/qtype.h"
#endif
