#ifndef SHIM_unspecified_qtype_H_
#define SHIM_unspecified_qtype_H_
#include "arolla/qtype/qtype.h"
#endif
