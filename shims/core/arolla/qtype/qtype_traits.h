#ifndef SHIM_qtype_traits_H_
#define SHIM_qtype_traits_H_
#include "arolla/qtype/qtype.h"
#endif
