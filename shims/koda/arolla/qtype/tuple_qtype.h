#ifndef SHIM_tuple_qtype_H_
#define SHIM_tuple_qtype_H_
#include "arolla/qtype/qtype.h"
#endif
