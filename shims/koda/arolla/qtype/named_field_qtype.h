#ifndef SHIM_named_field_qtype_H_
#define SHIM_named_field_qtype_H_
#include "arolla/qtype/qtype.h"
#endif
