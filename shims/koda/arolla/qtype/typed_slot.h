#ifndef SHIM_typed_slot_H_
#define SHIM_typed_slot_H_
#include "arolla/qtype/qtype.h"
#endif
