#ifndef SHIM_LABELED_H_
#define SHIM_LABELED_H_
#include "arolla/qtype/qtype.h"
#endif
