#ifndef SHIM_FRAME_H_
#define SHIM_FRAME_H_
#include "arolla/qtype/qtype.h"
#endif
