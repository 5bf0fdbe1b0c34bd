#ifndef SHIM_AROLLA_BYTES_H_
#define SHIM_AROLLA_BYTES_H_
#include "arolla/util/text.h"
#endif
