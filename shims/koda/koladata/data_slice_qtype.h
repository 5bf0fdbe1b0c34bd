#ifndef SHIM_KD_DSQ_H_
#define SHIM_KD_DSQ_H_
#include "koladata/data_slice.h"
#endif
