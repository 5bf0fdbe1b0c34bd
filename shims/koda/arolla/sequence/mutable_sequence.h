#ifndef SHIM_MSEQ_H_
#define SHIM_MSEQ_H_
#include "arolla/sequence/sequence.h"
#endif
