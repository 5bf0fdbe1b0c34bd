#include "arolla/memory/buffer.h"
