#ifndef CORE_AROLLA_BYTES_H_
#define CORE_AROLLA_BYTES_H_
#include <string>
namespace arolla { using Bytes = std::string; }
#endif
