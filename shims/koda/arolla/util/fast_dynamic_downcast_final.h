#ifndef SHIM_AROLLA_FDDF_H_
#define SHIM_AROLLA_FDDF_H_
#include <type_traits>
namespace arolla {
template <typename T, typename S> T fast_dynamic_downcast_final(S* s) { return dynamic_cast<T>(s); }
}
#endif
