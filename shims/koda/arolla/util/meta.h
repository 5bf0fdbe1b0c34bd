#ifndef SHIM_AROLLA_META_H_
#define SHIM_AROLLA_META_H_
namespace arolla { namespace meta { template <typename T> struct type_ { using type = T; }; template <typename T> using type = type_<T>; } }
#endif
