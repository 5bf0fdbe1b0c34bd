#ifndef CORE_AROLLA_DENSE_ARRAY_TYPES_H_
#define CORE_AROLLA_DENSE_ARRAY_TYPES_H_
#include <string>
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/edge.h"
#include "arolla/qtype/qtype.h"
namespace arolla {
template <typename T> struct QTypeTraits<DenseArray<T>> {
  static QTypePtr type() { static absl::NoDestructor<SimpleQType> t(meta::type_<DenseArray<T>>(), "DENSE_ARRAY_" + std::string(GetQType<T>()->name()), GetQType<T>()); return t.get(); }
};
template <typename T> QTypePtr GetDenseArrayQType() { return GetQType<DenseArray<T>>(); }
}  // namespace arolla
#define AROLLA_DECLARE_DENSE_ARRAY_QTYPE(...)
#define AROLLA_DEFINE_DENSE_ARRAY_QTYPE(...)
#endif
