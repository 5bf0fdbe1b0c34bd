#ifndef CORE_AROLLA_VIEW_TYPES_H_
#define CORE_AROLLA_VIEW_TYPES_H_
#include <string>
#include <string_view>
#include "arolla/util/text.h"
namespace arolla {
template <typename T> struct ViewTypeTraits { using type = T; };
template <> struct ViewTypeTraits<std::string> { using type = std::string_view; };
template <> struct ViewTypeTraits<Text> { using type = std::string_view; };
template <typename T> using view_type_t = typename ViewTypeTraits<T>::type;
}  // namespace arolla
#endif
