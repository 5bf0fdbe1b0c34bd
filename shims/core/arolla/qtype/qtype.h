#ifndef CORE_AROLLA_QTYPE_H_
#define CORE_AROLLA_QTYPE_H_
#include <string>
#include "arolla/util/text.h"
#include_next "arolla/qtype/qtype.h"
#include "arolla/expr/quote.h"
#include "arolla/memory/optional_value.h"
namespace arolla {
SHIM_SIMPLE_TYPE("TEXT", Text)
SHIM_SIMPLE_TYPE("EXPR_QUOTE", expr::ExprQuote)
SHIM_SIMPLE_TYPE("UINT64", uint64_t)
namespace shim { inline std::map<QTypePtr, QTypePtr>& Optionals() { static auto* m = new std::map<QTypePtr, QTypePtr>(); return *m; } }
template <typename T> struct QTypeTraits<OptionalValue<T>> {
  static QTypePtr type() {
    static absl::NoDestructor<SimpleQType> t(meta::type_<OptionalValue<T>>(), "OPTIONAL_" + std::string(GetQType<T>()->name()), GetQType<T>());
    shim::Optionals()[GetQType<T>()] = t.get();
    return t.get();
  }
};
template <typename T> QTypePtr GetOptionalQType() { return GetQType<OptionalValue<T>>(); }
inline bool IsOptionalQType(QTypePtr t) { return t && t->value_qtype() && t->name().substr(0, 9) == "OPTIONAL_"; }
inline bool IsScalarQType(QTypePtr t) { return t && !t->value_qtype(); }
inline QTypePtr DecayOptionalQType(QTypePtr t) { return IsOptionalQType(t) ? t->value_qtype() : t; }
// Whether the pair (presence, value) of an optional of T sits at the front of a slot.
inline bool UnsafeIsPresent(const void* p) { return *static_cast<const bool*>(p); }
}  // namespace arolla
#define AROLLA_DECLARE_OPTIONAL_QTYPE(...)
#define AROLLA_DEFINE_OPTIONAL_QTYPE(...)
#endif
