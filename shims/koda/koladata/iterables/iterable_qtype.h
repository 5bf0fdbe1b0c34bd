#ifndef SHIM_ITERABLE_H_
#define SHIM_ITERABLE_H_
#include <map>
#include "arolla/util/shim_lock.h"
#include <string>
#include "arolla/sequence/sequence.h"
namespace koladata::iterables {
class IterableQType final : public arolla::SimpleQType {
 public:
  explicit IterableQType(arolla::QTypePtr v) : SimpleQType(arolla::meta::type_<arolla::Sequence>(), "ITERABLE[" + std::string(v->name()) + "]", v) {}
};
inline arolla::QTypePtr GetIterableQType(arolla::QTypePtr v) {
  arolla::shim::RegistryLock lock;
  static auto* reg = new std::map<arolla::QTypePtr, arolla::QTypePtr>();
  auto& r = (*reg)[v];
  if (!r) r = new IterableQType(v);
  return r;
}
inline bool IsIterableQType(arolla::QTypePtr t) { return dynamic_cast<const IterableQType*>(t) != nullptr; }
}
#endif
