#ifndef CORE_AROLLA_ENCODE_H_
#define CORE_AROLLA_ENCODE_H_
#include <string>
#include <vector>
#include "absl/status/statusor.h"
#include "absl/types/span.h"
#include "arolla/expr/quote.h"
namespace arolla::serialization {
struct ContainerProto { std::string s; std::string SerializeAsString() const { return s; } };
inline absl::StatusOr<ContainerProto> Encode(std::vector<int>, std::vector<expr::ExprNodePtr> e) { ContainerProto p; for (auto& x : e) p.s += x->name + ";"; return p; }
}
#endif
