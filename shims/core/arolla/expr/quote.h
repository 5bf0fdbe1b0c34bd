#ifndef CORE_AROLLA_QUOTE_H_
#define CORE_AROLLA_QUOTE_H_
#include <memory>
#include <ostream>
#include <string>
#include <utility>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/repr.h"
namespace arolla::expr {
struct ExprNode { std::string name; };
using ExprNodePtr = std::shared_ptr<const ExprNode>;
inline std::string ToDebugString(const ExprNodePtr& e) { return e ? e->name : ""; }
class ExprQuote {
 public:
  ExprQuote() = default;
  explicit ExprQuote(ExprNodePtr e) : e_(std::move(e)) {}
  bool has_expr() const { return e_ != nullptr; }
  absl::StatusOr<ExprNodePtr> expr() const { if (!e_) return absl::InvalidArgumentError("uninitialized ExprQuote"); return e_; }
  const ExprNodePtr* operator->() const { return &e_; }
  const ExprNodePtr& operator*() const { return e_; }
  Fingerprint expr_fingerprint() const { return FingerprintHasher("expr").Combine(std::string_view(e_ ? e_->name : "")).Finish(); }
  friend bool operator==(const ExprQuote& a, const ExprQuote& b) { return a.expr_fingerprint() == b.expr_fingerprint(); }
  friend bool operator<(const ExprQuote& a, const ExprQuote& b) { return a.expr_fingerprint() < b.expr_fingerprint(); }
  friend std::ostream& operator<<(std::ostream& o, const ExprQuote& q) { return o << "ExprQuote"; }
  template <typename H> friend H AbslHashValue(H h, const ExprQuote& q) { return H::combine(std::move(h), q.expr_fingerprint()); }
 private:
  ExprNodePtr e_;
};
}  // namespace arolla::expr
#endif
