// Stand-in for arolla/util/status_macros_backport.h.
#ifndef SHIM_AROLLA_STATUS_MACROS_H_
#define SHIM_AROLLA_STATUS_MACROS_H_
#include <utility>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
namespace shim {
inline absl::Status ToStatus(absl::Status s) { return s; }
template <typename T>
absl::Status ToStatus(const absl::StatusOr<T>& s) { return s.status(); }
struct StatusBuilder {
  absl::Status s;
  template <typename T>
  StatusBuilder&& operator<<(const T&) && { return std::move(*this); }
  template <typename T>
  StatusBuilder&& operator<<(const T&) & { return std::move(*this); }
  template <typename F>
  auto With(F&& f) && { return f(std::move(s)); }
  operator absl::Status() && { return std::move(s); }
  template <typename T>
  operator absl::StatusOr<T>() && { return std::move(s); }
};
}  // namespace shim
#define SHIM_CAT_(a, b) a##b
#define SHIM_CAT(a, b) SHIM_CAT_(a, b)
#define RETURN_IF_ERROR(expr)                                          \
  if (absl::Status shim_status_ = shim::ToStatus(expr); shim_status_.ok()) { \
  } else                                                               \
    return shim::StatusBuilder{std::move(shim_status_)}
#define SHIM_AOR3(tmp, lhs, expr, ret)  \
  auto tmp = (expr);                    \
  if (!tmp.ok()) {                      \
    auto _ = shim::StatusBuilder{tmp.status()}; \
    (void)_;                            \
    return ret;                         \
  }                                     \
  lhs = *std::move(tmp)
#define SHIM_AOR_SEL(_1, _2, _3, NAME, ...) NAME
#define SHIM_AOR_2(lhs, expr) \
  SHIM_AOR3(SHIM_CAT(shim_so_, __LINE__), lhs, expr, std::move(_))
#define SHIM_AOR_3(lhs, expr, ret) \
  SHIM_AOR3(SHIM_CAT(shim_so_, __LINE__), lhs, expr, ret)
#define ASSIGN_OR_RETURN(...) \
  SHIM_AOR_SEL(__VA_ARGS__, SHIM_AOR_3, SHIM_AOR_2)(__VA_ARGS__)
#endif
