#ifndef MINIABSL_STATUS_MATCHERS_H_
#define MINIABSL_STATUS_MATCHERS_H_
#include "gmock/gmock.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
namespace absl_testing {
namespace mini {
inline const absl::Status& Get(const absl::Status& s) { return s; }
template <typename T> absl::Status Get(const absl::StatusOr<T>& s) { return s.status(); }
}  // namespace mini
MATCHER(IsOk, "is ok") { return mini::Get(arg).ok(); }
MATCHER_P(StatusIs, code, "") { return mini::Get(arg).code() == code; }
template <typename C, typename M>
auto StatusIs(C code, M m) {
  return ::testing::ResultOf([](const auto& s) { return std::make_pair((int)mini::Get(s).code(), std::string(mini::Get(s).message())); },
                             ::testing::Pair((int)code, ::testing::MatcherCast<std::string>(m)));
}
}  // namespace absl_testing
#endif
