#ifndef MINIABSL_STATUS_H_
#define MINIABSL_STATUS_H_
#include <any>
#include <memory>
#include <ostream>
#include <string>
#include <utility>
#include "absl/strings/string_view.h"
namespace absl {
enum class StatusCode : int {
  kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3, kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6,
  kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9, kAborted = 10, kOutOfRange = 11, kUnimplemented = 12,
  kInternal = 13, kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16 };
inline std::string StatusCodeToString(StatusCode c) { return std::to_string((int)c); }
enum class StatusToStringMode : int { kWithNoExtraData = 0, kWithPayload = 1, kWithEverything = ~0, kDefault = 1 };
class [[nodiscard]] Status {
 public:
  Status() = default;
  Status(StatusCode c, string_view m) { if (c != StatusCode::kOk) rep_ = std::make_shared<Rep>(Rep{c, std::string(m)}); }
  bool ok() const { return rep_ == nullptr; }
  StatusCode code() const { return rep_ ? rep_->c : StatusCode::kOk; }
  int raw_code() const { return (int)code(); }
  string_view message() const { return rep_ ? string_view(rep_->m) : string_view(); }
  std::string ToString(StatusToStringMode = StatusToStringMode::kDefault) const { return ok() ? "OK" : std::to_string((int)code()) + ": " + std::string(message()); }
  void IgnoreError() const {}
  void Update(const Status& s) { if (ok()) *this = s; }
  friend bool operator==(const Status& a, const Status& b) { return a.code() == b.code() && a.message() == b.message(); }
  friend bool operator!=(const Status& a, const Status& b) { return !(a == b); }
  friend std::ostream& operator<<(std::ostream& o, const Status& s) { return o << s.ToString(); }
 std::shared_ptr<std::any> shim_payload;  // What arolla::WithPayload attached.
 private:
  struct Rep { StatusCode c; std::string m; };
  std::shared_ptr<Rep> rep_;
};
inline Status OkStatus() { return Status(); }
#define MINIABSL_ERR(N, K) \
  inline Status N##Error(string_view m) { return Status(StatusCode::k##K, m); } \
  inline bool Is##N(const Status& s) { return s.code() == StatusCode::k##K; }
MINIABSL_ERR(Cancelled, Cancelled) MINIABSL_ERR(Unknown, Unknown) MINIABSL_ERR(InvalidArgument, InvalidArgument)
MINIABSL_ERR(DeadlineExceeded, DeadlineExceeded) MINIABSL_ERR(NotFound, NotFound) MINIABSL_ERR(AlreadyExists, AlreadyExists)
MINIABSL_ERR(PermissionDenied, PermissionDenied) MINIABSL_ERR(ResourceExhausted, ResourceExhausted)
MINIABSL_ERR(FailedPrecondition, FailedPrecondition) MINIABSL_ERR(Aborted, Aborted) MINIABSL_ERR(OutOfRange, OutOfRange)
MINIABSL_ERR(Unimplemented, Unimplemented) MINIABSL_ERR(Internal, Internal) MINIABSL_ERR(Unavailable, Unavailable)
MINIABSL_ERR(DataLoss, DataLoss) MINIABSL_ERR(Unauthenticated, Unauthenticated)
#undef MINIABSL_ERR
inline Status CancelledError() { return CancelledError(""); }
}  // namespace absl
#endif
