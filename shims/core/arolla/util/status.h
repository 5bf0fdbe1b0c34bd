#ifndef CORE_AROLLA_STATUS_H_
#define CORE_AROLLA_STATUS_H_
#include <any>
#include <initializer_list>
#include <string>
#include <type_traits>
#include <utility>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
namespace arolla {
template <typename T> struct IsStatusOrT : std::false_type {};
template <typename T> struct IsStatusOrT<absl::StatusOr<T>> : std::true_type { using value_type = T; };
template <typename T> struct strip_statusor { using type = T; };
template <typename T> struct strip_statusor<absl::StatusOr<T>> { using type = T; };
template <typename T> using strip_statusor_t = typename strip_statusor<T>::type;
inline absl::Status WithCause(absl::Status s, absl::Status) { return s; }
template <typename T> absl::Status WithPayload(absl::Status s, T p) { if (!s.ok()) s.shim_payload = std::make_shared<std::any>(std::move(p)); return s; }
template <typename T> absl::Status WithPayloadAndCause(absl::Status s, T p, absl::Status) { return WithPayload(std::move(s), std::move(p)); }
template <typename T> const T* GetPayload(const absl::Status& s) { return s.shim_payload ? std::any_cast<T>(s.shim_payload.get()) : nullptr; }
inline const absl::Status* GetCause(const absl::Status&) { return nullptr; }
inline absl::Status SizeMismatchError(std::initializer_list<int64_t> n) {
  std::string m = "argument sizes mismatch: (";
  for (auto i : n) m += std::to_string(i) + ", ";
  return absl::InvalidArgumentError(m + ")");
}
template <typename T> const absl::Status& GetStatusOrOk(const absl::StatusOr<T>& s) { return s.status(); }
inline const absl::Status& GetStatusOrOk(const absl::Status& s) { return s; }
template <typename T> absl::Status GetStatusOrOk(const T&) { return absl::OkStatus(); }
}  // namespace arolla
#endif
