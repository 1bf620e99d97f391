// Adds absl::StatusOr<T&> to the installed abseil's StatusOr.
#ifndef SHIM_STATUSOR_H_
#define SHIM_STATUSOR_H_
#include_next "absl/status/statusor.h"
#include <functional>
namespace absl {
ABSL_NAMESPACE_BEGIN
template <typename T>
class [[nodiscard]] StatusOr<T&> {
 public:
  using value_type = T&;
  StatusOr() : status_(absl::StatusCode::kUnknown, "") {}
  StatusOr(T& v) : p_(&v) {}  // NOLINT
  template <class U, std::enable_if_t<std::is_convertible_v<U*, T*> && !std::is_same_v<std::remove_cv_t<U>, std::remove_cv_t<T>>, int> = 0>
  StatusOr(U& v) : p_(&v) {}  // NOLINT
  StatusOr(absl::Status s) : status_(std::move(s)) {}  // NOLINT
  template <class S, std::enable_if_t<std::is_convertible_v<S&&, absl::Status> && !std::is_same_v<std::decay_t<S>, absl::Status> && !std::is_same_v<std::decay_t<S>, StatusOr>, int> = 0>
  StatusOr(S&& s) : status_(std::forward<S>(s)) {}  // NOLINT
  template <class U, std::enable_if_t<std::is_convertible_v<U*, T*>, int> = 0>
  StatusOr(const StatusOr<U&>& o) : status_(o.status()) { if (o.ok()) p_ = &*o; }  // NOLINT
  bool ok() const { return status_.ok(); }
  const Status& status() const& { return status_; }
  Status status() && { return std::move(status_); }
  T& value() const { if (!ok()) internal_statusor::ThrowBadStatusOrAccess(status_); return *p_; }
  T& operator*() const { if (!ok()) internal_statusor::ThrowBadStatusOrAccess(status_); return *p_; }
  T* operator->() const { return &**this; }
 private:
  template <typename U> friend class StatusOr;
  using Base = internal_statusor::StatusOrData<std::remove_const_t<T>>;
  operator Base() const {
    if (ok()) return Base(absl::in_place, *p_);
    return Base(status_);
  }
  Status status_;
  T* p_ = nullptr;
};
ABSL_NAMESPACE_END
}
#endif
