// Out-of-line parts of the stand-in headers.
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include <cstdio>
#include <cstdlib>
namespace absl {
ABSL_NAMESPACE_BEGIN
BadStatusOrAccess::BadStatusOrAccess(absl::Status status) : status_(std::move(status)) {}
BadStatusOrAccess::BadStatusOrAccess(const BadStatusOrAccess& o) : status_(o.status_) {}
BadStatusOrAccess& BadStatusOrAccess::operator=(const BadStatusOrAccess& o) { status_ = o.status_; return *this; }
BadStatusOrAccess& BadStatusOrAccess::operator=(BadStatusOrAccess&& o) { status_ = std::move(o.status_); return *this; }
BadStatusOrAccess::BadStatusOrAccess(BadStatusOrAccess&& o) : status_(std::move(o.status_)) {}
const char* BadStatusOrAccess::what() const noexcept { return "Bad StatusOr access"; }
const absl::Status& BadStatusOrAccess::status() const { return status_; }
void BadStatusOrAccess::InitWhat() const {}
namespace internal_statusor {
void Helper::HandleInvalidStatusCtorArg(absl::Status* s) {
  *s = absl::InternalError("An OK status is not a valid constructor argument to StatusOr<T>");
}
void Helper::Crash(const absl::Status& s) {
  std::fprintf(stderr, "Attempting to fetch value instead of handling error %s\n", s.ToString().c_str());
  std::abort();
}
void ThrowBadStatusOrAccess(absl::Status s) { Helper::Crash(s); std::abort(); }
}  // namespace internal_statusor
ABSL_NAMESPACE_END
}  // namespace absl
