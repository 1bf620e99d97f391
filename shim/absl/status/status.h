// Stand-in for the newer absl::Status (source locations, by-value payloads).
// Header-only so that the simulator sees every access to it.
#ifndef SHIM_ABSL_STATUS_STATUS_H_
#define SHIM_ABSL_STATUS_STATUS_H_
#include <atomic>
#include <cstdint>
#include <memory>
#include <optional>
#include <ostream>
#include <string>
#include <utility>
#include <vector>
#include "absl/base/attributes.h"
#include "absl/functional/function_ref.h"
#include "absl/strings/cord.h"
#include "absl/strings/escaping.h"
#include "absl/strings/string_view.h"
#include "absl/types/optional.h"
#include "absl/types/source_location.h"
#include "absl/types/span.h"

namespace absl {
ABSL_NAMESPACE_BEGIN
enum class StatusCode : int {
  kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3,
  kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6,
  kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9,
  kAborted = 10, kOutOfRange = 11, kUnimplemented = 12, kInternal = 13,
  kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16,
};
inline std::string StatusCodeToString(StatusCode c) {
  switch (c) {
    case StatusCode::kOk: return "OK";
    case StatusCode::kCancelled: return "CANCELLED";
    case StatusCode::kUnknown: return "UNKNOWN";
    case StatusCode::kInvalidArgument: return "INVALID_ARGUMENT";
    case StatusCode::kDeadlineExceeded: return "DEADLINE_EXCEEDED";
    case StatusCode::kNotFound: return "NOT_FOUND";
    case StatusCode::kAlreadyExists: return "ALREADY_EXISTS";
    case StatusCode::kPermissionDenied: return "PERMISSION_DENIED";
    case StatusCode::kResourceExhausted: return "RESOURCE_EXHAUSTED";
    case StatusCode::kFailedPrecondition: return "FAILED_PRECONDITION";
    case StatusCode::kAborted: return "ABORTED";
    case StatusCode::kOutOfRange: return "OUT_OF_RANGE";
    case StatusCode::kUnimplemented: return "UNIMPLEMENTED";
    case StatusCode::kInternal: return "INTERNAL";
    case StatusCode::kUnavailable: return "UNAVAILABLE";
    case StatusCode::kDataLoss: return "DATA_LOSS";
    case StatusCode::kUnauthenticated: return "UNAUTHENTICATED";
  }
  return "";
}
inline std::ostream& operator<<(std::ostream& os, StatusCode c) {
  return os << StatusCodeToString(c);
}
enum class StatusToStringMode : int {
  kWithNoExtraData = 0, kWithPayload = 1, kWithSourceLocation = 2,
  kWithEverything = 3, kDefault = 1,
};

class [[nodiscard]] Status final {
  struct Rep {
    std::atomic<int32_t> ref{1};
    StatusCode code;
    std::string message;
    std::vector<std::pair<std::string, absl::Cord>> payloads;
    std::vector<absl::SourceLocation> locations;
  };

 public:
  Status() noexcept = default;
  Status(StatusCode code, absl::string_view msg,
         absl::SourceLocation loc = absl::SourceLocation::current()) {
    if (code != StatusCode::kOk) {
      rep_ = new Rep;
      rep_->code = code;
      rep_->message = std::string(msg.data(), msg.size());
      if (loc.line() != 0) rep_->locations.push_back(loc);
    }
  }
  Status(const Status& o) noexcept : rep_(o.rep_) { Ref(rep_); }
  Status& operator=(const Status& o) noexcept {
    Rep* old = rep_;
    if (o.rep_ != old) { Ref(o.rep_); rep_ = o.rep_; Unref(old); }
    return *this;
  }
  Status(Status&& o) noexcept : rep_(o.Take()) {}
  Status& operator=(Status&& o) noexcept {
    if (this != &o) { Rep* old = rep_; rep_ = o.Take(); Unref(old); }
    return *this;
  }
  ~Status() { Unref(rep_); }
  void Update(const Status& s) { if (ok()) *this = s; }
  void Update(Status&& s) { if (ok()) *this = std::move(s); }
  [[nodiscard]] bool ok() const { return rep_ == nullptr; }
  StatusCode code() const { return Real() ? rep_->code : rep_ ? StatusCode::kInternal : StatusCode::kOk; }
  int raw_code() const { return static_cast<int>(code()); }
  absl::string_view message() const {
    return Real() ? absl::string_view(rep_->message) : rep_ ? absl::string_view("Status accessed after move.") : absl::string_view();
  }
  friend bool operator==(const Status& a, const Status& b) {
    if (a.rep_ == b.rep_) return true;
    if (!a.Real() || !b.Real()) return false;
    return a.rep_->code == b.rep_->code && a.rep_->message == b.rep_->message &&
           a.rep_->payloads == b.rep_->payloads;
  }
  friend bool operator!=(const Status& a, const Status& b) { return !(a == b); }
  std::string ToString(StatusToStringMode mode = StatusToStringMode::kDefault) const {
    if (ok()) return "OK";
    std::string r = StatusCodeToString(code()) + ": " + std::string(message());
    if (Real() && (static_cast<int>(mode) & 1)) {
      for (auto& [url, p] : rep_->payloads) {
        r += " [" + url + "='" + absl::CHexEscape(std::string(p)) + "']";
      }
    }
    return r;
  }
  template <typename Sink>
  friend void AbslStringify(Sink& sink, const Status& s) { sink.Append(s.ToString()); }
  void IgnoreError() const {}
  friend void swap(Status& a, Status& b) noexcept { std::swap(a.rep_, b.rep_); }
  std::optional<absl::Cord> GetPayload(absl::string_view url) const {
    if (Real()) {
      for (auto& [u, p] : rep_->payloads) if (u == url) return p;
    }
    return std::nullopt;
  }
  void SetPayload(absl::string_view url, absl::Cord payload) {
    if (ok()) return;
    Cow();
    for (auto& [u, p] : rep_->payloads) {
      if (u == url) { p = std::move(payload); return; }
    }
    rep_->payloads.emplace_back(std::string(url.data(), url.size()), std::move(payload));
  }
  bool ErasePayload(absl::string_view url) {
    if (ok()) return false;
    Cow();
    for (size_t i = 0; i < rep_->payloads.size(); ++i) {
      if (rep_->payloads[i].first == url) {
        rep_->payloads.erase(rep_->payloads.begin() + i);
        return true;
      }
    }
    return false;
  }
  void ForEachPayload(
      absl::FunctionRef<void(absl::string_view, const absl::Cord&)> f) const {
    if (Real()) for (auto& [u, p] : rep_->payloads) f(u, p);
  }
  absl::Span<const absl::SourceLocation> GetSourceLocations() const {
    if (!Real()) return {};
    return rep_->locations;
  }
  void AddSourceLocation(absl::SourceLocation loc = absl::SourceLocation::current()) {
    if (ok() || loc.line() == 0) return;
    Cow();
    rep_->locations.push_back(loc);
  }
  Status WithSourceLocation(absl::SourceLocation loc = absl::SourceLocation::current()) const {
    Status s = *this; s.AddSourceLocation(loc); return s;
  }

 private:
  // A moved-from error stays an error (StatusOr's destructor relies on it).
  static Rep* Moved() { return reinterpret_cast<Rep*>(uintptr_t{1}); }
  bool Real() const { return rep_ != nullptr && rep_ != Moved(); }
  Rep* Take() { Rep* r = rep_; if (r) rep_ = Moved(); return r; }
  static void Ref(Rep* r) { if (r && r != Moved()) r->ref.fetch_add(1, std::memory_order_relaxed); }
  static void Unref(Rep* r) {
    if (r && r != Moved() && r->ref.fetch_sub(1, std::memory_order_acq_rel) == 1) delete r;
  }
  void Cow() {
    if (!Real()) { rep_ = new Rep; rep_->code = StatusCode::kInternal; return; }
    if (rep_->ref.load(std::memory_order_acquire) != 1) {
      Rep* n = new Rep;
      n->code = rep_->code; n->message = rep_->message;
      n->payloads = rep_->payloads; n->locations = rep_->locations;
      Unref(rep_);
      rep_ = n;
    }
  }
  Rep* rep_ = nullptr;
};
inline std::ostream& operator<<(std::ostream& os, const Status& s) { return os << s.ToString(); }
inline Status OkStatus() { return Status(); }
#define SHIM_ERR(Name)                                                           \
  inline Status Name##Error(absl::string_view m,                                 \
                            absl::SourceLocation loc = absl::SourceLocation::current()) { \
    return Status(StatusCode::k##Name, m, loc);                                  \
  }                                                                              \
  inline bool Is##Name(const Status& s) { return s.code() == StatusCode::k##Name; }
SHIM_ERR(Cancelled) SHIM_ERR(Unknown) SHIM_ERR(InvalidArgument)
SHIM_ERR(DeadlineExceeded) SHIM_ERR(NotFound) SHIM_ERR(AlreadyExists)
SHIM_ERR(PermissionDenied) SHIM_ERR(ResourceExhausted)
SHIM_ERR(FailedPrecondition) SHIM_ERR(Aborted) SHIM_ERR(OutOfRange)
SHIM_ERR(Unimplemented) SHIM_ERR(Internal) SHIM_ERR(Unavailable)
SHIM_ERR(DataLoss) SHIM_ERR(Unauthenticated)
#undef SHIM_ERR
inline Status CancelledError() { return CancelledError(""); }
ABSL_NAMESPACE_END
}  // namespace absl
#endif
