// Stand-in for absl/status/status_macros.h.
#ifndef SHIM_STATUS_MACROS_H_
#define SHIM_STATUS_MACROS_H_
#include <sstream>
#include <string>
#include <utility>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/types/source_location.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
class [[nodiscard]] StatusBuilder {
 public:
  explicit StatusBuilder(absl::Status s,
                absl::SourceLocation loc = absl::SourceLocation::current())
      : status_(std::move(s)), loc_(loc) {}
  StatusBuilder(const StatusBuilder& o) : status_(o.status_), loc_(o.loc_), mode_(o.mode_) {
    if (o.stream_) { stream_ = std::make_unique<std::ostringstream>(); *stream_ << o.stream_->str(); }
  }
  StatusBuilder(StatusBuilder&&) = default;
  template <typename T> StatusBuilder& operator<<(const T& v) & {
    if (status_.ok()) return *this;
    if (!stream_) stream_ = std::make_unique<std::ostringstream>();
    *stream_ << v;
    return *this;
  }
  template <typename T> StatusBuilder&& operator<<(const T& v) && { return std::move(*this << v); }
  StatusBuilder& SetPrepend() & { mode_ = 1; return *this; }
  StatusBuilder&& SetPrepend() && { mode_ = 1; return std::move(*this); }
  StatusBuilder& SetAppend() & { mode_ = 2; return *this; }
  StatusBuilder&& SetAppend() && { mode_ = 2; return std::move(*this); }
  template <typename F> auto With(F&& f) & { return std::forward<F>(f)(*this); }
  template <typename F> auto With(F&& f) && { return std::forward<F>(f)(std::move(*this)); }
  bool ok() const { return status_.ok(); }
  absl::StatusCode code() const { return status_.code(); }
  absl::SourceLocation source_location() const { return loc_; }
  operator absl::Status() const& { return Build(); }
  operator absl::Status() && { return Build(); }
  template <typename T> operator absl::StatusOr<T>() const& { return Build(); }
 private:
  absl::Status Build() const {
    if (status_.ok()) return status_;
    absl::Status r = status_;
    if (stream_) {
      std::string extra = stream_->str();
      if (!extra.empty()) {
        std::string old(status_.message());
        std::string msg = mode_ == 1 ? extra + old : mode_ == 2 ? old + extra
            : old.empty() ? extra : old + "; " + extra;
        r = absl::Status(status_.code(), msg, absl::SourceLocation());
        for (auto& l : status_.GetSourceLocations()) r.AddSourceLocation(l);
        status_.ForEachPayload([&](absl::string_view u, const absl::Cord& p) { r.SetPayload(u, p); });
      }
    }
    r.AddSourceLocation(loc_);
    return r;
  }
  absl::Status status_;
  absl::SourceLocation loc_;
  std::unique_ptr<std::ostringstream> stream_;
  int mode_ = 0;
};
namespace status_macro_internal {
inline absl::Status AsStatus(const absl::Status& s) { return s; }
inline absl::Status AsStatus(absl::Status&& s) { return std::move(s); }
inline absl::Status AsStatus(const StatusBuilder& s) { return s; }
template <typename T> inline absl::Status AsStatus(const absl::StatusOr<T>& s) { return s.status(); }
}
ABSL_NAMESPACE_END
}
#define SHIM_CAT_(a, b) a##b
#define SHIM_CAT(a, b) SHIM_CAT_(a, b)
#define RETURN_IF_ERROR(expr)                                                     \
  switch (0)                                                                      \
  case 0:                                                                         \
  default:                                                                        \
    if (::absl::Status shim_st = ::absl::status_macro_internal::AsStatus(expr);   \
        shim_st.ok()) [[likely]] {                                                \
    } else /* NOLINT */                                                           \
      return ::absl::StatusBuilder(std::move(shim_st))
#define SHIM_PICK(_1, _2, _3, NAME, ...) NAME
#define ASSIGN_OR_RETURN(...)                                                     \
  SHIM_PICK(__VA_ARGS__, SHIM_AOR3, SHIM_AOR2, _)                                 \
  (SHIM_CAT(shim_so_, __COUNTER__), __VA_ARGS__)
// Parenthesised left-hand sides, "ASSIGN_OR_RETURN((auto [a, b]), f())".
#define SHIM_UNPAREN(x) SHIM_UNPAREN_I(SHIM_ISH x)
#define SHIM_ISH(...) SHIM_ISH __VA_ARGS__
#define SHIM_UNPAREN_I(...) SHIM_UNPAREN_II(__VA_ARGS__)
#define SHIM_UNPAREN_II(...) SHIM_VAN##__VA_ARGS__
#define SHIM_VANSHIM_ISH
#define SHIM_AOR2(tmp, lhs, rexpr)                                                \
  auto tmp = (rexpr);                                                             \
  if (!tmp.ok()) [[unlikely]]                                                     \
    return ::absl::StatusBuilder(std::move(tmp).status());                        \
  SHIM_UNPAREN(lhs) = *std::move(tmp)
#define SHIM_AOR3(tmp, lhs, rexpr, err)                                           \
  auto tmp = (rexpr);                                                             \
  if (!tmp.ok()) [[unlikely]] {                                                   \
    ::absl::StatusBuilder _(std::move(tmp).status());                             \
    (void)_;                                                                      \
    return err;                                                                   \
  }                                                                               \
  SHIM_UNPAREN(lhs) = *std::move(tmp)
#endif
