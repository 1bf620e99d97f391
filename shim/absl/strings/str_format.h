// Adds %v / AbslStringify support to the installed abseil's StrFormat.
#ifndef SHIM_STR_FORMAT_H_
#define SHIM_STR_FORMAT_H_
#define StrFormat StrFormat_orig_
#define StrAppendFormat StrAppendFormat_orig_
#include_next "absl/strings/str_format.h"
#undef StrFormat
#undef StrAppendFormat
#include <array>
#include "absl/strings/str_cat.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
namespace shim_format {
template <class T> char Conv() {
  using D = std::decay_t<T>;
  if constexpr (std::is_same_v<D, bool>) return 'd';
  else if constexpr (std::is_enum_v<D> || std::is_integral_v<D>) return 'd';
  else if constexpr (std::is_floating_point_v<D>) return 'g';
  else return 's';
}
template <class T> decltype(auto) Wrap(const T& v) {
  if constexpr (strings_internal::ShimHasStringify<T>::value) {
    strings_internal::ShimSink s; s.Render(v); return std::string(std::move(s.s_));
  } else if constexpr (std::is_same_v<T, std::string_view>) {
    return absl::string_view(v);
  } else {
    return (v);
  }
}
inline std::string Fix(absl::string_view f, const char* conv, size_t n) {
  std::string r; size_t k = 0;
  for (size_t i = 0; i < f.size(); ++i) {
    r += f[i];
    if (f[i] != '%') continue;
    if (i + 1 < f.size() && f[i + 1] == '%') { r += f[++i]; continue; }
    for (++i; i < f.size(); ++i) {
      char c = f[i];
      if (c == '*') { ++k; r += c; continue; }
      if (c == 'v' && k < n) { r += conv[k]; ++k; break; }
      r += c;
      if ((c >= 'a' && c <= 'z' && c != 'l' && c != 'h' && c != 'q' && c != 'j' && c != 'z' && c != 't') || (c >= 'A' && c <= 'Z' && c != 'L')) { ++k; break; }
    }
  }
  return r;
}
}  // namespace shim_format
template <class... Args>
std::string& StrAppendFormat(std::string* out, absl::string_view f, const Args&... args) {
  const char conv[] = {shim_format::Conv<Args>()..., 0};
  std::string fixed = shim_format::Fix(f, conv, sizeof...(Args));
  [&](const auto&... w) {
    absl::FormatUntyped(out, absl::UntypedFormatSpec(fixed),
                        {absl::FormatArg(w)...});
  }(shim_format::Wrap(args)...);
  return *out;
}
template <class... Args>
[[nodiscard]] std::string StrFormat(absl::string_view f, const Args&... args) {
  std::string r; StrAppendFormat(&r, f, args...); return r;
}
template <class... Ps, class... Args>
[[nodiscard]] std::string StrFormat(const absl::ParsedFormat<'s'>& f, const Args&... args) { return StrFormat_orig_(f, args...); }
ABSL_NAMESPACE_END
}  // namespace absl
#endif
