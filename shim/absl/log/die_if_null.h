#ifndef SHIM_DIE_IF_NULL_H_
#define SHIM_DIE_IF_NULL_H_
#include <utility>
#include "absl/log/check.h"
namespace shim_log {
template <typename T>
inline T DieIfNull(const char* f, int l, const char* e, T&& t) {
  if (t == nullptr) { Fatal(f, l, e); }
  return std::forward<T>(t);
}
}
#define ABSL_DIE_IF_NULL(v) ::shim_log::DieIfNull(__FILE__, __LINE__, "Check failed: '" #v "' Must be non-null", (v))
#endif
