#ifndef SHIM_ALGO_CONTAINER_H_
#define SHIM_ALGO_CONTAINER_H_
#include_next "absl/algorithm/container.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
template <typename Sequence, typename T>
constexpr bool c_contains(const Sequence& sequence, T&& value) {
  for (const auto& x : sequence) if (x == value) return true;
  return false;
}
ABSL_NAMESPACE_END
}
#endif
