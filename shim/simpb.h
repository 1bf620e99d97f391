#ifndef SHIM_SIMPB_H_
#define SHIM_SIMPB_H_
#include <cstddef>
#include <string>
#include <type_traits>
#include <utility>
#include "absl/strings/string_view.h"
namespace sim_pb {
template <class T> decltype(auto) S(T&& v) {
  if constexpr (std::is_same_v<std::decay_t<T>, absl::string_view>) return std::string(v.data(), v.size());
  else return std::forward<T>(v);
}
}
using std::nullptr_t;
#endif
