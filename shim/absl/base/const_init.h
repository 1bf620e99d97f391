#ifndef SHIM_CONST_INIT_H_
#define SHIM_CONST_INIT_H_
#include "absl/synchronization/mutex.h"
namespace absl { inline constexpr ConstInitType kConstInit = kShimConstInit; }
#endif
