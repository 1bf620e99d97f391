#ifndef SHIM_BARRIER_H_
#define SHIM_BARRIER_H_
#include "absl/synchronization/mutex.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
// No symbol may be mixed up with one of the installed library.
#pragma clang attribute push(__attribute__((always_inline)), apply_to = function)
class Barrier {
 public:
  explicit Barrier(int n) : to_block_(n), to_exit_(n) {}
  bool Block() {
    MutexLock l(m_);
    --to_block_;
    m_.Await(Condition(+[](int* v) { return *v == 0; }, &to_block_));
    return --to_exit_ == 0;
  }
 private:
  Mutex m_;
  int to_block_;
  int to_exit_;
};
#pragma clang attribute pop
ABSL_NAMESPACE_END
}
#endif
