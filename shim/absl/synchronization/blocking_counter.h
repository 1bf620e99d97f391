#ifndef SHIM_BC_H_
#define SHIM_BC_H_
#include "absl/synchronization/mutex.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
// No symbol may be mixed up with one of the installed library.
#pragma clang attribute push(__attribute__((always_inline)), apply_to = function)
class BlockingCounter {
 public:
  explicit BlockingCounter(int n) : n_(n) {}
  bool DecrementCount() { MutexLock l(m_); return --n_ == 0; }
  void Wait() { MutexLock l(m_); m_.Await(Condition(+[](int* v) { return *v == 0; }, &n_)); }
 private:
  Mutex m_;
  int n_;
};
#pragma clang attribute pop
ABSL_NAMESPACE_END
}
#endif
