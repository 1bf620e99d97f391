// Stand-in for absl::call_once on simulator-visible primitives.
#ifndef SHIM_CALL_ONCE_H_
#define SHIM_CALL_ONCE_H_
#include <pthread.h>
#include <atomic>
#include <functional>
#include <utility>
#include "absl/base/attributes.h"
#include "absl/base/config.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
class once_flag {
 public:
  constexpr once_flag() {}
  once_flag(const once_flag&) = delete;
  std::atomic<bool> done{false};
  bool running = false;
  pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
  pthread_cond_t c = PTHREAD_COND_INITIALIZER;
};
template <typename F, typename... Args>
void call_once(absl::once_flag& f, F&& fn, Args&&... args) {
  if (f.done.load(std::memory_order_acquire)) return;
  pthread_mutex_lock(&f.m);
  while (f.running) pthread_cond_wait(&f.c, &f.m);
  if (!f.done.load(std::memory_order_relaxed)) {
    f.running = true;
    pthread_mutex_unlock(&f.m);
    std::invoke(std::forward<F>(fn), std::forward<Args>(args)...);
    pthread_mutex_lock(&f.m);
    f.running = false;
    f.done.store(true, std::memory_order_release);
    pthread_cond_broadcast(&f.c);
  }
  pthread_mutex_unlock(&f.m);
}
namespace base_internal {
template <typename F, typename... Args>
void LowLevelCallOnce(absl::once_flag* f, F&& fn, Args&&... args) {
  call_once(*f, std::forward<F>(fn), std::forward<Args>(args)...);
}
}
ABSL_NAMESPACE_END
}
#endif
