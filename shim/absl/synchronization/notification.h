#ifndef SHIM_NOTIFICATION_H_
#define SHIM_NOTIFICATION_H_
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include "absl/synchronization/mutex.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
// No symbol may be mixed up with one of the installed library.
#pragma clang attribute push(__attribute__((always_inline)), apply_to = function)
class Notification {
 public:
  Notification() = default;
  explicit Notification(bool prenotify) : n_(prenotify) {}
  Notification(const Notification&) = delete;
  ~Notification() { MutexLock l(m_); }
  bool HasBeenNotified() const { return n_.load(std::memory_order_acquire); }
  void WaitForNotification() const {
    if (HasBeenNotified()) return;
    MutexLock l(m_, Condition(+[](const std::atomic<bool>* n) { return n->load(std::memory_order_relaxed); }, &n_));
  }
  bool WaitForNotificationWithTimeout(absl::Duration d) const { return WaitForNotificationWithDeadline(absl::Now() + d); }
  bool WaitForNotificationWithDeadline(absl::Time t) const {
    if (HasBeenNotified()) return true;
    m_.lock();
    bool r = m_.AwaitWithDeadline(Condition(+[](const std::atomic<bool>* n) { return n->load(std::memory_order_relaxed); }, &n_), t);
    m_.unlock();
    return r;
  }
  void Notify() {
    MutexLock l(m_);
    if (n_.load(std::memory_order_relaxed)) {
      ::fprintf(stderr, "absl::Notification: Notify() called more than once\n");
      ::abort();
    }
    n_.store(true, std::memory_order_release);
  }
 private:
  mutable Mutex m_;
  std::atomic<bool> n_{false};
};
#pragma clang attribute pop
ABSL_NAMESPACE_END
}
#endif
