// Stand-in for absl::Mutex built on pthread primitives, every one of which the
// simulator intercepts.  Semantics kept: exclusive/shared modes, conditional
// critical sections re-evaluated after every release, deadlines.
#ifndef SHIM_ABSL_MUTEX_H_
#define SHIM_ABSL_MUTEX_H_
#include <pthread.h>
#include <time.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include "absl/base/thread_annotations.h"
#include "absl/base/attributes.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "sim.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
// No symbol may be mixed up with one of the installed library.
#pragma clang attribute push(__attribute__((always_inline)), apply_to = function)
class Condition {
 public:
  Condition(bool (*f)(void*), void* a) : call_(&CallV), fn_(reinterpret_cast<void (*)()>(f)), arg_(a) {}
  template <typename T> Condition(bool (*f)(T*), T* a)
      : call_(&CallT<T>), fn_(reinterpret_cast<void (*)()>(f)), arg_(const_cast<void*>(static_cast<const void*>(a))) {}
  template <typename T, typename = void> Condition(bool (*f)(T*), std::common_type_t<T>* a)
      : call_(&CallT<T>), fn_(reinterpret_cast<void (*)()>(f)), arg_(const_cast<void*>(static_cast<const void*>(a))) {}
  explicit Condition(const bool* b) : call_(&CallB), arg_(const_cast<bool*>(b)) {}
  template <typename T, typename = decltype(std::declval<const T&>()()), typename = std::enable_if_t<std::is_class_v<T>>>
  explicit Condition(const T* obj) : call_(&CallO<T>), arg_(const_cast<void*>(static_cast<const void*>(obj))) {}
  static const Condition kTrue;
  bool Eval() const { return call_ == nullptr || call_(this); }
  Condition() = default;
 private:
  static bool CallV(const Condition* c) { return reinterpret_cast<bool (*)(void*)>(c->fn_)(c->arg_); }
  template <typename T> static bool CallT(const Condition* c) { return reinterpret_cast<bool (*)(T*)>(c->fn_)(static_cast<T*>(c->arg_)); }
  static bool CallB(const Condition* c) { return *static_cast<bool*>(c->arg_); }
  template <typename T> static bool CallO(const Condition* c) { return (*static_cast<const T*>(c->arg_))(); }
  bool (*call_)(const Condition*) = nullptr;
  void (*fn_)() = nullptr;
  void* arg_ = nullptr;
};
inline const Condition Condition::kTrue{};

enum ConstInitType { kShimConstInit };
class ABSL_LOCKABLE Mutex {
 public:
  constexpr Mutex() {}
  explicit constexpr Mutex(ConstInitType) {}
  ~Mutex() { pthread_mutex_destroy(&m_); }
  Mutex(const Mutex&) = delete;
  Mutex& operator=(const Mutex&) = delete;
  void lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() {
    Op op(this, 6);
    pthread_mutex_lock(&m_);
    while (writer_ || readers_ > 0) WaitChange();
    writer_ = true;
    Acq(true);
    pthread_mutex_unlock(&m_);
  }
  void unlock() ABSL_UNLOCK_FUNCTION() {
    Op op(this, 7);
    pthread_mutex_lock(&m_);
    if (!writer_) Die("unlock of a Mutex that is not held");
    writer_ = false;
    Rel(true);
    Change();
    pthread_mutex_unlock(&m_);
  }
  bool try_lock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) {
    Op op(this, 6);
    pthread_mutex_lock(&m_);
    bool r = !writer_ && readers_ == 0;
    if (r) { writer_ = true; Acq(true); }
    pthread_mutex_unlock(&m_);
    return r;
  }
  void lock_shared() ABSL_SHARED_LOCK_FUNCTION() {
    Op op(this, 16);
    pthread_mutex_lock(&m_);
    while (writer_) WaitChange();
    ++readers_;
    Acq(false);
    pthread_mutex_unlock(&m_);
  }
  void unlock_shared() ABSL_UNLOCK_FUNCTION() {
    Op op(this, 17);
    pthread_mutex_lock(&m_);
    if (readers_ <= 0) Die("unlock_shared of a Mutex that is not held");
    --readers_;
    Rel(false);
    Change();
    pthread_mutex_unlock(&m_);
  }
  bool try_lock_shared() ABSL_SHARED_TRYLOCK_FUNCTION(true) {
    Op op(this, 16);
    pthread_mutex_lock(&m_);
    bool r = !writer_;
    if (r) { ++readers_; Acq(false); }
    pthread_mutex_unlock(&m_);
    return r;
  }
  void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { lock(); }
  void Unlock() ABSL_UNLOCK_FUNCTION() { unlock(); }
  bool TryLock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { return try_lock(); }
  void ReaderLock() ABSL_SHARED_LOCK_FUNCTION() { lock_shared(); }
  void ReaderUnlock() ABSL_UNLOCK_FUNCTION() { unlock_shared(); }
  bool ReaderTryLock() ABSL_SHARED_TRYLOCK_FUNCTION(true) { return try_lock_shared(); }
  void WriterLock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { lock(); }
  void WriterUnlock() ABSL_UNLOCK_FUNCTION() { unlock(); }
  void AssertHeld() const ABSL_ASSERT_EXCLUSIVE_LOCK() {}
  void AssertReaderHeld() const ABSL_ASSERT_SHARED_LOCK() {}
  void AssertNotHeld() const {}
  void Await(const Condition& c) { AwaitImpl(c, nullptr); }
  bool AwaitWithTimeout(const Condition& c, absl::Duration d) { return AwaitWithDeadline(c, absl::Now() + d); }
  bool AwaitWithDeadline(const Condition& c, absl::Time t) {
    if (t == absl::InfiniteFuture()) { AwaitImpl(c, nullptr); return true; }
    timespec ts = absl::ToTimespec(t);
    return AwaitImpl(c, &ts);
  }
  void LockWhen(const Condition& c) ABSL_EXCLUSIVE_LOCK_FUNCTION() { lock(); Await(c); }
  bool LockWhenWithTimeout(const Condition& c, absl::Duration d) ABSL_EXCLUSIVE_LOCK_FUNCTION() { lock(); return AwaitWithTimeout(c, d); }
  bool LockWhenWithDeadline(const Condition& c, absl::Time t) ABSL_EXCLUSIVE_LOCK_FUNCTION() { lock(); return AwaitWithDeadline(c, t); }
  void EnableInvariantDebugging(void (*)(void*), void*) {}
 private:
  friend class CondVar;
  [[noreturn]] static void Die(const char* m) {
    ::fprintf(stderr, "absl::Mutex: %s\n", m);
    ::abort();
  }
  // One operation of the stand-in is one simulated synchronisation event: its
  // bookkeeping is invisible to the scheduler and to the race detector, and
  // the ordering absl::Mutex promises is declared explicitly, so that two
  // readers are not ordered with each other.
  struct Op {
    Op(const Mutex* m, int kind) : m_(m) { Begin(kind); }
    ~Op() { if (on_) End(); }
    void Begin(int kind) { sim_sync(m_, kind); sim_ignore_begin(); on_ = true; }
    void End() { sim_ignore_end(); on_ = false; }
    const Mutex* m_;
    bool on_ = false;
  };
  void Acq(bool w) { sim_acquire(&writer_); if (w) sim_acquire(&readers_); }
  void Rel(bool w) { sim_release(w ? (void*)&writer_ : (void*)&readers_, 1); }
  // State may have changed: conditions are evaluated again.
  void Change() {
    ++changes_;
    if (awaiting_ > 0) pthread_cond_broadcast(&await_);
    Available();
  }
  void Available() { if (waiters_ > 0) pthread_cond_broadcast(&c_); }
  void WaitChange() {
    ++waiters_;
    pthread_cond_wait(&c_, &m_);
    --waiters_;
  }
  void Reacquire(bool w) {
    while (w ? (writer_ || readers_ > 0) : writer_) WaitChange();
    if (w) writer_ = true; else ++readers_;
    Acq(w);
  }
  bool AwaitImpl(const Condition& c, const timespec* ts) {
    if (c.Eval()) return true;
    Op op(this, 8);
    pthread_mutex_lock(&m_);
    const bool w = writer_;
    if (w) writer_ = false; else --readers_;
    Rel(w);
    Change();
    for (;;) {
      const uint64_t seen = changes_;
      int rc = 0;
      while (changes_ == seen && rc == 0) {
        ++awaiting_;
        rc = ts ? pthread_cond_timedwait(&await_, &m_, ts) : pthread_cond_wait(&await_, &m_);
        --awaiting_;
      }
      Reacquire(w);
      pthread_mutex_unlock(&m_);
      op.End();
      const bool ok = c.Eval();
      if (ok || rc != 0) return ok;
      op.Begin(7);
      pthread_mutex_lock(&m_);
      // Give the mutex back: nothing has changed.
      if (w) writer_ = false; else --readers_;
      Rel(w);
      Available();
    }
  }
  pthread_mutex_t m_ = PTHREAD_MUTEX_INITIALIZER;
  pthread_cond_t c_ = PTHREAD_COND_INITIALIZER;
  bool writer_ = false;
  int readers_ = 0;
  int waiters_ = 0;
  int awaiting_ = 0;
  uint64_t changes_ = 0;
  pthread_cond_t await_ = PTHREAD_COND_INITIALIZER;
};
class ABSL_SCOPED_LOCKABLE MutexLock {
 public:
  explicit MutexLock(Mutex& m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(&m) { m_->lock(); }
  explicit MutexLock(Mutex* m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(m) { m_->lock(); }
  MutexLock(Mutex& m, const Condition& c) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(&m) { m_->LockWhen(c); }
  MutexLock(Mutex* m, const Condition& c) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(m) { m_->LockWhen(c); }
  MutexLock(const MutexLock&) = delete;
  ~MutexLock() ABSL_UNLOCK_FUNCTION() { m_->unlock(); }
 private:
  Mutex* m_;
};
using WriterMutexLock = MutexLock;
class ABSL_SCOPED_LOCKABLE ReaderMutexLock {
 public:
  explicit ReaderMutexLock(Mutex& m) ABSL_SHARED_LOCK_FUNCTION(m) : m_(&m) { m_->lock_shared(); }
  explicit ReaderMutexLock(Mutex* m) ABSL_SHARED_LOCK_FUNCTION(m) : m_(m) { m_->lock_shared(); }
  ReaderMutexLock(const ReaderMutexLock&) = delete;
  ~ReaderMutexLock() ABSL_UNLOCK_FUNCTION() { m_->unlock_shared(); }
 private:
  Mutex* m_;
};
class ABSL_SCOPED_LOCKABLE ReleasableMutexLock {
 public:
  explicit ReleasableMutexLock(Mutex& m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(&m) { m_->lock(); }
  explicit ReleasableMutexLock(Mutex* m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(m) { m_->lock(); }
  ~ReleasableMutexLock() ABSL_UNLOCK_FUNCTION() { if (m_) m_->unlock(); }
  void Release() ABSL_UNLOCK_FUNCTION() { m_->unlock(); m_ = nullptr; }
 private:
  Mutex* m_;
};
class CondVar {
 public:
  CondVar() = default;
  ~CondVar() { pthread_cond_destroy(&c_); }
  void Wait(Mutex* m) { WaitImpl(m, nullptr); }
  bool WaitWithDeadline(Mutex* m, absl::Time t) {
    if (t == absl::InfiniteFuture()) { Wait(m); return false; }
    timespec ts = absl::ToTimespec(t);
    return WaitImpl(m, &ts);
  }
  bool WaitWithTimeout(Mutex* m, absl::Duration d) { return WaitWithDeadline(m, absl::Now() + d); }
  void Signal() { pthread_cond_signal(&c_); }
  void SignalAll() { pthread_cond_broadcast(&c_); }
 private:
  bool WaitImpl(Mutex* m, const timespec* ts) {
    Mutex::Op op(m, 8);
    sim_sync(this, 8);
    pthread_mutex_lock(&m->m_);
    m->writer_ = false;
    m->Rel(true);
    m->Change();
    int rc = ts ? pthread_cond_timedwait(&c_, &m->m_, ts) : pthread_cond_wait(&c_, &m->m_);
    m->Reacquire(true);
    pthread_mutex_unlock(&m->m_);
    return rc != 0;
  }
  pthread_cond_t c_ = PTHREAD_COND_INITIALIZER;
};
#pragma clang attribute pop
ABSL_NAMESPACE_END
}  // namespace absl
#endif
