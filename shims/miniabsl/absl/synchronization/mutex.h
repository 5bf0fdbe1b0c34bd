// Mutex whose lock and unlock are scheduling points when the calling thread is under the controlled scheduler.
#ifndef MINIABSL_MUTEX_H_
#define MINIABSL_MUTEX_H_
#include <condition_variable>
#include <functional>
#include <mutex>
#include <type_traits>
#include "absl/base/const_init.h"
#include "absl/base/thread_annotations.h"
#include "absl/time/time.h"
#include "ctl/sched.h"
namespace absl {
class Condition {
 public:
  template <typename T> Condition(bool (*f)(T*), std::type_identity_t<T>* a) : p_([=] { return f(a); }) {}
  explicit Condition(const bool* b) : p_([=] { return *b; }) {}
  template <typename T> Condition(T* o, bool (T::*m)()) : p_([=] { return (o->*m)(); }) {}
  template <typename T> Condition(const T* o, bool (T::*m)() const) : p_([=] { return (o->*m)(); }) {}
  template <typename F, typename = decltype(std::declval<const F&>()())> explicit Condition(const F* f) : p_([=] { return (*f)(); }) {}
  bool Eval() const { return p_(); }
 private:
  std::function<bool()> p_;
};
class Mutex {
 public:
  constexpr Mutex() = default;
  explicit constexpr Mutex(ConstInitType) {}
  Mutex(const Mutex&) = delete;
  Mutex& operator=(const Mutex&) = delete;
  void Lock() {
    if (!ctl::Managed()) { m_.lock(); return; }
    ctl::Acquire(&held_);
  }
  bool TryLock() {
    if (!ctl::Managed()) return m_.try_lock();
    return ctl::TryAcquire(&held_);
  }
  void Unlock() {
    if (!ctl::Managed()) { m_.unlock(); return; }
    ctl::LetGo(&held_);
  }
  void lock() { Lock(); }
  void unlock() { Unlock(); }
  bool try_lock() { return TryLock(); }
  void ReaderLock() { Lock(); }
  void ReaderUnlock() { Unlock(); }
  void WriterLock() { Lock(); }
  void WriterUnlock() { Unlock(); }
  void lock_shared() { Lock(); }
  void unlock_shared() { Unlock(); }
  void AssertHeld() const {}
  void AssertNotHeld() const {}
  void AssertReaderHeld() const {}
  void Await(const Condition& c) {
    while (!c.Eval()) {
      Unlock();
      if (ctl::Managed()) { struct A { Mutex* m; const Condition* c; } a{this, &c}; ctl::Block(+[](void* x) { auto* a = static_cast<A*>(x); return !a->m->held_ && a->c->Eval(); }, &a); }
      else std::this_thread::yield();
      Lock();
    }
  }
  void LockWhen(const Condition& c) { Lock(); Await(c); }
 private:
  friend class CondVar;
  std::mutex m_;
  bool held_ = false;
};
template <int> class MutexLockT {
 public:
  explicit MutexLockT(Mutex& m) : m_(&m) { m_->Lock(); }
  explicit MutexLockT(Mutex* m) : m_(m) { m_->Lock(); }
  MutexLockT(Mutex& m, const Condition& c) : m_(&m) { m_->LockWhen(c); }
  MutexLockT(Mutex* m, const Condition& c) : m_(m) { m_->LockWhen(c); }
  MutexLockT(const MutexLockT&) = delete;
  ~MutexLockT() { m_->Unlock(); }
 private:
  Mutex* m_;
};
class [[nodiscard]] MutexLock : public MutexLockT<0> { using MutexLockT<0>::MutexLockT; };
class [[nodiscard]] WriterMutexLock : public MutexLockT<1> { using MutexLockT<1>::MutexLockT; };
class [[nodiscard]] ReaderMutexLock : public MutexLockT<2> { using MutexLockT<2>::MutexLockT; };
class [[nodiscard]] ReleasableMutexLock {
 public:
  explicit ReleasableMutexLock(Mutex& m) : m_(&m) { m_->Lock(); }
  explicit ReleasableMutexLock(Mutex* m) : m_(m) { m_->Lock(); }
  ReleasableMutexLock(const ReleasableMutexLock&) = delete;
  ~ReleasableMutexLock() { if (m_) m_->Unlock(); }
  void Release() { m_->Unlock(); m_ = nullptr; }
 private:
  Mutex* m_;
};
class [[nodiscard]] MutexLockMaybe {
 public:
  explicit MutexLockMaybe(Mutex* m) : m_(m) { if (m_) m_->Lock(); }
  ~MutexLockMaybe() { if (m_) m_->Unlock(); }
 private:
  Mutex* m_;
};
class CondVar {
 public:
  void Wait(Mutex* m) {
    if (ctl::Managed()) { unsigned g = g_; m->Unlock(); struct A { CondVar* c; unsigned g; } a{this, g}; ctl::Block(+[](void* x) { auto* a = static_cast<A*>(x); return a->c->g_ != a->g; }, &a); m->Lock(); }
    else { std::unique_lock<std::mutex> l(m->m_, std::adopt_lock); c_.wait(l); l.release(); }
  }
  void Signal() { ctl::Bump(&g_); if (!ctl::Managed()) c_.notify_all(); }
  void SignalAll() { ctl::Bump(&g_); if (!ctl::Managed()) c_.notify_all(); }
 private:
  unsigned g_ = 0;
  std::condition_variable c_;
};
}  // namespace absl
#endif
