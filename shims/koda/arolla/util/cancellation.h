// Cancellation contexts: as in arolla, a subscription to a cancelled context fires at once, and callbacks run outside the lock.
#ifndef SHIM_AROLLA_CANCELLATION_H_
#define SHIM_AROLLA_CANCELLATION_H_
#include <atomic>
#include <list>
#include <memory>
#include <optional>
#include <utility>
#include "absl/base/nullability.h"
#include "absl/functional/any_invocable.h"
#include "absl/status/status.h"
#include "absl/synchronization/mutex.h"
namespace arolla {
class CancellationContext;
using CancellationContextPtr = std::shared_ptr<CancellationContext>;
class CancellationContext : public std::enable_shared_from_this<CancellationContext> {
  struct Tag {};
 public:
  using Callback = absl::AnyInvocable<void() &&>;
  explicit CancellationContext(Tag) {}
  static CancellationContextPtr Make() { return std::make_shared<CancellationContext>(Tag()); }
  bool Cancelled() const noexcept { return cancelled_.load(); }
  absl::Status GetStatus() const noexcept {
    if (!Cancelled()) return absl::OkStatus();
    absl::MutexLock l(mutex_);
    return status_;
  }
  void Cancel(absl::Status status = absl::CancelledError("cancelled")) noexcept {
    std::list<Callback> cbs;
    {
      absl::MutexLock l(mutex_);
      if (cancelled_.load()) return;
      status_ = std::move(status);
      cancelled_.store(true);
      cbs.swap(cbs_);
    }
    for (auto& c : cbs) std::move(c)();
  }
  class [[nodiscard]] Subscription {
   public:
    Subscription() = default;
    Subscription(CancellationContextPtr c, std::list<Callback>::iterator it) : c_(std::move(c)), it_(it) {}
    Subscription(Subscription&& o) : c_(std::move(o.c_)), it_(o.it_) { o.c_.reset(); }
    Subscription& operator=(Subscription&& o) { if (this != &o) { Unsubscribe(); c_ = std::move(o.c_); o.c_.reset(); it_ = o.it_; } return *this; }
    ~Subscription() { Unsubscribe(); }
    void Detach() && { c_.reset(); }
   private:
    void Unsubscribe() {
      if (!c_) return;
      std::list<Callback> dead;
      {
        absl::MutexLock l(c_->mutex_);
        if (!c_->cancelled_.load()) dead.splice(dead.begin(), c_->cbs_, it_);
      }
      c_.reset();
    }
    CancellationContextPtr c_;
    std::list<Callback>::iterator it_;
  };
  Subscription Subscribe(Callback&& cb) {
    {
      absl::MutexLock l(mutex_);
      if (!cancelled_.load()) {
        cbs_.push_back(std::move(cb));
        return Subscription(shared_from_this(), std::prev(cbs_.end()));
      }
    }
    std::move(cb)();
    return Subscription();
  }
  class [[nodiscard]] ScopeGuard {
   public:
    explicit ScopeGuard(CancellationContextPtr c = Make()) : c_(std::move(c)), prev_(tl_) { tl_ = c_.get(); }
    ~ScopeGuard() { tl_ = prev_; }
    ScopeGuard(const ScopeGuard&) = delete;
    const CancellationContextPtr& cancellation_context() const { return c_; }
    static CancellationContext* current_cancellation_context() noexcept { return tl_; }
   private:
    const CancellationContextPtr c_;
    CancellationContext* const prev_;
    static inline thread_local CancellationContext* tl_ = nullptr;
  };
 private:
  std::atomic<bool> cancelled_ = false;
  mutable absl::Mutex mutex_;
  absl::Status status_;
  std::list<Callback> cbs_;
};
inline CancellationContextPtr CurrentCancellationContext() noexcept {
  auto* p = CancellationContext::ScopeGuard::current_cancellation_context();
  return p ? p->shared_from_this() : nullptr;
}
inline bool Cancelled() noexcept { auto* p = CancellationContext::ScopeGuard::current_cancellation_context(); return p && p->Cancelled(); }
inline absl::Status CheckCancellation() noexcept { auto* p = CancellationContext::ScopeGuard::current_cancellation_context(); return p ? p->GetStatus() : absl::OkStatus(); }
}  // namespace arolla
#endif
