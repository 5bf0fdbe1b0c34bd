#ifndef SHIM_AROLLA_PERMANENT_EVENT_H_
#define SHIM_AROLLA_PERMANENT_EVENT_H_
#include <memory>
#include "absl/synchronization/mutex.h"
#include "absl/time/time.h"
namespace arolla {
class PermanentEvent;
using PermanentEventPtr = std::shared_ptr<PermanentEvent>;
class PermanentEvent {
 public:
  static PermanentEventPtr Make() { return std::make_shared<PermanentEvent>(); }
  bool HasBeenNotified() const { absl::MutexLock l(m_); return b_; }
  void Notify() { absl::MutexLock l(m_); b_ = true; }
  void Wait() const { absl::MutexLock l(m_); m_.Await(absl::Condition(&b_)); }
  // Under the controlled scheduler a deadline is either at once or never.
  bool WaitWithDeadline(absl::Time t) const {
    if (t.s < absl::Now().s + 3600) { absl::MutexLock l(m_); return b_; }
    Wait();
    return true;
  }
 private:
  mutable absl::Mutex m_;
  bool b_ = false;
};
}
#endif
