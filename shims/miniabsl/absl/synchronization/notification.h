#ifndef MINIABSL_NOTIFICATION_H_
#define MINIABSL_NOTIFICATION_H_
#include "absl/synchronization/mutex.h"
namespace absl {
class Notification {
 public:
  void Notify() { MutexLock l(m_); b_ = true; }
  bool HasBeenNotified() const { MutexLock l(m_); return b_; }
  void WaitForNotification() const { MutexLock l(m_); m_.Await(Condition(&b_)); }
 private:
  mutable Mutex m_;
  bool b_ = false;
};
}
#endif
