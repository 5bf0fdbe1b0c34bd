#ifndef SHIM_LOCK_H_
#define SHIM_LOCK_H_
#include <mutex>
// Present when the controlled scheduler is linked in.
namespace ctl {
void NoSwitch() __attribute__((weak));
void MaySwitch() __attribute__((weak));
}
namespace arolla::shim {
// The lock of a registry of the stand-ins; a thread that holds it is not switched out.
class RegistryLock {
 public:
  RegistryLock() { if (&ctl::NoSwitch != nullptr) ctl::NoSwitch(); Mu().lock(); }
  ~RegistryLock() { Mu().unlock(); if (&ctl::MaySwitch != nullptr) ctl::MaySwitch(); }
  RegistryLock(const RegistryLock&) = delete;
 private:
  static std::recursive_mutex& Mu() { static std::recursive_mutex m; return m; }
};
}
#endif
