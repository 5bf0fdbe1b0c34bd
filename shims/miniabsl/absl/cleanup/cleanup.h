#ifndef MINIABSL_CLEANUP_H_
#define MINIABSL_CLEANUP_H_
#include <utility>
namespace absl {
template <typename F> class [[nodiscard]] Cleanup {
 public:
  Cleanup(F f) : f_(std::move(f)) {}
  Cleanup(Cleanup&& o) : f_(std::move(o.f_)), on_(std::exchange(o.on_, false)) {}
  ~Cleanup() { if (on_) f_(); }
  void Cancel() && { on_ = false; }
  void Invoke() && { on_ = false; f_(); }
 private:
  F f_; bool on_ = true;
};
template <typename F> Cleanup(F) -> Cleanup<F>;
template <typename F> Cleanup<F> MakeCleanup(F f) { return Cleanup<F>(std::move(f)); }
}
#endif
