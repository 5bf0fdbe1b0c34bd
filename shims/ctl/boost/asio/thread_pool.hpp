// A thread pool without threads of its own: its tasks are run by whoever calls ShimRunOne(), under the controlled scheduler.
#ifndef SHIM_BOOST_ASIO_THREAD_POOL_H_
#define SHIM_BOOST_ASIO_THREAD_POOL_H_
#include <algorithm>
#include <cstddef>
#include <deque>
#include <memory>
#include <utility>
#include <vector>
#include "absl/functional/any_invocable.h"
#include "absl/synchronization/mutex.h"
#include "ctl/sched.h"
namespace boost::asio {
class thread_pool;
struct ShimPool {
  absl::Mutex mu;
  std::deque<absl::AnyInvocable<void() &&>> q;
  size_t limit;
  size_t running = 0;
  bool stopped = false;
  bool Ready() const { return !stopped && !q.empty() && running < limit; }
  bool Still() const { return running == 0 && (stopped || q.empty()); }
};
inline std::vector<std::shared_ptr<ShimPool>>& ShimPools() { static auto* v = new std::vector<std::shared_ptr<ShimPool>>(); return *v; }
inline bool ShimReady() { for (auto& p : ShimPools()) if (p->Ready()) return true; return false; }
inline bool ShimRunOne() {
  std::shared_ptr<ShimPool> p;
  {
    ctl::Quiet quiet;
    for (auto& c : ShimPools()) if (c->Ready()) { p = c; break; }
  }
  if (!p) return false;
  {
    absl::AnyInvocable<void() &&> t;
    {
      absl::MutexLock l(p->mu);
      if (!p->Ready()) return false;
      t = std::move(p->q.front());
      p->q.pop_front();
      ++p->running;
    }
    std::move(t)();
  }
  absl::MutexLock l(p->mu);
  --p->running;
  return true;
}
class thread_pool {
 public:
  explicit thread_pool(std::size_t n = 64) : p_(std::make_shared<ShimPool>()) {
    p_->limit = n ? n : 1;
    ctl::Quiet quiet;
    ShimPools().push_back(p_);
  }
  thread_pool(const thread_pool&) = delete;
  ~thread_pool() {
    stop();
    join();
    {
      ctl::Quiet quiet;
      auto& v = ShimPools();
      v.erase(std::find(v.begin(), v.end(), p_));
    }
    std::deque<absl::AnyInvocable<void() &&>> dead;
    absl::MutexLock l(p_->mu);
    dead.swap(p_->q);
  }
  void stop() { absl::MutexLock l(p_->mu); p_->stopped = true; }
  void join() {
    if (ctl::Managed()) { ctl::Block(+[](void* x) { return static_cast<ShimPool*>(x)->Still(); }, p_.get()); return; }
    while (!p_->Still() && ShimRunOne()) {}
  }
  void wait() { join(); }
  struct executor_type { ShimPool* p; };
  executor_type get_executor() { return {p_.get()}; }
  executor_type executor() { return {p_.get()}; }
  template <typename F> void ShimPost(F&& f) { ShimPost(p_.get(), std::forward<F>(f)); }
  template <typename F> static void ShimPost(ShimPool* p, F&& f) { absl::MutexLock l(p->mu); p->q.push_back(std::forward<F>(f)); }
 private:
  std::shared_ptr<ShimPool> p_;
};
template <typename F> void post(thread_pool& p, F&& f) { p.ShimPost(std::forward<F>(f)); }
template <typename F> void post(thread_pool::executor_type e, F&& f) { thread_pool::ShimPost(e.p, std::forward<F>(f)); }
template <typename F> void defer(thread_pool& p, F&& f) { p.ShimPost(std::forward<F>(f)); }
template <typename F> void defer(thread_pool::executor_type e, F&& f) { thread_pool::ShimPost(e.p, std::forward<F>(f)); }
}  // namespace boost::asio
#endif
