// Controlled scheduler: real threads of which exactly one runs at a time; see sched.cc.
#ifndef CTL_SCHED_H_
#define CTL_SCHED_H_
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <thread>
#include <vector>
namespace ctl {
enum Kind { kMem = 0, kAtomic = 1, kLock = 2, kOp = 3 };
// Whether the calling thread is under the control of the scheduler.
bool Managed();
// A point at which another thread may be scheduled.
void Point(Kind k);
// Suspends the calling thread until pred(arg) holds.
void Block(bool (*pred)(void*), void* arg);

// The parts of the mutex and condition-variable stand-ins that must not be switched out.
void Acquire(bool* held);
bool TryAcquire(bool* held);
void LetGo(bool* held);
void Bump(unsigned* n);

struct Strategy {
  enum { kRandom, kPct } kind = kRandom;
  int min_kind = kAtomic;      // points below this kind are not considered
  int permille = 300;          // kRandom: probability of a switch per point
  int depth = 2;               // kPct: priority changes
  uint64_t horizon = 100;      // kPct: the points among which changes are drawn
  uint64_t seed = 0;
};
struct Outcome {
  enum { kDone, kDeadlock, kLivelock } end = kDone;
  uint64_t points = 0;         // points at or above min_kind seen
};
// Runs the functions as threads 0.. under one schedule. `idle`, when every unfinished thread is blocked, may return true after
// having changed something (it runs outside the managed threads); otherwise the run ends as a deadlock.
Outcome Run(const Strategy& st, std::vector<std::function<void()>> fns, std::function<bool()> idle);
int Self();                    // index of the calling thread, -1 when unmanaged
uint64_t Switches();           // number of thread switches so far in this run
// Between these the calling thread is not switched out by Point().
void NoSwitch();
void MaySwitch();
struct Quiet { Quiet() { NoSwitch(); } ~Quiet() { MaySwitch(); } };
// Freed memory is filled and kept until Release() between Hold() and Release().
void Hold();
void Release();
}  // namespace ctl
#endif
