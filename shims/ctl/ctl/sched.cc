// Controlled scheduler.  Points are reported by the mutex stand-in and by the memory-access hooks that -fsanitize=thread inserts into
// the code under test (the hooks below replace the thread sanitizer's runtime).
#include "ctl/sched.h"
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <new>
#include <random>

namespace ctl {
namespace {
struct Th {
  sem_t sem;
  std::function<void()> fn;
  bool (*pred)(void*) = nullptr;
  void* arg = nullptr;
  bool done = true;
  int prio = 0;
  const char* lo = nullptr;
  const char* hi = nullptr;
};
// Workers, grown on demand; never destroyed: a worker may still be on its way to waiting when the process exits.
std::vector<std::unique_ptr<Th>>& pool = *new std::vector<std::unique_ptr<Th>>;
int n = 0, cur = -1;
Strategy st;
Outcome out;
uint64_t rnd, sw, total;
std::vector<uint64_t> change;
int low;
sem_t main_sem;
std::function<bool()>* idle_fn;
thread_local int tl = -1;
thread_local int tl_in = 0;
bool running = false;

uint64_t Rand() {
  rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17;
  return rnd;
}
bool Ready(int i) { return !pool[i]->done && (pool[i]->pred == nullptr || pool[i]->pred(pool[i]->arg)); }
void Wait(sem_t* s) { while (sem_wait(s) != 0) {} }
// Picks a thread to run; -1: none.
int Pick() {
  int best = -1, m = 0;
  for (int i = 0; i < n; ++i) {
    if (!Ready(i)) continue;
    if (st.kind == Strategy::kPct) {
      if (best < 0 || pool[i]->prio > pool[best]->prio) best = i;
    } else if (Rand() % ++m == 0) {
      best = i;
    }
  }
  return best;
}
void SwitchTo(int j) {
  int me = tl;
  if (j == me) return;
  ++sw;
  cur = j;
  sem_post(&pool[j]->sem);
  Wait(&pool[me]->sem);
}
void End(int how) {
  out.end = (decltype(out.end))how;
  sem_post(&main_sem);
  for (;;) pause();        // the run is over; this process does not reuse the stuck threads
}
int PickOrIdle() {
  for (;;) {
    int j = Pick();
    if (j >= 0) return j;
    bool left = false;
    for (int i = 0; i < n; ++i) left |= !pool[i]->done;
    if (!left) return -1;
    ++tl_in;
    bool more = *idle_fn && (*idle_fn)();
    --tl_in;
    if (!more) return -2;
  }
}
void Body(int i, Th* t) {
  pthread_attr_t a;
  pthread_getattr_np(pthread_self(), &a);
  void* p; size_t sz;
  pthread_attr_getstack(&a, &p, &sz);
  pthread_attr_destroy(&a);
  t->lo = (const char*)p;
  t->hi = t->lo + sz;
  tl = -1;
  sem_post(&main_sem);      // started
  for (;;) {
    Wait(&t->sem);
    tl = i;
    {
      std::function<void()> f = std::move(t->fn);
      t->fn = nullptr;
      if (!f) { fprintf(stderr, "ctl: worker %d has nothing to run (cur %d n %d)\n", i, cur, n); _exit(9); }
      f();
      ++tl_in;
      f = nullptr;
      --tl_in;
    }
    t->done = true;
    ++tl_in;
    int j = PickOrIdle();
    --tl_in;
    tl = -1;
    if (j == -1) { sem_post(&main_sem); continue; }
    if (j == -2) End(Outcome::kDeadlock);
    ++sw;
    cur = j;
    sem_post(&pool[j]->sem);
  }
}
}  // namespace

void NoSwitch() { ++tl_in; }
void MaySwitch() { --tl_in; }
bool Managed() { return tl >= 0; }
int Self() { return tl; }
uint64_t Switches() { return sw; }

void Point(Kind k) {
  if (tl < 0 || tl_in) return;
  if (++total > 20000000) End(Outcome::kLivelock);
  if (k < st.min_kind && k != kOp) return;
  ++tl_in;
  ++out.points;
  if (st.kind == Strategy::kRandom) {
    if ((int)(Rand() % 1000) < st.permille) {
      int j = Pick();
      if (j >= 0) { --tl_in; SwitchTo(j); return; }
    }
  } else {
    bool ch = false;
    for (uint64_t c : change) if (c == out.points) { pool[tl]->prio = --low; ch = true; }
    if (ch || k >= kLock) {
      int j = Pick();
      if (j >= 0 && (j != tl)) { --tl_in; SwitchTo(j); return; }
    }
  }
  --tl_in;
}

void Block(bool (*pred)(void*), void* arg) {
  ++tl_in;
  Th* t = pool[tl].get();
  t->pred = pred;
  t->arg = arg;
  // Rechecked after each wake-up: another thread may have run in between and invalidated it.
  do {
    int j = PickOrIdle();
    if (j < 0) End(Outcome::kDeadlock);
    --tl_in;
    SwitchTo(j);
    ++tl_in;
  } while (!pred(arg));
  t->pred = nullptr;
  --tl_in;
}

void Acquire(bool* held) {
  Point(kLock);
  if (*held) Block(+[](void* a) { return !*static_cast<bool*>(a); }, held);
  *held = true;
}
bool TryAcquire(bool* held) {
  Point(kLock);
  if (*held) return false;
  return *held = true;
}
void LetGo(bool* held) {
  *held = false;
  Point(kLock);
}
void Bump(unsigned* n) { ++*n; }

Outcome Run(const Strategy& s, std::vector<std::function<void()>> fns, std::function<bool()> idle) {
  static bool init = [] { sem_init(&main_sem, 0, 0); return true; }();
  (void)init;
  while (pool.size() < fns.size()) {
    pool.push_back(std::make_unique<Th>());
    sem_init(&pool.back()->sem, 0, 0);
    int i = (int)pool.size() - 1;
    std::thread(Body, i, pool.back().get()).detach();
    Wait(&main_sem);
  }
  st = s;
  out = Outcome();
  n = (int)fns.size();
  rnd = s.seed * 0x9E3779B97F4A7C15ull + 0x1234567;
  if (!rnd) rnd = 1;
  for (int i = 0; i < 5; ++i) Rand();
  sw = total = 0;
  low = 0;
  change.clear();
  for (int i = 0; i < n; ++i) {
    pool[i]->fn = std::move(fns[i]);
    pool[i]->done = false;
    pool[i]->pred = nullptr;
    pool[i]->prio = i + 1;
  }
  if (s.kind == Strategy::kPct) {
    for (int i = n - 1; i > 0; --i) std::swap(pool[i]->prio, pool[Rand() % (i + 1)]->prio);
    for (int i = 0; i < s.depth; ++i) change.push_back(1 + Rand() % (s.horizon ? s.horizon : 1));
  }
  idle_fn = &idle;
  if (n == 0) return out;
  running = true;
  int j = Pick();
  cur = j;
  sem_post(&pool[j]->sem);
  Wait(&main_sem);
  running = false;
  return out;
}

namespace {
bool hold = false;
void** held = nullptr;
size_t held_n = 0, held_cap = 0;
}  // namespace
void Hold() { hold = true; }
void Release() {
  hold = false;
  for (size_t i = 0; i < held_n; ++i) free(held[i]);
  held_n = 0;
}
static void Drop(void* p) {
  if (!p) return;
  if (!hold) { free(p); return; }
  memset(p, 0xDD, malloc_usable_size(p));
  if (held_n == held_cap) { held_cap = held_cap ? 2 * held_cap : 4096; held = (void**)realloc(held, held_cap * sizeof(void*)); }
  held[held_n++] = p;
}
static inline void Mem(const void* p) {
  if (tl < 0 || st.min_kind > kMem) return;
  const char* c = (const char*)p;
  if (c >= pool[tl]->lo && c < pool[tl]->hi) return;
  Point(kMem);
}
}  // namespace ctl

void* operator new(size_t s) { void* p = malloc(s ? s : 1); if (!p) abort(); return p; }
void* operator new[](size_t s) { return operator new(s); }
void* operator new(size_t s, std::align_val_t a) { size_t al = (size_t)a < sizeof(void*) ? sizeof(void*) : (size_t)a; void* p = nullptr; if (posix_memalign(&p, al, s ? s : 1)) abort(); return p; }
void* operator new[](size_t s, std::align_val_t a) { return operator new(s, a); }
void operator delete(void* p) noexcept { ctl::Drop(p); }
void operator delete[](void* p) noexcept { ctl::Drop(p); }
void operator delete(void* p, size_t) noexcept { ctl::Drop(p); }
void operator delete[](void* p, size_t) noexcept { ctl::Drop(p); }
void operator delete(void* p, std::align_val_t) noexcept { ctl::Drop(p); }
void operator delete[](void* p, std::align_val_t) noexcept { ctl::Drop(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { ctl::Drop(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { ctl::Drop(p); }

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* p) { ctl::Mem(p); } \
  void __tsan_write##n(void* p) { ctl::Mem(p); } \
  void __tsan_unaligned_read##n(void* p) { ctl::Mem(p); } \
  void __tsan_unaligned_write##n(void* p) { ctl::Mem(p); } \
  void __tsan_read##n##_pc(void* p, void*) { ctl::Mem(p); } \
  void __tsan_write##n##_pc(void* p, void*) { ctl::Mem(p); } \
  void __tsan_volatile_read##n(void* p) { ctl::Mem(p); } \
  void __tsan_volatile_write##n(void* p) { ctl::Mem(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long) { ctl::Mem(p); }
void __tsan_write_range(void* p, unsigned long) { ctl::Mem(p); }
void __tsan_vptr_update(void** p, void*) { ctl::Mem(p); }
void __tsan_vptr_read(void** p) { ctl::Mem(p); }
#define AT(N, T) \
  T __tsan_atomic##N##_load(const volatile T* a, int) { ctl::Point(ctl::kAtomic); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##N##_store(volatile T* a, T v, int) { ctl::Point(ctl::kAtomic); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { ctl::Point(ctl::kAtomic); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { ctl::Point(ctl::kAtomic); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { ctl::Point(ctl::kAtomic); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { ctl::Point(ctl::kAtomic); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { ctl::Point(ctl::kAtomic); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { ctl::Point(ctl::kAtomic); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) { ctl::Point(ctl::kAtomic); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { ctl::Point(ctl::kAtomic); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { ctl::Point(ctl::kAtomic); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) { ctl::Point(ctl::kAtomic); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { ctl::Point(ctl::kAtomic); }
void __tsan_atomic_signal_fence(int) {}
}
