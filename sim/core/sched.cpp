// The thread scheduler: real threads, one of which runs at any time. Basic
// blocks of instrumented code call __sanitizer_cov_trace_pc.
#include "sim.hpp"

#include <algorithm>
#include <cerrno>
#include <linux/futex.h>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" char __data_start;
extern "C" char _end;

namespace sim::sched {
namespace {
bool active = false;
u64 blocks = 0;
u64 nextSwitch = ~u64{0}; // block count of the next preemption
int current = 0;
int nThreads = 0;
constexpr int MAXT = 8;
struct Slot {
  int turn = 0; // futex
  bool done = false;
};
Slot slots[MAXT];
int mainTurn = 0;
thread_local int self = -1;
thread_local int nested = 0;
Spec spec;
std::size_t nextAt = 0;
u64 dseed = 0;
u64 nextDense = ~u64{0};
Result res;
u64 spins = 0; // lock waits since the last completed block of progress

// ---------------------------------------------------------- happens-before
using Clock = std::uint32_t;
struct VC {
  Clock c[MAXT];
};
VC vc[MAXT];
struct SyncVar {
  const void* addr;
  VC v;
};
constexpr std::size_t NSYNC = std::size_t{1} << 14U;
SyncVar* syncs = nullptr; // open addressing
struct Cell { // last write and last reads
  std::uint32_t w; // clock, thread in the upper bits
  Clock r[3];
};
constexpr std::uint32_t CLK = (1U << 28U) - 1;
Cell* gcells = nullptr; // one per byte of global data
Cell* hcells = nullptr; // one per 8 bytes of heap
const char* glo = nullptr;
const char* ghi = nullptr;
const char* hlo = nullptr;
const char* hhi = nullptr;
constexpr std::size_t NPLACE = std::size_t{1} << 17U;
const void** placeTab = nullptr;
u64 watchSeen = 0;
u64 watchHits = 0;
u64 sinceSwitch = 0;

template <class T> T* reserve(std::size_t n) {
  void* p = mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    const char m[] = "sim: shadow mmap failed\n";
    [[maybe_unused]] auto r = write(2, m, sizeof m - 1);
    _exit(97);
  }
  madvise(p, n * sizeof(T), MADV_HUGEPAGE);
  return static_cast<T*>(p);
}
SyncVar& syncOf(const void* a) {
  auto i = mix(reinterpret_cast<u64>(a)) % NSYNC;
  for (std::size_t k = 0; k < NSYNC; k++, i = (i + 1) % NSYNC) {
    if (syncs[i].addr == nullptr) {
      syncs[i].addr = a;
    }
    if (syncs[i].addr == a) {
      return syncs[i];
    }
  }
  return syncs[i];
}
void acquire(const void* a) {
  if (!active || self < 0) {
    return;
  }
  const auto& v = syncOf(a).v;
  for (int t = 0; t < MAXT; t++) {
    vc[self].c[t] = std::max(vc[self].c[t], v.c[t]);
  }
}
void release(const void* a) {
  if (!active || self < 0) {
    return;
  }
  auto& v = syncOf(a).v;
  for (int t = 0; t < MAXT; t++) {
    v.c[t] = std::max(v.c[t], vc[self].c[t]);
  }
  vc[self].c[self]++;
}
void raced(const void* a, std::size_t n, bool w, const void* pc, u64 other) {
  if (res.races++ == 0) {
    res.first = {a, pc, w, other, n};
  }
}
inline void check(Cell& c, const void* a, std::size_t n, bool w,
                  const void* pc) {
  const auto wt = static_cast<int>(c.w >> 28U);
  if (c.w != 0 && wt != self && (c.w & CLK) > vc[self].c[wt]) {
    raced(a, n, w, pc, static_cast<u64>(wt));
  }
  if (w) {
    for (int t = 0; t < 3; t++) {
      if (t != self && c.r[t] > vc[self].c[t]) {
        raced(a, n, w, pc, static_cast<u64>(t));
      }
    }
    c.w = (static_cast<std::uint32_t>(self) << 28U) |
          (vc[self].c[self] & CLK);
  } else {
    c.r[self] = vc[self].c[self];
  }
}

void wait(int* f) {
  while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) {
    syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
  __atomic_store_n(f, 0, __ATOMIC_RELAXED);
}
void wake(int* f) {
  __atomic_store_n(f, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
int pickOther() {
  int live[MAXT];
  int n = 0;
  for (int k = 1; k <= nThreads; k++) {
    const int t = (current + k) % nThreads;
    if (t != current && !slots[t].done) {
      live[n++] = t;
    }
  }
  if (n == 0) {
    return -1;
  }
  dseed = mix(dseed);
  return live[dseed % static_cast<u64>(n)];
}
void plan() {
  nextSwitch = ~u64{0};
  while (nextAt < spec.at.size() && spec.at[nextAt] <= blocks) {
    nextAt++;
  }
  if (nextAt < spec.at.size()) {
    nextSwitch = spec.at[nextAt];
  }
  if (spec.dense > 0) {
    dseed = mix(dseed);
    u64 d = blocks + 1 + dseed % (u64{2} << spec.dense);
    if (d < spec.lo) {
      d = spec.lo + dseed % (u64{1} << spec.dense);
    }
    if (d < spec.hi) {
      nextSwitch = std::min(nextSwitch, d);
    }
  }
}
void switchTo(int t) {
  current = t;
  wake(&slots[t].turn);
  wait(&slots[self].turn);
}
void preempt(const void* pc) {
  plan();
  sinceSwitch = 0;
  const int t = pickOther();
  if (t < 0) {
    return;
  }
  res.switches++;
  res.hash = mix(res.hash ^ blocks ^ (static_cast<u64>(t) << 56));
  res.hash = mix(res.hash ^ reinterpret_cast<u64>(pc));
  if (res.trace.size() < 16) {
    nested++;
    res.trace.emplace_back(blocks, pc);
    nested--;
  }
  switchTo(t);
}
struct Arg {
  const std::function<void()>* f;
  int id;
};
void* entry(void* p) {
  const auto* a = static_cast<Arg*>(p);
  self = a->id;
  arena::thread(static_cast<u64>(self));
  wait(&slots[self].turn);
  (*a->f)();
  nested++;
  slots[self].done = true;
  const int t = pickOther();
  if (t >= 0) {
    current = t;
    wake(&slots[t].turn);
  } else {
    wake(&mainTurn);
  }
  return nullptr;
}
} // namespace

// a lock is taken: let somebody else run
void yieldBlocked() {
  res.blocked++;
  const int t = pickOther();
  if (t < 0 || ++spins > 1000000) {
    // nobody can release it
    res.deadlock = true;
    const char m[] = "sim: deadlock\n";
    [[maybe_unused]] auto r = write(2, m, sizeof m - 1);
    _exit(77);
  }
  switchTo(t);
}
bool inThread() { return active && self >= 0; }

Result run(const std::vector<std::function<void()>>& threads, const Spec& s) {
  spec = s;
  nThreads = static_cast<int>(std::min<std::size_t>(threads.size(), 3));
  blocks = 0;
  nextAt = 0;
  dseed = mix(s.seed);
  res = {};
  res.trace.reserve(16);
  spins = 0;
  watchSeen = 0;
  watchHits = 0;
  sinceSwitch = 0;
  if (syncs == nullptr) {
    syncs = reserve<SyncVar>(NSYNC);
    glo = reinterpret_cast<const char*>(&__data_start);
    ghi = reinterpret_cast<const char*>(&_end);
    const auto [lo, hi] = arena::range();
    hlo = static_cast<const char*>(lo);
    hhi = static_cast<const char*>(hi);
    madvise(const_cast<void*>(lo), static_cast<std::size_t>(hhi - hlo), MADV_HUGEPAGE);
    gcells = reserve<Cell>(static_cast<std::size_t>(ghi - glo));
    hcells = reserve<Cell>(static_cast<std::size_t>(hhi - hlo) / 8);
    placeTab = reserve<const void*>(NPLACE);
  }
  for (int t = 0; t < MAXT; t++) {
    vc[t] = {};
    vc[t].c[t] = 1;
  }
  // one processor: a hand-over is a context switch, not a wake-up
  cpu_set_t before;
  sched_getaffinity(0, sizeof before, &before);
  const int cpu = sched_getcpu();
  if (cpu >= 0) {
    cpu_set_t one;
    CPU_ZERO(&one);
    CPU_SET(cpu, &one);
    sched_setaffinity(0, sizeof one, &one);
  }
  std::vector<Arg> args(MAXT);
  std::vector<pthread_t> ids(MAXT);
  for (int t = 0; t < nThreads; t++) {
    slots[t] = {};
    args[t] = {&threads[t], t};
    pthread_create(&ids[t], nullptr, entry, &args[t]);
  }
  plan();
  current = 0;
  active = true;
  wake(&slots[0].turn);
  wait(&mainTurn);
  active = false;
  for (int t = 0; t < nThreads; t++) {
    pthread_join(ids[t], nullptr);
  }
  sched_setaffinity(0, sizeof before, &before);
  res.blocks = blocks;
  for (std::size_t i = 0; spec.record && i < NPLACE; i++) {
    if (placeTab[i] != nullptr) {
      res.places.push_back(placeTab[i]);
    }
  }
  std::sort(res.places.begin(), res.places.end());
  return res;
}
} // namespace sim::sched

using namespace sim::sched;

namespace sim::sched {
namespace {
inline void tick(const void* pc) {
  spins = 0;
  ++blocks;
  if (spec.record) {
    auto i = mix(reinterpret_cast<u64>(pc)) % NPLACE;
    for (int k = 0; k < 64 && placeTab[i] != pc; k++, i = (i + 1) % NPLACE) {
      if (placeTab[i] == nullptr) {
        placeTab[i] = pc;
        break;
      }
    }
  }
  // somebody else gets a turn however long a loop runs
  if (blocks >= nextSwitch || ++sinceSwitch > 20000000) {
    preempt(pc);
    return;
  }
  for (const auto* w : spec.watch) {
    if (w == pc) {
      if (++watchSeen > spec.skip && watchHits < spec.hits) {
        watchHits++;
        preempt(pc);
      }
      return;
    }
  }
}
inline void access(const void* a, std::size_t n, bool w, const void* pc) {
  if (!active || self < 0 || nested > 0) {
    return;
  }
  const auto* p = static_cast<const char*>(a);
  if (p >= glo && p < ghi) {
    for (std::size_t i = 0; i < n && p + i < ghi; i++) {
      check(gcells[p + i - glo], a, n, w, pc);
    }
    res.shared++;
    tick(pc);
    if (spec.hot > 0) {
      dseed = mix(dseed);
      if (dseed % (u64{1} << (spec.hot - 1)) == 0) {
        preempt(pc);
      }
    }
  } else if (p >= hlo && p < hhi) {
    const auto lo = static_cast<std::size_t>(p - hlo) / 8;
    const auto hi = static_cast<std::size_t>(p + n - 1 - hlo) / 8;
    for (auto i = lo; i <= hi; i++) {
      check(hcells[i], a, n, w, pc);
    }
  }
}
} // namespace
} // namespace sim::sched

#define PC __builtin_return_address(0)
extern "C" {
void __sanitizer_cov_trace_pc() {
  if (!active || self < 0 || nested > 0) {
    return;
  }
  tick(PC);
}
// ---------------------------------------- memory accesses (-fsanitize=thread)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACCESS(N)                                                              \
  void __tsan_read##N(void* a) { access(a, N, false, PC); }                    \
  void __tsan_write##N(void* a) { access(a, N, true, PC); }                    \
  void __tsan_unaligned_read##N(void* a) { access(a, N, false, PC); }          \
  void __tsan_unaligned_write##N(void* a) { access(a, N, true, PC); }          \
  void __tsan_volatile_read##N(void* a) { access(a, N, false, PC); }           \
  void __tsan_volatile_write##N(void* a) { access(a, N, true, PC); }
ACCESS(1)
ACCESS(2)
ACCESS(4)
ACCESS(8)
ACCESS(16)
void __tsan_read_range(void* a, unsigned long n) {
  if (n > 0) {
    access(a, n, false, PC);
  }
}
void __tsan_write_range(void* a, unsigned long n) {
  if (n > 0) {
    access(a, n, true, PC);
  }
}
void __tsan_vptr_update(void** a, void* v) {
  if (*a != v) {
    access(a, 8, true, PC);
  }
}
void __tsan_vptr_read(void** a) { access(a, 8, false, PC); }
}
namespace {
// one thread runs at a time: plain operations are atomic; they order threads
template <class T, class F> T rmw(volatile T* a, int, const void* pc, F f) {
  if (active && self >= 0 && nested == 0) {
    tick(pc);
  }
  acquire(const_cast<T*>(a));
  const T old = *a;
  *a = f(old);
  release(const_cast<T*>(a));
  return old;
}
} // namespace
extern "C" {
#define ATOMIC(B, T)                                                           \
  T __tsan_atomic##B##_load(const volatile T* a, int) {                        \
    acquire(const_cast<T*>(a));                                                \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                               \
  }                                                                            \
  void __tsan_atomic##B##_store(volatile T* a, T v, int) {                     \
    release(const_cast<T*>(a));                                                \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                  \
  }                                                                            \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int m) {                   \
    return rmw(a, m, PC, [&](T) { return v; });                                \
  }                                                                            \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int m) {                  \
    return rmw(a, m, PC, [&](T o) { return static_cast<T>(o + v); });          \
  }                                                                            \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int m) {                  \
    return rmw(a, m, PC, [&](T o) { return static_cast<T>(o - v); });          \
  }                                                                            \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int m) {                  \
    return rmw(a, m, PC, [&](T o) { return static_cast<T>(o & v); });          \
  }                                                                            \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int m) {                   \
    return rmw(a, m, PC, [&](T o) { return static_cast<T>(o | v); });          \
  }                                                                            \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int m) {                  \
    return rmw(a, m, PC, [&](T o) { return static_cast<T>(o ^ v); });          \
  }                                                                            \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int m) {                 \
    return rmw(a, m, PC, [&](T o) { return static_cast<T>(~(o & v)); });       \
  }                                                                            \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v,     \
                                                 int m, int) {                 \
    const T want = *c;                                                         \
    const T old =                                                              \
        rmw(a, m, PC, [&](T o) { return o == want ? v : o; });                 \
    *c = old;                                                                  \
    return old == want ? 1 : 0;                                                \
  }                                                                            \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v,       \
                                               int m, int n) {                 \
    return __tsan_atomic##B##_compare_exchange_strong(a, c, v, m, n);          \
  }                                                                            \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int m,    \
                                            int) {                             \
    return rmw(a, m, PC, [&](T o) { return o == c ? v : o; });                 \
  }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------ simulated locks
#define REAL(R, N, A)                                                          \
  static R (*real)(A) = nullptr;                                               \
  if (real == nullptr) {                                                       \
    real = reinterpret_cast<R (*)(A)>(dlsym(RTLD_NEXT, #N));                   \
  }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  REAL(int, pthread_mutex_trylock, pthread_mutex_t*)
  const int r = real(m);
  if (r == 0) {
    acquire(m);
  }
  return r;
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  // owner kept in a side table: one thread runs at a time
  while (pthread_mutex_trylock(m) == EBUSY) {
    if (!inThread()) {
      syscall(SYS_sched_yield);
      continue;
    }
    yieldBlocked();
  }
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  REAL(int, pthread_mutex_unlock, pthread_mutex_t*)
  release(m);
  return real(m);
}
int __cxa_guard_acquire(unsigned long long* g) noexcept {
  auto* b = reinterpret_cast<unsigned char*>(g);
  for (;;) {
    if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE) != 0) {
      acquire(g);
      return 0;
    }
    if (b[1] == 0) {
      b[1] = 1;
      acquire(g); // from an initialisation that failed
      return 1;
    }
    if (inThread()) {
      yieldBlocked();
    } else {
      syscall(SYS_sched_yield);
    }
  }
}
void __cxa_guard_release(unsigned long long* g) noexcept {
  auto* b = reinterpret_cast<unsigned char*>(g);
  b[1] = 0;
  release(g);
  __atomic_store_n(&b[0], 1, __ATOMIC_RELEASE);
}
void __cxa_guard_abort(unsigned long long* g) noexcept {
  release(g);
  reinterpret_cast<unsigned char*>(g)[1] = 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept {
  REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*)
  const int r = real(m);
  if (r == 0) {
    acquire(m);
  }
  return r;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept {
  REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t*)
  const int r = real(m);
  if (r == 0) {
    acquire(m);
  }
  return r;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
  REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*)
  release(m);
  return real(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
  while (pthread_rwlock_tryrdlock(m) == EBUSY) {
    if (inThread()) {
      yieldBlocked();
    } else {
      syscall(SYS_sched_yield);
    }
  }
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept {
  while (pthread_rwlock_trywrlock(m) == EBUSY) {
    if (inThread()) {
      yieldBlocked();
    } else {
      syscall(SYS_sched_yield);
    }
  }
  return 0;
}
int pthread_once(pthread_once_t* o, void (*f)()) noexcept(false) {
  // 0 new, 1 running, 2 done
  auto* s = reinterpret_cast<int*>(o);
  for (;;) {
    if (*s == 2) {
      acquire(o);
      return 0;
    }
    if (*s == 0) {
      *s = 1;
      f();
      *s = 2;
      release(o);
      return 0;
    }
    if (inThread()) {
      yieldBlocked();
    } else {
      syscall(SYS_sched_yield);
    }
  }
}
}
