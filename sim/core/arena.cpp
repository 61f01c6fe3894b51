// Deterministic heap: operator new/delete on a fixed-address arena whose layout
// (placement, reuse order, padding, poison) is a function of the run's seed,
// with injectable allocation failure.
#include "sim.hpp"

#include <cerrno>
#include <cstdlib>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

namespace sim {
namespace {
constexpr std::size_t ARENA_SIZE = std::size_t{24} << 30U;
constexpr std::uintptr_t ARENA_BASE = 0x200000000000ULL;
constexpr std::size_t HDR = 16;
constexpr int NCLS = 64;
constexpr std::size_t POISON_MAX = std::size_t{64} << 10U;

struct Free {
  Free* next;
};
struct Hdr {
  std::uint32_t cls;
  std::uint32_t magic;
  std::uint64_t size;
};
char* base = nullptr;
// one pool per simulated thread: no thread reuses what another one freed
struct Pool {
  char* cur;
  char* end;
  Free* head[NCLS];
  Free* tail[NCLS];
};
constexpr std::uint32_t POOLS = 8;
Pool pools[POOLS];
thread_local std::uint32_t pool = 0;
u64 layoutState = 0;
bool fifo = false;
bool poison = true;
u64 padMax = 0;
u64 farMax = 0;
unsigned char fresh = 0xA5;
thread_local u64 armed = 0;
thread_local u64 armedTimes = 0;
thread_local bool fired = false;
u64 nallocs = 0;
thread_local int sutDepth = 0;

void init() {
  if (base != nullptr) {
    return;
  }
  void* p = mmap(reinterpret_cast<void*>(ARENA_BASE), ARENA_SIZE,
                 PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                     MAP_FIXED_NOREPLACE,
                 -1, 0);
  if (p == MAP_FAILED) {
    const char m[] = "sim: arena mmap failed\n";
    [[maybe_unused]] auto r = write(2, m, sizeof m - 1);
    _exit(97);
  }
  base = static_cast<char*>(p);
  pools[0].cur = base + 4096;
  pools[0].end = base + ARENA_SIZE;
}

int classOf(std::size_t n, std::size_t& cap) {
  // 16..1024 in steps of 16 (classes 0..63 would overflow) -> use geometric
  // classes with 4 sub-steps per power of two
  if (n < 16) {
    n = 16;
  }
  if (n <= 128) {
    const auto c = (n + 15) / 16; // 1..8
    cap = c * 16;
    return static_cast<int>(c - 1);
  }
  int lg = 63 - __builtin_clzll(n - 1); // n in (2^lg, 2^(lg+1)]
  const std::size_t step = std::size_t{1} << (lg - 1);
  const auto lo = std::size_t{1} << lg;
  const auto k = (n - lo + step - 1) / step; // 1..2
  cap = lo + (k * step);
  const int c = 8 + ((lg - 7) * 2) + static_cast<int>(k - 1);
  return c;
}

void* allocate(std::size_t n, std::size_t align) {
  init();
  nallocs++;
  if (sutDepth > 0 && armed > 0) {
    if (--armed == 0) {
      fired = true;
      if (--armedTimes > 0) {
        armed = 1;
      }
      return nullptr;
    }
  }
  if (n > (std::size_t{20} << 30U)) {
    return nullptr;
  }
  std::size_t want = n;
  if (align > 16) {
    want += align;
  }
  std::size_t cap = 0;
  const int c = classOf(want, cap);
  auto& [cur, end, head, tail] = pools[pool];
  char* user = nullptr;
  if (c < NCLS && head[c] != nullptr && align <= 16) {
    Free* f = head[c];
    head[c] = f->next;
    if (head[c] == nullptr) {
      tail[c] = nullptr;
    }
    user = reinterpret_cast<char*>(f);
  } else {
    std::size_t pad = 0;
    if (padMax > 0) {
      layoutState = mix(layoutState);
      pad = (layoutState % (padMax + 1)) & ~std::size_t{15};
    }
    if (farMax > 0 && n >= 1024) { // large blocks anywhere
      layoutState = mix(layoutState);
      if (layoutState % 4 != 0) {
        pad += ((layoutState >> 8) % farMax) & ~std::size_t{15};
      }
    }
    if (cur + pad + HDR + cap + align > end) {
      return nullptr;
    }
    user = cur + pad + HDR;
    if (align > 16) {
      auto a = (reinterpret_cast<std::uintptr_t>(user) + align - 1) &
               ~(static_cast<std::uintptr_t>(align) - 1);
      user = reinterpret_cast<char*>(a);
    }
    cur = user + cap;
    cur = reinterpret_cast<char*>(
        (reinterpret_cast<std::uintptr_t>(cur) + 15) & ~std::uintptr_t{15});
  }
  auto* h = reinterpret_cast<Hdr*>(user - HDR);
  h->cls = (align > 16 ? 255U : static_cast<std::uint32_t>(c)) | (pool << 16U);
  h->magic = 0x51A1A110U;
  h->size = n;
  if (poison) {
    std::memset(user, fresh, n < POISON_MAX ? n : POISON_MAX);
  }
  return user;
}

void release(void* p) {
  if (p == nullptr) {
    return;
  }
  auto* h = reinterpret_cast<Hdr*>(static_cast<char*>(p) - HDR);
  if (h->magic != 0x51A1A110U) {
    const char m[] = "sim: invalid or double free\n";
    [[maybe_unused]] auto r = write(2, m, sizeof m - 1);
    abort();
  }
  h->magic = 0xDEADF4EEU;
  if (poison) {
    std::memset(p, 0xDD, h->size < POISON_MAX ? h->size : POISON_MAX);
  }
  if ((h->cls >> 16U) != pool || (h->cls & 0xffffU) >= NCLS) {
    return;
  }
  auto& [cur, end, head, tail] = pools[pool];
  if (h->size > (std::size_t{1} << 20U)) {
    // give the pages back: a later reuse starts from zero pages again
    const auto a = (reinterpret_cast<std::uintptr_t>(p) + 8191) & ~4095ULL;
    const auto b =
        (reinterpret_cast<std::uintptr_t>(p) + h->size - 4096) & ~4095ULL;
    if (b > a) {
      madvise(reinterpret_cast<void*>(a), b - a, MADV_DONTNEED);
    }
  }
  auto* f = static_cast<Free*>(p);
  const auto c = h->cls & 0xffffU;
  if (fifo) {
    f->next = nullptr;
    if (tail[c] != nullptr) {
      tail[c]->next = f;
    } else {
      head[c] = f;
    }
    tail[c] = f;
  } else {
    f->next = head[c];
    head[c] = f;
    if (tail[c] == nullptr) {
      tail[c] = f;
    }
  }
}
} // namespace

namespace arena {
void configure(u64 seed, bool fifo_, bool poison_, u64 pad) {
  init();
  // Canonical starting point: nothing the process allocated or freed before
  // influences the placement of what follows.
  for (auto& p : pools) {
    p = {};
  }
  pool = 0;
  auto& cur = pools[0].cur;
  auto& end = pools[0].end;
  cur = base + (std::size_t{1} << 30U);
  end = cur + (std::size_t{3} << 30U);
  nallocs = 0;
  layoutState = mix(seed ^ 0xA11);
  fifo = fifo_;
  poison = poison_;
  padMax = pad;
  farMax = 0;
  static constexpr unsigned char pats[] = {0xA5, 0x00, 0xFF, 0x01};
  fresh = pats[(seed >> 3) % 4];
  // move the bump pointer so that the run's objects start at a seed-dependent
  // address
  if (pad > 0) {
    cur += (mix(seed ^ 0xB0B) % 65536) * 16;
  }
}
void world(u64 region, u64 seed, bool fifo_, bool poison_, u64 pad, u64 far) {
  auto* const keep = base + (std::size_t{4} << 30U);
  configure(seed, fifo_, poison_, pad);
  auto& cur = pools[0].cur;
  auto& end = pools[0].end;
  cur = keep + (region % 4) * (std::size_t{5} << 30U) + (cur - base) -
        (std::size_t{1} << 30U);
  end = keep + (region % 4 + 1) * (std::size_t{5} << 30U) - 4096;
  farMax = far;
}
void arm(u64 k, u64 times) {
  armed = k;
  armedTimes = times;
  fired = false;
}
bool disarm() {
  armed = 0;
  armedTimes = 0;
  return fired;
}
void thread(u64 t) {
  // its own gigabytes behind those of the main program
  pool = static_cast<std::uint32_t>(1 + t % (POOLS - 1));
  auto& q = pools[pool];
  if (q.cur == nullptr) {
    q.cur = base + (std::size_t{4 + 2 * (pool - 1)} << 30U) +
            (pools[0].cur - base) % 65536 / 16 * 16;
    q.end = base + (std::size_t{4 + 2 * pool} << 30U) - 4096;
  }
}
u64 allocCount() { return nallocs; }
bool owns(const void* p) { return p >= base && p < base + ARENA_SIZE; }
std::pair<const void*, const void*> range() { return {base, base + ARENA_SIZE}; }
} // namespace arena

SutScope::SutScope() { sutDepth++; }
SutScope::~SutScope() { sutDepth--; }
NoFault::NoFault() : saved(sutDepth > 0) {
  if (saved) {
    sutDepth--;
  }
}
NoFault::~NoFault() {
  if (saved) {
    sutDepth++;
  }
}
} // namespace sim

void* operator new(std::size_t n) {
  void* p = sim::allocate(n, 16);
  if (p == nullptr) {
    throw std::bad_alloc();
  }
  return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept {
  return sim::allocate(n, 16);
}
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept {
  return sim::allocate(n, 16);
}
void* operator new(std::size_t n, std::align_val_t a) {
  void* p = sim::allocate(n, static_cast<std::size_t>(a));
  if (p == nullptr) {
    throw std::bad_alloc();
  }
  return p;
}
void* operator new[](std::size_t n, std::align_val_t a) {
  return operator new(n, a);
}
void operator delete(void* p) noexcept { sim::release(p); }
void operator delete[](void* p) noexcept { sim::release(p); }
void operator delete(void* p, std::size_t) noexcept { sim::release(p); }
void operator delete[](void* p, std::size_t) noexcept { sim::release(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim::release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::release(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept {
  sim::release(p);
}
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept {
  sim::release(p);
}
void operator delete(void* p, const std::nothrow_t&) noexcept {
  sim::release(p);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept {
  sim::release(p);
}
