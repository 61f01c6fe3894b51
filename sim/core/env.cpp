// Entropy and clock seam: std::random_device, rand, getrandom and the clocks
// answer from seeded streams while a script is active.
#include "sim.hpp"

#include <cstdlib>
#include <ctime>
#include <random>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

namespace sim::env {
namespace {
bool active = false;
u64 entropy = 0;
u64 clk = 0;
u64 nDraws = 0;
u64 nTicks = 0;
u64 draw() {
  nDraws++;
  entropy += 0x9e3779b97f4a7c15ULL;
  return mix(entropy);
}
u64 tick() { // nanoseconds
  nTicks++;
  clk += 1 + mix(clk) % 100000;
  return clk;
}
} // namespace
void script(const u64 e, const u64 c) {
  active = true;
  entropy = mix(e);
  clk = (u64{1500000000} + c % 500000000) * 1000000000ULL;
  nDraws = 0;
}
u64 draws() { return nDraws; }
u64 ticks() { return nTicks; }
} // namespace sim::env

using namespace sim;

void std::random_device::_M_init(const std::string&) {}
void std::random_device::_M_init_pretr1(const std::string&) {}
void std::random_device::_M_fini() {}
std::random_device::result_type std::random_device::_M_getval() {
  if (env::active) {
    return static_cast<result_type>(env::draw());
  }
  u64 v = 0;
  syscall(SYS_getrandom, &v, sizeof v, 0);
  return static_cast<result_type>(v);
}
std::random_device::result_type std::random_device::_M_getval_pretr1() {
  return _M_getval();
}

extern "C" {
int clock_gettime(clockid_t id, struct timespec* t) noexcept {
  if (!env::active) {
    return static_cast<int>(syscall(SYS_clock_gettime, id, t));
  }
  const u64 v = env::tick();
  t->tv_sec = static_cast<time_t>(v / 1000000000ULL);
  t->tv_nsec = static_cast<long>(v % 1000000000ULL);
  return 0;
}
time_t time(time_t* out) noexcept {
  struct timespec t {};
  clock_gettime(CLOCK_REALTIME, &t);
  if (out != nullptr) {
    *out = t.tv_sec;
  }
  return t.tv_sec;
}
int gettimeofday(struct timeval* tv, void*) noexcept {
  struct timespec t {};
  clock_gettime(CLOCK_REALTIME, &t);
  if (tv != nullptr) {
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
  }
  return 0;
}
clock_t clock() noexcept {
  struct timespec t {};
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return static_cast<clock_t>(t.tv_sec * 1000000 + t.tv_nsec / 1000);
}
int rand() noexcept {
  static u64 s = 1;
  return static_cast<int>((env::active ? env::draw() : s = mix(s)) &
                          0x7fffffffU);
}
long random() noexcept { return rand(); }
ssize_t getrandom(void* p, size_t n, unsigned int flags) {
  if (!env::active) {
    return syscall(SYS_getrandom, p, n, flags);
  }
  for (size_t i = 0; i < n; i++) {
    static_cast<unsigned char*>(p)[i] =
        static_cast<unsigned char>(env::draw());
  }
  return static_cast<ssize_t>(n);
}
}
