// Core of the deterministic simulator: PRNG, plans, run context, arena, disk.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace sim {
using u64 = std::uint64_t;

inline u64 mix(u64 z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(mix(seed ^ 0x5bd1e995)) {}
  u64 next() {
    s += 0x9e3779b97f4a7c15ULL;
    u64 z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n == 0 ? 0 : next() % n; }
  u64 range(u64 lo, u64 hi) { return lo + below(hi - lo + 1); }
  double unit() { return static_cast<double>(next() >> 11) * 0x1.0p-53; }
  bool chance(double p) { return unit() < p; }
  template <class T> const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
};

// ---------------------------------------------------------------- plans
struct Step {
  std::string op;
  std::vector<u64> a;
  std::string s; // optional text payload (rest of the line after '|')
  u64 at(std::size_t i) const { return i < a.size() ? a[i] : 0; }
};
struct Plan {
  std::string prop;
  std::vector<Step> steps;
  void add(const std::string& op, std::vector<u64> a = {},
           const std::string& s = "") {
    steps.push_back({op, std::move(a), s});
  }
  std::string text() const;
  static Plan parse(const std::string& t);
  // knob value (first matching `knob <name> v` step) or a default
  u64 knob(const std::string& name, u64 def) const;
};

// ---------------------------------------------------------------- context
struct Violation {
  std::string cls, msg;
};
// Thrown by the harness to end a run with a violation. Not a std::exception on
// purpose: code under test must not be able to swallow it.
struct Stop {};

struct Ctx {
  bool verbose = false;
  u64 hash = 1469598103934665603ULL;
  std::vector<std::string> log;
  std::map<std::string, u64> counters;
  std::vector<u64> keys; // coverage keys
  bool violated = false;
  Violation v;
  u64 steps = 0;
  bool nontrivial = false;

  void feed(const void* p, std::size_t n) {
    const auto* b = static_cast<const unsigned char*>(p);
    for (std::size_t i = 0; i < n; i++) {
      hash = (hash ^ b[i]) * 1099511628211ULL;
    }
  }
  void feed(u64 x) { feed(&x, sizeof x); }
  void feed(double x) { feed(&x, sizeof x); }
  void ev(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  void count(const std::string& k, u64 n = 1) { counters[k] += n; }
  void cover(u64 k) { keys.push_back(mix(k)); }
  [[noreturn]] void fail(const std::string& cls, const char* fmt, ...)
      __attribute__((format(printf, 3, 4)));
};
extern Ctx* g; // current run

// ---------------------------------------------------------------- scenarios
struct Scenario {
  std::string prop;
  Plan (*gen)(u64 seed);
  void (*run)(const Plan&, Ctx&);
  unsigned cpuSeconds = 20;
};
std::vector<Scenario>& scenarios();
struct Register {
  Register(const char* prop, Plan (*gen)(u64), void (*run)(const Plan&, Ctx&),
           unsigned cpu = 20) {
    scenarios().push_back({prop, gen, run, cpu});
  }
};

// ---------------------------------------------------------------- arena
namespace arena {
// Layout of future allocations: all decided by `seed`.
void configure(u64 seed, bool fifo, bool poison, u64 padMax);
// A fresh layout in a region of its own; earlier objects stay valid.
// Blocks of 1 KB and more are placed up to `far` bytes apart.
void world(u64 region, u64 seed, bool fifo, bool poison, u64 pad, u64 far);
// Fail the k-th allocation from now (k>=1), `times` consecutive failures.
void arm(u64 k, u64 times = 1);
bool disarm();      // returns true if the armed failure fired
u64 allocCount();   // number of allocations so far
bool owns(const void* p);
// Allocations of the calling thread come from a pool of its own.
void thread(u64 t);
std::pair<const void*, const void*> range();
} // namespace arena

// ---------------------------------------------------------------- environment
// Sources of entropy and time seen by the code under test. Off by default.
namespace env {
void script(u64 entropy, u64 clock); // from now on, values from these streams
u64 draws();                         // entropy values handed out
u64 ticks();                         // clock reads answered
} // namespace env

// ---------------------------------------------------------------- threads
// Threads of the code under test take turns: exactly one runs at any time.
// Every basic block of instrumented code is a possible switching point; the
// switches happen at given block counts (`at`, sorted) and, with dense = k > 0,
// at seeded points about every 2^k blocks while the count is in [lo, hi).
// Locks taken by the code under test are simulated as well.
namespace sched {
struct Spec {
  std::vector<u64> at;
  u64 dense = 0, seed = 0, lo = 0, hi = ~u64{0};
  u64 hot = 0;   // one in 2^(hot-1) accesses to global data preempts (0: none)
  std::vector<const void*> watch; // code locations that preempt, `hits` times
  u64 hits = 0, skip = 0;
  bool record = false; // code locations reached
};
struct Race {
  const void* addr = nullptr;
  const void* pc = nullptr;
  bool write = false;
  u64 other = 0;
  u64 size = 0;
};
struct Result {
  u64 blocks = 0;   // basic blocks executed
  u64 switches = 0; // preemptions
  u64 blocked = 0;  // waits for a lock held by another thread
  bool deadlock = false;
  u64 hash = 0;     // of the executed interleaving
  std::vector<std::pair<u64, const void*>> trace; // first switching points
  u64 races = 0;    // conflicting accesses without synchronisation between them
  Race first;
  u64 shared = 0;   // accesses to global data
  std::vector<const void*> places;
};
Result run(const std::vector<std::function<void()>>& threads, const Spec& s);
} // namespace sched

// scope in which armed allocation failures may fire (code under test)
struct SutScope {
  SutScope();
  ~SutScope();
};
struct NoFault { // harness work inside a SUT scope
  bool saved;
  NoFault();
  ~NoFault();
};

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
} // namespace sim
