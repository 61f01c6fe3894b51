// Histories of the number table: values around the borders of its buckets.
#pragma once
#include "core/sim.hpp"

namespace num {
sim::Plan gen(sim::u64 seed, const char* prop);
void run(const sim::Plan& p, sim::Ctx& c, const char* prop);
inline bool isNum(const sim::Plan& p) { return p.knob("num", 0) != 0; }
inline bool pick(sim::u64 seed, sim::u64 per) {
  return sim::mix(seed * 0x51ed + 11) % per == 0;
}
} // namespace num
