// Systems of many qubits whose states have few non-zero amplitudes.
#pragma once
#include "core/sim.hpp"

namespace wide {
// a wide plan for property `prop`
sim::Plan gen(sim::u64 seed, const char* prop);
void run(const sim::Plan& p, sim::Ctx& c, const char* prop);
// every `per`-th seed gets a wide plan
inline bool isWide(const sim::Plan& p) { return p.knob("wide", 0) != 0; }
inline bool pick(sim::u64 seed, sim::u64 per) {
  return sim::mix(seed * 0x9e37 + 5) % per == 0;
}
} // namespace wide
