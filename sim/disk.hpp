// Simulated disk: every file below /simdisk/ lives in memory; each open, read,
// write and close the code under test performs on it (through the C++ file
// streams) is decided by the current fault specification.
#pragma once
#include "core/sim.hpp"

namespace sim::disk {
enum Kind : u64 {
  NONE,
  SHORT,     // reads/writes are split arbitrarily
  FAIL_AT,   // error from byte offset `at` on (EIO on read, ENOSPC on write)
  FAIL_ONCE, // one error at byte offset `at`, success afterwards
  CLOSE_ERR, // close reports an error and the tail is lost
  OPEN_ERR,
  INTR // EINTR now and then
};
struct Spec {
  Kind kind = NONE;
  u64 at = 0;
  u64 seed = 0;
};
void reset();              // empty disk, no faults
void set(const Spec& s);   // faults for the following operations
bool fired();              // an error was reported to the code under test
u64 calls();               // reads and writes since set()
u64 openFiles();
bool exists(const std::string& path);
std::string content(const std::string& path);
void put(const std::string& path, const std::string& content);
} // namespace sim::disk
