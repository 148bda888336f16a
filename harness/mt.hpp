// Simulated threads: the code under test is compiled with clang's thread-sanitizer instrumentation but linked against the
// run-time in mt.cpp. Real threads execute it one at a time; which one goes on after which memory access is drawn from
// the run's choices, and every access is checked against a happens-before clock.
#pragma once
#include "../sim/core.hpp"
#include <functional>
#include <string>
#include <vector>
namespace mt {
// Runs the bodies as concurrent threads until all have ended. Threads are switched on average every `gap` accesses to
// memory that is not their own stack. Data races, deadlocks and escaping exceptions end the run.
void run(sim::Ctx &c, const std::vector<std::function<void()>> &bodies, unsigned gap);
struct Stats { std::uint64_t accesses = 0, switches = 0, locks = 0, atomics = 0; };
Stats last();
} // namespace mt
