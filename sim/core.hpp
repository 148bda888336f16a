// Deterministic simulation core: one seed (or one recorded choice trace) decides everything.
//
//  * Ctx::pick(n) is the only source of nondeterminism; every draw is appended to the trace.
//    Choice 0 is by convention the benign / simplest alternative, so truncating or zeroing a
//    trace yields a simpler run (used by the minimiser).
//  * The driver forks workers, runs scenarios, catches violations (fail(), sanitizer reports,
//    crashes, CPU-time hangs), confirms them in a fresh process, minimises the choice trace
//    and writes a replay file.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <string>
#include <string_view>
#include <vector>

namespace sim {

struct Ctx {
  // ---- choices
  std::uint32_t pick(std::uint32_t n);             // uniform in [0,n); n<=1 -> 0 (not recorded)
  bool chance(std::uint32_t num, std::uint32_t den); // true with probability num/den; false is benign
  std::uint64_t bits64();                          // two recorded draws
  std::uint32_t range(std::uint32_t lo, std::uint32_t hi) { return lo + pick(hi - lo + 1); } // inclusive
  template <class... T> std::uint32_t weighted(T... w) { // index by weight; first alternative is the benign one
    std::uint32_t ws[] = {static_cast<std::uint32_t>(w)...}, tot = 0;
    for (auto x : ws) tot += x;
    std::uint32_t r = pick(tot), i = 0;
    while (r >= ws[i]) r -= ws[i++];
    return i;
  }
  // ---- recording
  void fault(const char *kind);                    // a fault actually fired
  void probe(const char *name);                    // a rare condition was reached
  void state(std::uint64_t h);                     // a distinct-state sample
  void ev(const char *fmt, ...) __attribute__((format(printf, 2, 3))); // event log (hashed; printed on replay)
  void evh(const char *what, const void *p, std::size_t n); // log a blob by hash
  void step(std::uint64_t sim_time_us = 1) { sim_time += sim_time_us; ++steps; }
  [[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
  [[noreturn]] void vfail(const char *cls, const std::string &msg) { fail(cls, "%s", msg.c_str()); }
  void nontrivial() { interesting = true; }        // run counts as non-trivial evidence

  std::uint64_t hash = 0;
  std::uint64_t sim_time = 0, steps = 0;
  bool interesting = false;
  bool verbose = false;
  // ---- internals
  std::uint64_t rng[2]{};
  const std::uint32_t *replay = nullptr;
  std::size_t replay_n = 0, replay_pos = 0;
  std::vector<std::string> *log = nullptr;
  std::uint64_t next();
};

using RunFn = void (*)(Ctx &);
struct Scenario {
  const char *property;
  const char *name;
  RunFn fn;
  unsigned weight;
  Scenario *next;
  Scenario(const char *p, const char *n, RunFn f, unsigned w);
};
#define SIM_CAT2(a, b) a##b
#define SIM_CAT(a, b) SIM_CAT2(a, b)
// one scenario of a property's simulation
#define SIM_SCENARIO(prop, name, weight, fn) \
  static ::sim::Scenario SIM_CAT(sim_scn_, __COUNTER__){prop, name, fn, weight};

// runs f in a process of its own, so that nothing it leaves behind in the process (lazily made static objects, caches)
// reaches the next run; what it records and how it ends becomes the caller's
void isolated(Ctx &c, RunFn f);
int driver_main(int argc, char **argv); // provided by core.cpp

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  return h ^ (h >> 32);
}
std::uint64_t hash_bytes(const void *p, std::size_t n, std::uint64_t seed = 0x1234567);

// Instrumented global heap (core_alloc.cpp). All zero-cost while not armed.
struct HeapScope { // live-allocation ledger + byte accounting for the current thread's code between ctor and end()
  HeapScope();
  ~HeapScope();
  void fail_after(std::int64_t n, std::int64_t span = 1); // `span` allocations in a row fail; n-th allocation from now fails (0 = the next); -1: never
  void suspend();                  // stop counting/failing (harness code)
  void resume();
  std::uint64_t count() const;     // allocations seen
  std::uint64_t bytes() const;     // bytes requested
  std::uint64_t peak() const;      // peak live bytes
  std::uint64_t live() const;      // live allocations made while armed
  bool fired() const;              // an injected failure happened
};
void heap_scatter(std::uint64_t seed); // from now on allocations land at drawn places with drawn contents (0: off)
bool heap_tick(); // counts one allocation of another resource in the armed scope; true: it must fail
struct HeapPause { // harness code inside an armed scope
  HeapPause(); ~HeapPause(); bool was;
};
} // namespace sim
