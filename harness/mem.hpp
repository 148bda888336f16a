// Simulated memory resources: exact-size blocks, ledger, accounting, failure injection.
#pragma once
#include "../sim/core.hpp"
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory_resource>
#include <new>

namespace hv {
struct MrError { const char *what; };
// every block comes from malloc (ASan guards its ends); the ledger is harness memory
struct TrackMR final : std::pmr::memory_resource {
  std::map<const char *, std::size_t> blocks;
  std::uint64_t count = 0, bytes = 0, live_bytes = 0, peak = 0, freed = 0;
  std::int64_t fail_in = -1;
  bool fired = false, arena = false, shared = false; // shared: fails along with the instrumented heap
  std::uint64_t byte_cap = 1ull << 30;
  const char *bad = nullptr; // protocol violation seen (reported by the harness)
  explicit TrackMR(bool arena_mode = false) : arena(arena_mode) {}
  TrackMR(const TrackMR &) = delete;
  TrackMR &operator=(const TrackMR &) = delete;
  ~TrackMR() override { release(); }
  void release() {
    sim::HeapPause hp;
    for (auto &[p, n] : blocks) std::free(const_cast<char *>(p));
    blocks.clear(); live_bytes = 0;
  }
  bool owns(const void *q, std::size_t n) const {
    const char *p = static_cast<const char *>(q);
    auto it = blocks.upper_bound(p);
    if (it == blocks.begin()) return false;
    --it;
    return p >= it->first && p + n <= it->first + it->second;
  }
  void *do_allocate(std::size_t n, std::size_t al) override {
    if (shared && sim::heap_tick()) { fired = true; throw std::bad_alloc(); }
    sim::HeapPause hp;
    ++count; bytes += n;
    if (fail_in >= 0 && fail_in-- == 0) { fired = true; throw std::bad_alloc(); }
    if (n > byte_cap) throw std::bad_alloc();
    void *p = al > 16 ? std::aligned_alloc(al, (n + al - 1) / al * al) : std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    std::memset(p, 0xbe, n);
    blocks[static_cast<char *>(p)] = n ? n : 1;
    live_bytes += n;
    if (live_bytes > peak) peak = live_bytes;
    return p;
  }
  void do_deallocate(void *p, std::size_t n, std::size_t) override {
    sim::HeapPause hp;
    auto it = blocks.find(static_cast<char *>(p));
    if (it == blocks.end()) { bad = "deallocate of a block this resource did not hand out (or twice)"; return; }
    if (it->second != (n ? n : 1)) bad = "deallocate with a size different from the allocation";
    ++freed;
    if (arena) return; // monotonic: keep the block until release()
    live_bytes -= n;
    blocks.erase(it);
    std::free(p);
  }
  bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override { return this == &o; }
};
// sets the pmr default resource for a scope (pmr-backed messages take it)
struct DefaultMR {
  std::pmr::memory_resource *old;
  explicit DefaultMR(std::pmr::memory_resource *m) : old(std::pmr::set_default_resource(m)) {}
  ~DefaultMR() { std::pmr::set_default_resource(old); }
};
} // namespace hv
