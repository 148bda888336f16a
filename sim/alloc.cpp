// Instrumented global heap: ledger, byte accounting and failure injection (single simulated thread).
#include "core.hpp"
#include <cstdlib>
#include <new>
namespace {
struct State {
  bool scope = false, on = false, fired = false;
  std::int64_t fail_in = -1, span = 1;
  std::uint64_t count = 0, bytes = 0, live = 0, live_bytes = 0, peak = 0;
} S;
constexpr std::size_t CAP = 1u << 18;
struct Slot { void *p; std::size_t n; };
Slot tab[CAP];
constexpr std::uintptr_t TOMB = 1;
std::uint32_t touched[CAP];
std::size_t used = 0;
std::size_t hs(void *p) { auto x = reinterpret_cast<std::uintptr_t>(p); x ^= x >> 17; x *= 0x9e3779b97f4a7c15ULL; return (x >> 20) & (CAP - 1); }
void add(void *p, std::size_t n) {
  if (used > CAP * 3 / 4) return; // ledger full: stop tracking (bounded runs keep far below)
  auto i = hs(p);
  while (tab[i].p && reinterpret_cast<std::uintptr_t>(tab[i].p) != TOMB) i = (i + 1) & (CAP - 1);
  if (!tab[i].p) touched[used++] = static_cast<std::uint32_t>(i);
  tab[i] = {p, n};
  S.live++; S.live_bytes += n;
  if (S.live_bytes > S.peak) S.peak = S.live_bytes;
}
void del(void *p) {
  auto i = hs(p);
  while (tab[i].p) {
    if (tab[i].p == p) { S.live--; S.live_bytes -= tab[i].n; tab[i].p = reinterpret_cast<void *>(TOMB); return; }
    i = (i + 1) & (CAP - 1);
  }
}
bool tick() {
  S.count++;
  if (S.fail_in > 0) { --S.fail_in; return false; }
  if (S.fail_in < 0 || S.span <= 0) return false;
  --S.span; S.fired = true;
  return true;
}
std::uint64_t scatter = 0;
std::uint64_t scatter_next() { scatter ^= scatter << 13; scatter ^= scatter >> 7; scatter ^= scatter << 17; return scatter; }
// a block at an unpredictable place with unpredictable contents
void *scattered(std::size_t n) {
  auto r = scatter_next();
  std::size_t want = n + ((r & 3) == 0 ? 0 : (r >> 8) % 4096);
  void *junk = (r >> 40) % 5 == 0 ? malloc(want) : nullptr; // never freed: shifts whatever follows
  (void)junk;
  auto *p = static_cast<unsigned char *>(malloc(want ? want : 1));
  auto b = static_cast<unsigned char>(r >> 32);
  if (p) for (std::size_t i = 0; i < n; ++i) p[i] = b++;
  return p;
}
void *alloc(std::size_t n, std::size_t al, bool nothrow) {
  if (S.on) {
    S.bytes += n;
    if (tick()) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    if (n > (1ull << 33)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  }
  void *p = scatter && al <= alignof(std::max_align_t) ? scattered(n) : al > alignof(std::max_align_t) ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  if (S.on) add(p, n);
  return p;
}
void dealloc(void *p) noexcept {
  if (!p) return;
  if (S.scope) del(p);
  free(p);
}
} // namespace
namespace sim {
HeapScope::HeapScope() { while (used) tab[touched[--used]] = {}; S = State{}; S.scope = S.on = true; }
HeapScope::~HeapScope() { S.scope = S.on = false; S.fail_in = -1; }
void HeapScope::fail_after(std::int64_t n, std::int64_t span) { S.fail_in = n; S.span = span; S.fired = false; }
bool heap_tick() { return S.on && tick(); }
void HeapScope::suspend() { S.on = false; }
void HeapScope::resume() { S.on = true; }
std::uint64_t HeapScope::count() const { return S.count; }
std::uint64_t HeapScope::bytes() const { return S.bytes; }
std::uint64_t HeapScope::peak() const { return S.peak; }
std::uint64_t HeapScope::live() const { return S.live; }
bool HeapScope::fired() const { return S.fired; }
void heap_scatter(std::uint64_t seed) { scatter = seed; }
HeapPause::HeapPause() : was(S.on) { S.on = false; }
HeapPause::~HeapPause() { S.on = was; }
} // namespace sim
void *operator new(std::size_t n) { return alloc(n, 0, false); }
void *operator new[](std::size_t n) { return alloc(n, 0, false); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return alloc(n, 0, true); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return alloc(n, 0, true); }
void *operator new(std::size_t n, std::align_val_t a) { return alloc(n, static_cast<std::size_t>(a), false); }
void *operator new[](std::size_t n, std::align_val_t a) { return alloc(n, static_cast<std::size_t>(a), false); }
void operator delete(void *p) noexcept { dealloc(p); }
void operator delete[](void *p) noexcept { dealloc(p); }
void operator delete(void *p, std::size_t) noexcept { dealloc(p); }
void operator delete[](void *p, std::size_t) noexcept { dealloc(p); }
void operator delete(void *p, std::align_val_t) noexcept { dealloc(p); }
void operator delete[](void *p, std::align_val_t) noexcept { dealloc(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { dealloc(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { dealloc(p); }
