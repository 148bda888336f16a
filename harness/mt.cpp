// The run-time behind mt.hpp: scheduler, happens-before clocks, shadow memory, and the entry points that
// -fsanitize=thread code calls. This file itself is not instrumented.
#include "mt.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <map>
#include <pthread.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
extern "C" { void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t); extern char __executable_start; }
namespace {
constexpr int MAX = 6; // 0 is the controller
enum Kind { READ, WRITE, AREAD, AWRITE };
struct VC {
  std::uint32_t c[MAX]{};
  void join(const VC &o) { for (int i = 0; i < MAX; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};
struct Rec { std::uint32_t clk = 0, pc = 0; std::uint8_t mask = 0; };
struct Cell { std::uintptr_t key = 0; Rec r[4][MAX]; };
constexpr std::size_t CAP = 1u << 16;
Cell *cells; // open addressing; created at first use
std::uint32_t touched[CAP]; std::size_t used = 0;
struct Th {
  pthread_t t{};
  std::atomic<int> go{0};
  bool done = false;
  const void *waits = nullptr;
  std::uintptr_t lo = 0, hi = 0;
  VC vc, pending, fence; // pending: what relaxed loads saw; fence: clock at the last release fence
  void *stack[256]; int depth = 0;
  const std::function<void()> *body = nullptr;
};
Th *th; int nth;
bool on = false, in_rt = false;
sim::Ctx *ctx; unsigned mean; std::int64_t gap; mt::Stats st;
thread_local int me = -1;
std::map<std::uintptr_t, VC> *sync_vc;
struct Lock { int owner = 0, readers = 0, depth = 0; VC rd; };
std::map<const void *, Lock> *locks;

void fwait(std::atomic<int> &f) {
  timespec ts{60, 0};
  while (!f.load(std::memory_order_acquire)) {
    if (syscall(SYS_futex, reinterpret_cast<int *>(&f), FUTEX_WAIT_PRIVATE, 0, &ts, nullptr, 0) != 0 && errno == ETIMEDOUT && me == 0) { fprintf(stderr, "SIM: a simulated thread is stuck outside the simulator\n"); _exit(2); }
  }
  f.store(0, std::memory_order_relaxed);
}
void fwake(std::atomic<int> &f) { f.store(1, std::memory_order_release); syscall(SYS_futex, reinterpret_cast<int *>(&f), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
struct Rt { Rt() { in_rt = true; } ~Rt() { in_rt = false; } };
std::string where(std::uint32_t off) {
  if (!off) return "?";
  Dl_info di;
  void *p = &__executable_start + off;
  std::string s = "?";
  if (dladdr(p, &di) && di.dli_sname) { int ok; char *d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &ok); s = ok == 0 ? d : di.dli_sname; if (s.size() > 160) s.resize(160); }
  char b[32]; snprintf(b, sizeof b, " (+0x%x)", off);
  return s + b;
}
std::uint32_t offset(void *pc) { return static_cast<std::uint32_t>(static_cast<char *>(pc) - &__executable_start); }
std::string frames() {
  std::string s;
  for (int i = th[me].depth - 1, k = 0; i >= 0 && k < 14; --i, ++k) if (i < 256) s += "\n    called from " + where(offset(th[me].stack[i]) - 1);
  return s;
}
[[noreturn]] void fail(const char *cls, const std::string &m) { on = false; ctx->fail(cls, "%s", m.c_str()); }
void new_gap() { gap = 1 + ctx->pick(2 * mean); if (st.switches > 400) gap += 5000; }
int runnable(int *v) { int n = 0; for (int i = 1; i <= nth; ++i) if (!th[i].done && !th[i].waits) v[n++] = i; return n; }
void go_to(int t) { // hands the turn over and waits for it to come back
  if (t == me) return;
  ++st.switches;
  int self = me;
  in_rt = false;
  fwake(th[t].go);
  fwait(th[self].go);
  in_rt = true;
}
void preempt() { // in_rt
  new_gap();
  int v[MAX], n = runnable(v);
  if (n > 1) go_to(v[ctx->pick(static_cast<std::uint32_t>(n))]);
}
void block(const void *on_what) { // in_rt; returns once somebody has woken this thread and the turn came
  th[me].waits = on_what;
  int v[MAX], n = runnable(v);
  if (!n) fail("deadlock", "all threads wait for each other; this one waits" + frames());
  go_to(v[ctx->pick(static_cast<std::uint32_t>(n))]);
}
void wake(const void *w) { for (int i = 1; i <= nth; ++i) if (th[i].waits == w) th[i].waits = nullptr; }
void release_to(VC &v) { v.join(th[me].vc); th[me].vc.c[me]++; }

std::size_t place(std::uintptr_t key) { return ((((key >> 6) * 0x9e3779b97f4a7c15ULL) >> 34) + (key & 63)) & (CAP - 1); }
Cell *cell(std::uintptr_t key) {
  auto i = place(key);
  while (cells[i].key && cells[i].key != key) i = (i + 1) & (CAP - 1);
  if (!cells[i].key) {
    if (used > CAP * 3 / 4) return nullptr;
    cells[i].key = key; touched[used++] = static_cast<std::uint32_t>(i);
  }
  return &cells[i];
}
void forget(std::uintptr_t a, std::size_t n) { // fresh memory: whatever happened at these addresses is past
  if (!used) return;
  if (n / 8 > CAP) { for (std::size_t k = 0; k < used; ++k) { auto &c = cells[touched[k]]; if (c.key * 8 + 8 > a && c.key * 8 < a + n) for (auto &r : c.r) for (auto &x : r) x = Rec{}; } return; }
  for (auto g = a >> 3; g <= (a + (n ? n : 1) - 1) >> 3; ++g) {
    auto i = place(g);
    while (cells[i].key && cells[i].key != g) i = (i + 1) & (CAP - 1);
    if (cells[i].key) for (auto &r : cells[i].r) for (auto &x : r) x = Rec{};
  }
}
const char *kind_name[] = {"read", "write", "atomic read", "atomic write"};
void access(std::uintptr_t a, std::size_t n, Kind k, void *pc) {
  if (!on || in_rt || me <= 0 || !n) return;
  Th &t = th[me];
  if (a - t.lo < t.hi - t.lo) return; // own stack
  Rt rt;
  ++st.accesses;
  if (--gap <= 0) preempt();
  auto end = a + n;
  for (auto g = a >> 3; g <= (end - 1) >> 3; ++g) {
    unsigned from = g == a >> 3 ? a & 7 : 0, to = g == (end - 1) >> 3 ? ((end - 1) & 7) + 1 : 8;
    auto mask = static_cast<std::uint8_t>(((1u << to) - 1) & ~((1u << from) - 1));
    Cell *c = cell(g);
    if (!c) return;
    auto &own = c->r[k][me];
    if (own.clk == t.vc.c[me] && (own.mask & mask) == mask) continue;
    for (int u = 1; u <= nth; ++u) {
      if (u == me) continue;
      for (int j = 0; j < 4; ++j) {
        bool conflict = (k == WRITE || j == WRITE) || (k == AWRITE && j == READ) || (k == READ && j == AWRITE);
        auto &r = c->r[j][u];
        if (!conflict || r.clk <= t.vc.c[u] || !(r.mask & mask)) continue;
        fail("data-race", std::string(kind_name[k]) + " of " + std::to_string(n) + " bytes in " + where(offset(pc)) + frames() + "\n  races with a " + kind_name[j] + " by another thread in " + where(r.pc));
      }
    }
    if (own.clk != t.vc.c[me]) own.mask = 0;
    own.clk = t.vc.c[me]; own.mask |= mask; own.pc = offset(pc);
  }
}
void *thread_main(void *p) {
  me = static_cast<int>(static_cast<Th *>(p) - th);
  Th &t = th[me];
  pthread_attr_t at; void *lo; size_t sz;
  pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
  t.lo = reinterpret_cast<std::uintptr_t>(lo); t.hi = t.lo + sz;
  fwake(th[0].go); // the stack's place is known
  fwait(t.go);
  try { (*t.body)(); } catch (const std::exception &e) { fail("exception", std::string("a thread ended by an exception: ") + e.what()); }
  {
    Rt rt;
    t.done = true;
    int v[MAX], n = runnable(v);
    bool all = true;
    for (int i = 1; i <= nth; ++i) all &= th[i].done;
    if (!n && !all) fail("deadlock", "the remaining threads wait for each other");
    in_rt = false;
    fwake(n ? th[v[ctx->pick(static_cast<std::uint32_t>(n))]].go : th[0].go);
    fwait(t.go); // thread_local objects are destroyed one thread after the other
  }
  in_rt = false;
  return nullptr;
}
} // namespace
namespace mt {
Stats last() { return st; }
void run(sim::Ctx &c, const std::vector<std::function<void()>> &bodies, unsigned g) {
  if (!cells) cells = static_cast<Cell *>(__libc_calloc(CAP, sizeof(Cell)));
  while (used) cells[touched[--used]] = Cell{};
  std::map<std::uintptr_t, VC> sv; std::map<const void *, Lock> lk;
  sync_vc = &sv; locks = &lk;
  nth = static_cast<int>(bodies.size());
  if (nth >= MAX) abort();
  th = new Th[MAX];
  ctx = &c; mean = g; st = {};
  me = 0; in_rt = false;
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2u << 20);
  for (int i = 1; i <= nth; ++i) {
    th[i].body = &bodies[static_cast<std::size_t>(i - 1)];
    for (int j = 0; j < MAX; ++j) th[i].vc.c[j] = 0;
    th[i].vc.c[i] = 1;
    if (pthread_create(&th[i].t, &at, thread_main, &th[i])) { fprintf(stderr, "SIM: pthread_create failed\n"); _exit(2); }
    fwait(th[0].go);
  }
  pthread_attr_destroy(&at);
  new_gap();
  on = true;
  fwake(th[1 + c.pick(static_cast<std::uint32_t>(nth))].go);
  fwait(th[0].go);
  for (int i = 1; i <= nth; ++i) { fwake(th[i].go); pthread_join(th[i].t, nullptr); }
  on = false;
  me = -1;
  delete[] th; th = nullptr;
}
} // namespace mt

// ---- what instrumented code calls
#define PC __builtin_return_address(0)
#define U(p) reinterpret_cast<std::uintptr_t>(p)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *pc) { if (on && me > 0 && !in_rt) { auto &t = th[me]; if (t.depth < 256) t.stack[t.depth] = pc; ++t.depth; } }
void __tsan_func_exit() { if (on && me > 0 && !in_rt) { auto &t = th[me]; if (t.depth > 0) --t.depth; } }
#define RW(n) \
  void __tsan_read##n(void *p) { access(U(p), n, READ, PC); } \
  void __tsan_write##n(void *p) { access(U(p), n, WRITE, PC); } \
  void __tsan_read_write##n(void *p) { access(U(p), n, WRITE, PC); } \
  void __tsan_volatile_read##n(void *p) { access(U(p), n, READ, PC); } \
  void __tsan_volatile_write##n(void *p) { access(U(p), n, WRITE, PC); } \
  void __tsan_unaligned_read##n(void *p) { access(U(p), n, READ, PC); } \
  void __tsan_unaligned_write##n(void *p) { access(U(p), n, WRITE, PC); } \
  void __tsan_unaligned_read_write##n(void *p) { access(U(p), n, WRITE, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(U(p), n, READ, PC); }
void __tsan_write_range(void *p, size_t n) { access(U(p), n, WRITE, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access(U(p), 8, WRITE, PC); }
void __tsan_vptr_read(void **p) { access(U(p), 8, READ, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access(U(s), n, READ, PC); access(U(d), n, WRITE, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access(U(s), n, READ, PC); access(U(d), n, WRITE, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int v, size_t n) { access(U(d), n, WRITE, PC); return memset(d, v, n); }
int __real_memcmp(const void *, const void *, size_t);
int __wrap_memcmp(const void *a, const void *b, size_t n) { access(U(a), n, READ, PC); access(U(b), n, READ, PC); return __real_memcmp(a, b, n); }
int __wrap_bcmp(const void *a, const void *b, size_t n) { access(U(a), n, READ, PC); access(U(b), n, READ, PC); return __real_memcmp(a, b, n); }
size_t __real_strlen(const char *);
size_t __wrap_strlen(const char *s) { auto n = __real_strlen(s); access(U(s), n + 1, READ, PC); return n; }
void *__real_memchr(const void *, int, size_t);
void *__wrap_memchr(const void *s, int v, size_t n) { auto *r = __real_memchr(s, v, n); access(U(s), r ? static_cast<size_t>(static_cast<const char *>(r) - static_cast<const char *>(s)) + 1 : n, READ, PC); return r; }
}
namespace {
void before_atomic(const volatile void *p, std::size_t n, bool write, void *pc) { access(U(p), n, write ? AWRITE : AREAD, pc); }
void acquire(const volatile void *p, int mo) { // memory orders: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
  if (!on || in_rt || me <= 0) return;
  Rt rt; ++st.atomics;
  auto i = sync_vc->find(U(p));
  if (i == sync_vc->end()) return;
  (mo == 0 || mo == 3 ? th[me].pending : th[me].vc).join(i->second);
}
void release(const volatile void *p, int mo) {
  if (!on || in_rt || me <= 0) return;
  Rt rt; ++st.atomics;
  auto &v = (*sync_vc)[U(p)];
  if (mo >= 3) release_to(v); else v.join(th[me].fence);
}
}
extern "C" {
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T *p, int mo) { before_atomic(p, sizeof(T), false, PC); acquire(p, mo); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##n##_store(volatile T *p, T v, int mo) { before_atomic(p, sizeof(T), true, PC); release(p, mo); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_exchange(volatile T *p, T v, int mo) { before_atomic(p, sizeof(T), true, PC); acquire(p, mo); release(p, mo); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int mo) { before_atomic(p, sizeof(T), true, PC); acquire(p, mo); release(p, mo); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int mo) { before_atomic(p, sizeof(T), true, PC); acquire(p, mo); release(p, mo); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int mo) { before_atomic(p, sizeof(T), true, PC); acquire(p, mo); release(p, mo); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int mo) { before_atomic(p, sizeof(T), true, PC); acquire(p, mo); release(p, mo); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int mo) { before_atomic(p, sizeof(T), true, PC); acquire(p, mo); release(p, mo); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_nand(volatile T *p, T v, int mo) { before_atomic(p, sizeof(T), true, PC); acquire(p, mo); release(p, mo); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) { before_atomic(p, sizeof(T), true, PC); bool ok = __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); acquire(p, ok ? mo : fmo); if (ok) release(p, mo); return e; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) { before_atomic(p, sizeof(T), true, PC); bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); acquire(p, ok ? mo : fmo); if (ok) release(p, mo); return ok; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) { before_atomic(p, sizeof(T), true, PC); bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); acquire(p, ok ? mo : fmo); if (ok) release(p, mo); return ok; }
AT(8, std::uint8_t) AT(16, std::uint16_t) AT(32, std::uint32_t) AT(64, std::uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  if (!on || in_rt || me <= 0) return;
  Rt rt; auto &t = th[me];
  if (mo != 0 && mo != 3) t.vc.join(t.pending);
  if (mo >= 3) { t.fence = t.vc; t.vc.c[me]++; }
}
void __tsan_atomic_signal_fence(int) {}

// ---- memory
void *malloc(size_t n) { void *p = __libc_malloc(n); if (on && p) forget(U(p), n); return p; }
void free(void *p) { if (on && p && !in_rt) access(U(p), std::min<size_t>(malloc_usable_size(p), 256), WRITE, PC); __libc_free(p); }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (on && p) forget(U(p), a * b); return p; }
void *realloc(void *q, size_t n) { void *p = __libc_realloc(q, n); if (on && p) forget(U(p), n); return p; }
void *memalign(size_t al, size_t n) { void *p = __libc_memalign(al, n); if (on && p) forget(U(p), n); return p; }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **r, size_t al, size_t n) { *r = memalign(al, n); return *r ? 0 : ENOMEM; }

// ---- locks
static bool simulated() { return on && me > 0 && !in_rt; }
#define REAL(name) reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))
static void lock_sim(const void *m, bool recursive, bool shared) {
  Rt rt; ++st.locks;
  preempt();
  for (;;) {
    auto &l = (*locks)[m];
    if (recursive && l.owner == me) { ++l.depth; return; }
    if (!l.owner && (shared || !l.readers)) { if (shared) l.readers++; else { l.owner = me; th[me].vc.join(l.rd); } l.depth = 1; th[me].vc.join((*sync_vc)[U(m)]); return; }
    block(m);
  }
}
static bool try_sim(const void *m, bool recursive, bool shared) {
  Rt rt; ++st.locks;
  preempt();
  auto &l = (*locks)[m];
  if (recursive && l.owner == me) { ++l.depth; return true; }
  if (l.owner || (!shared && l.readers)) return false;
  if (shared) l.readers++; else { l.owner = me; th[me].vc.join(l.rd); }
  l.depth = 1; th[me].vc.join((*sync_vc)[U(m)]);
  return true;
}
static void unlock_sim(const void *m) {
  Rt rt;
  auto &l = (*locks)[m];
  if (l.owner == me) { if (--l.depth) return; l.owner = 0; release_to((*sync_vc)[U(m)]); }
  else if (l.readers) { --l.readers; release_to(l.rd); }
  wake(m);
  preempt();
}
int pthread_mutex_lock(pthread_mutex_t *m) { if (simulated()) { lock_sim(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP, false); return 0; } static auto r = REAL(pthread_mutex_lock); return r(m); }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (simulated()) return try_sim(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP, false) ? 0 : EBUSY; static auto r = REAL(pthread_mutex_trylock); return r(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (simulated()) { unlock_sim(m); return 0; } static auto r = REAL(pthread_mutex_unlock); return r(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { if (simulated()) { lock_sim(m, false, true); return 0; } static auto r = REAL(pthread_rwlock_rdlock); return r(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { if (simulated()) { lock_sim(m, false, false); return 0; } static auto r = REAL(pthread_rwlock_wrlock); return r(m); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { if (simulated()) return try_sim(m, false, true) ? 0 : EBUSY; static auto r = REAL(pthread_rwlock_tryrdlock); return r(m); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { if (simulated()) return try_sim(m, false, false) ? 0 : EBUSY; static auto r = REAL(pthread_rwlock_trywrlock); return r(m); }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { if (simulated()) { unlock_sim(m); return 0; } static auto r = REAL(pthread_rwlock_unlock); return r(m); }
int pthread_once(pthread_once_t *o, void (*f)()) {
  if (!simulated()) { static auto r = REAL(pthread_once); return r(o, f); }
  lock_sim(o, true, false);
  if (*o != 2) { f(); *o = 2; }
  unlock_sim(o);
  return 0;
}
int __cxa_guard_acquire(__cxxabiv1::__guard *g) {
  auto *b = reinterpret_cast<unsigned char *>(g);
  if (!simulated()) { if (b[0]) return 0; b[1] = 1; return 1; }
  lock_sim(g, false, false);
  if (b[0]) { unlock_sim(g); return 0; }
  return 1;
}
void __cxa_guard_release(__cxxabiv1::__guard *g) {
  auto *b = reinterpret_cast<unsigned char *>(g);
  b[0] = 1; b[1] = 0;
  if (simulated()) unlock_sim(g);
}
void __cxa_guard_abort(__cxxabiv1::__guard *g) { if (simulated()) unlock_sim(g); else reinterpret_cast<unsigned char *>(g)[1] = 0; }
}
