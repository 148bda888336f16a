#include "core.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" const char *__asan_default_options() {
  return "exitcode=78:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=1:"
         "max_malloc_fill_size=65536:malloc_fill_byte=190:quarantine_size_mb=64:check_initialization_order=0:"
         "detect_container_overflow=0:abort_on_error=0:allocation_size_too_big=0:malloc_context_size=8";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=78"; }

namespace sim {
namespace {
constexpr int EXIT_FAIL = 77, EXIT_SAN = 78, EXIT_HANG = 79, EXIT_NONDET = 80;
constexpr std::size_t MAX_TRACE = 1u << 20;
constexpr std::size_t BITMAP_BITS = 1u << 24;
constexpr std::size_t NCOUNTERS = 192;

struct Counter { char name[56]; std::atomic<std::uint64_t> n; };
struct WorkerShm {
  std::uint64_t iter, seed;
  std::uint32_t scenario;
  std::atomic<std::uint32_t> ntrace;
  std::uint32_t trace[MAX_TRACE];
  char cls[160];
  char msg[6000];
  std::uint64_t runs, steps, sim_time, nontrivial, determinism_checks, max_trace, picks;
};
struct GlobalShm {
  std::atomic<std::uint32_t> stop;
  Counter faults[NCOUNTERS];
  Counter probes[NCOUNTERS];
  Counter scen[NCOUNTERS];
  std::atomic<std::uint8_t> runs_bm[BITMAP_BITS / 8];
  std::atomic<std::uint8_t> states_bm[BITMAP_BITS / 8];
};
WorkerShm *g_w = nullptr;
GlobalShm *g_g = nullptr;
bool g_count = true;
Scenario *g_scn = nullptr;
Ctx *g_ctx = nullptr;

template <class T> T *shm() {
  void *p = mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
  return static_cast<T *>(p);
}
void bump(Counter *tab, const char *name, std::uint64_t by = 1) {
  if (!g_count || !g_g) return;
  std::size_t h = hash_bytes(name, strlen(name)) % NCOUNTERS;
  for (std::size_t i = 0; i < NCOUNTERS; ++i, h = (h + 1) % NCOUNTERS) {
    if (tab[h].name[0] == 0) { strncpy(tab[h].name, name, sizeof tab[h].name - 1); }
    if (strncmp(tab[h].name, name, sizeof tab[h].name - 1) == 0) { tab[h].n += by; return; }
  }
}
void set_bit(std::atomic<std::uint8_t> *bm, std::uint64_t h) {
  h %= BITMAP_BITS;
  auto &b = bm[h / 8];
  std::uint8_t m = static_cast<std::uint8_t>(1u << (h % 8));
  if (!(b.load(std::memory_order_relaxed) & m)) b.fetch_or(m, std::memory_order_relaxed);
}
std::uint64_t count_bits(std::atomic<std::uint8_t> *bm) {
  std::uint64_t c = 0;
  for (std::size_t i = 0; i < BITMAP_BITS / 8; ++i) c += static_cast<unsigned>(__builtin_popcount(bm[i].load(std::memory_order_relaxed)));
  return c;
}
std::uint64_t splitmix(std::uint64_t &s) {
  std::uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
double now() {
  timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}
} // namespace

std::uint64_t hash_bytes(const void *p, std::size_t n, std::uint64_t seed) {
  const auto *b = static_cast<const unsigned char *>(p);
  std::uint64_t h = seed ^ (n * 0x9e3779b97f4a7c15ULL);
  while (n >= 8) { std::uint64_t v; memcpy(&v, b, 8); h = mix(h, v); b += 8; n -= 8; }
  std::uint64_t v = 0;
  if (n) memcpy(&v, b, n);
  return mix(h, v);
}

Scenario::Scenario(const char *p, const char *n, RunFn f, unsigned w) : property(p), name(n), fn(f), weight(w), next(g_scn) { g_scn = this; }

std::uint64_t Ctx::next() { // xoroshiro128+
  std::uint64_t s0 = rng[0], s1 = rng[1], r = s0 + s1;
  s1 ^= s0;
  rng[0] = ((s0 << 24) | (s0 >> 40)) ^ s1 ^ (s1 << 16);
  rng[1] = (s1 << 37) | (s1 >> 27);
  return r;
}
static void timer_on(int sec) {
  itimerval t{}; t.it_value.tv_sec = sec;
  setitimer(ITIMER_VIRTUAL, &t, nullptr);
}
std::uint32_t Ctx::pick(std::uint32_t n) {
  if (n <= 1) return 0;
  std::uint32_t v;
  if (replay) v = replay_pos < replay_n ? replay[replay_pos++] % n : 0;
  else v = static_cast<std::uint32_t>((static_cast<unsigned __int128>(next()) * n) >> 64);
  auto k = g_w->ntrace.load(std::memory_order_relaxed);
  if (k < MAX_TRACE) { g_w->trace[k] = v; g_w->ntrace.store(k + 1, std::memory_order_relaxed); }
  else { // run out of budget: end the run (bounded runs)
    fprintf(stderr, "SIM: trace budget exhausted\n"); _exit(EXIT_NONDET);
  }
  return v;
}
bool Ctx::chance(std::uint32_t num, std::uint32_t den) {
  // 0 must be the benign (false) outcome
  return pick(den) >= den - num;
}
std::uint64_t Ctx::bits64() {
  std::uint64_t a = pick(0xffffffffu), b = pick(0xffffffffu);
  return (a << 32) ^ b;
}
void Ctx::fault(const char *k) { bump(g_g->faults, k); hash = mix(hash, hash_bytes(k, strlen(k))); interesting = true; if (verbose) ev("FAULT %s", k); }
void Ctx::probe(const char *k) { bump(g_g->probes, k); }
void Ctx::state(std::uint64_t h) { if (g_count) set_bit(g_g->states_bm, mix(h, 77)); }
void Ctx::ev(const char *fmt, ...) {
  HeapPause hp;
  char buf[1024];
  va_list ap; va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n > static_cast<int>(sizeof buf) - 1) n = sizeof buf - 1;
  hash = mix(hash, hash_bytes(buf, static_cast<std::size_t>(n)));
  if (verbose && log) log->emplace_back(buf);
}
void Ctx::evh(const char *what, const void *p, std::size_t n) {
  auto h = hash_bytes(p, n);
  hash = mix(hash, h);
  if (verbose) {
    HeapPause hp;
    std::string s;
    char b[8];
    for (std::size_t i = 0; i < n && i < 48; ++i) { snprintf(b, sizeof b, "%02x", static_cast<const unsigned char *>(p)[i]); s += b; }
    ev("%s n=%zu %s%s", what, n, s.c_str(), n > 48 ? ".." : "");
  }
}
static void write_log_fd(std::vector<std::string> *log) {
  if (!log) return;
  for (auto &l : *log) { (void)!write(1, l.data(), l.size()); (void)!write(1, "\n", 1); }
}
void Ctx::fail(const char *cls, const char *fmt, ...) {
  HeapPause hp;
  snprintf(g_w->cls, sizeof g_w->cls, "%s", cls);
  va_list ap; va_start(ap, fmt);
  vsnprintf(g_w->msg, sizeof g_w->msg, fmt, ap);
  va_end(ap);
  if (verbose) write_log_fd(log);
  fflush(stdout);
  _exit(EXIT_FAIL);
}

namespace {
void on_vtalrm(int) {
  static const char m[] = "SIM: cpu-time limit reached (hang)\n";
  (void)!write(2, m, sizeof m - 1);
  if (g_ctx && g_ctx->verbose) write_log_fd(g_ctx->log);
  _exit(EXIT_HANG);
}
int g_hang_s = 20;

struct Opts {
  std::string prop, replay, out, known, only;
  std::uint64_t seed = 1;
  double seconds = 20;
  int workers = 8;
  std::uint64_t max_runs = ~0ull;
  bool verbose = false, list = false, no_min = false, keep_going = false;
  std::string evidence, replay_dir = "/verif/build/replays";
};
Opts O;
std::vector<Scenario *> scns;
unsigned total_weight = 0;

Scenario *choose(std::uint64_t seed) {
  std::uint64_t s = seed ^ 0xabcdef1234ULL;
  std::uint64_t r = splitmix(s) % total_weight;
  for (auto *x : scns) { if (r < x->weight) return x; r -= x->weight; }
  return scns.back();
}
std::uint64_t run_seed(std::uint64_t base, std::uint64_t iter) {
  std::uint64_t s = base * 0x2545F4914F6CDD1DULL + iter;
  splitmix(s);
  return splitmix(s);
}
} // namespace
void isolated(Ctx &c, RunFn f) {
  struct Back { std::uint64_t hash, sim_time, steps; bool interesting; };
  static Back *b = shm<Back>();
  pid_t p = fork();
  if (p < 0) { perror("fork"); _exit(EXIT_NONDET); }
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    timer_on(g_hang_s);
    f(c);
    timer_on(0);
    *b = {c.hash, c.sim_time, c.steps, c.interesting};
    if (c.verbose) write_log_fd(c.log);
    _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(EXIT_NONDET); }
  if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
  c.hash = b->hash; c.sim_time = b->sim_time; c.steps = b->steps; c.interesting = b->interesting;
}
namespace {
// executes one run in this process
std::uint64_t exec_run(Scenario *sc, std::uint64_t seed, const std::uint32_t *tr, std::size_t ntr, bool verbose, Ctx *out = nullptr) {
  Ctx c;
  std::uint64_t s = seed;
  c.rng[0] = splitmix(s); c.rng[1] = splitmix(s) | 1;
  c.hash = hash_bytes(sc->name, strlen(sc->name));
  c.replay = tr; c.replay_n = ntr; c.verbose = verbose;
  std::vector<std::string> log;
  if (verbose) c.log = &log;
  g_w->ntrace = 0;
  g_ctx = &c;
  timer_on(g_hang_s);
  sc->fn(c);
  timer_on(0);
  g_ctx = nullptr;
  if (verbose) write_log_fd(&log);
  if (out) { *out = c; out->log = nullptr; }
  return c.hash;
}
std::string slurp(const std::string &p, std::size_t max = 1 << 20) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream ss; ss << f.rdbuf();
  auto s = ss.str();
  if (s.size() > max) s.resize(max);
  return s;
}
struct Outcome { bool failed = false; bool error = false; std::string cls, msg, log; std::vector<std::uint32_t> trace; };
// classify an abnormal child exit
void classify(int st, WorkerShm *w, const std::string &err, Outcome &o) {
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
  o.failed = true;
  if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAIL) { o.cls = w->cls; o.msg = w->msg; return; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_HANG) { o.cls = "hang"; o.msg = "CPU-time limit reached"; return; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_NONDET) { o.cls = "sim-error"; o.error = true; o.msg = err; return; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_SAN) {
    std::string k = "sanitizer";
    auto p = err.find("ERROR: AddressSanitizer: ");
    if (p != std::string::npos) { auto e = err.find_first_of(" \n", p + 25); k = "asan:" + err.substr(p + 25, e - p - 25); }
    else if ((p = err.find("runtime error: ")) != std::string::npos) {
      auto e = err.find('\n', p); k = "ubsan:" + err.substr(p + 15, std::min<std::size_t>(e - p - 15, 40));
      for (auto &ch : k) if (isdigit(static_cast<unsigned char>(ch))) ch = '#';
    }
    // first frame in the code under test
    std::string fr;
    std::size_t q = 0;
    while ((q = err.find("/include/hpp_proto/", q)) != std::string::npos) {
      auto e = err.find_first_of(" \n)", q); fr = err.substr(q + 19, e - q - 19);
      auto c2 = fr.find(':'); if (c2 != std::string::npos) fr.resize(c2);
      break;
    }
    if (fr.empty() && (q = err.find("/src/protoc-plugin/")) != std::string::npos) { auto e = err.find_first_of(": \n)", q); fr = err.substr(q + 19, e - q - 19); }
    o.cls = k + "@" + fr;
    o.msg = err.substr(0, 5000);
    return;
  }
  char b[64];
  if (WIFSIGNALED(st)) snprintf(b, sizeof b, "signal:%d", WTERMSIG(st)); else snprintf(b, sizeof b, "exit:%d", WEXITSTATUS(st));
  o.cls = b;
  if (err.find("stack-overflow") != std::string::npos) o.cls = "stack-overflow";
  auto t = err.find("terminate called");
  if (t != std::string::npos) { o.cls = "terminate:" + err.substr(t, 120); auto nl = o.cls.find('\n'); if (nl != std::string::npos) o.cls.resize(nl); }
  auto as = err.find("Assertion");
  if (as != std::string::npos) o.cls = "assert";
  o.msg = err.substr(0, 4000);
}
std::string tmpname(const char *k) {
  static int n = 0;
  const char *t = getenv("TMPDIR");
  return std::string(t ? t : "/tmp") + "/sim." + std::to_string(getpid()) + "." + k + "." + std::to_string(n++);
}
// run one trace in a fresh child
Outcome run_child(Scenario *sc, std::uint64_t seed, const std::vector<std::uint32_t> *tr, bool verbose) {
  static WorkerShm *w = shm<WorkerShm>();
  auto errf = tmpname("err"), outf = tmpname("out");
  w->cls[0] = w->msg[0] = 0; w->ntrace = 0;
  pid_t p = fork();
  if (p == 0) {
    g_w = w; g_count = false;
    int fd = open(errf.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); dup2(fd, 2);
    int fo = open(outf.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); dup2(fo, 1);
    exec_run(sc, seed, tr ? tr->data() : nullptr, tr ? tr->size() : 0, verbose);
    _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  Outcome o;
  classify(st, w, slurp(errf), o);
  if (verbose) o.log = slurp(outf);
  o.trace.assign(w->trace, w->trace + w->ntrace.load());
  unlink(errf.c_str()); unlink(outf.c_str());
  return o;
}
std::vector<std::uint32_t> minimise(Scenario *sc, std::uint64_t seed, std::vector<std::uint32_t> tr, const std::string &cls, double budget) {
  double t0 = now();
  int trials = 0;
  auto ok = [&](const std::vector<std::uint32_t> &t) {
    if (now() - t0 > budget) return false;
    ++trials;
    auto o = run_child(sc, seed, &t, false);
    return o.failed && o.cls == cls;
  };
  auto strip = [](std::vector<std::uint32_t> &t) { while (!t.empty() && t.back() == 0) t.pop_back(); };
  // binary tail truncation
  for (std::size_t cut = tr.size() / 2; cut >= 1 && now() - t0 < budget; cut /= 2) {
    while (tr.size() >= cut && cut > 0) {
      auto t = tr; t.resize(tr.size() - cut);
      if (ok(t)) tr = t; else break;
    }
  }
  strip(tr);
  bool progress = true;
  while (progress && now() - t0 < budget) {
    progress = false;
    for (std::size_t sz = std::max<std::size_t>(tr.size() / 2, 1); sz >= 1 && now() - t0 < budget; sz /= 2) {
      for (std::size_t i = 0; i < tr.size() && now() - t0 < budget;) {
        // delete
        auto t = tr;
        t.erase(t.begin() + static_cast<std::ptrdiff_t>(i), t.begin() + static_cast<std::ptrdiff_t>(std::min(i + sz, t.size())));
        if (t.size() < tr.size() && ok(t)) { tr = t; progress = true; continue; }
        // zero
        t = tr; bool any = false;
        for (std::size_t j = i; j < std::min(i + sz, t.size()); ++j) { any |= t[j] != 0; t[j] = 0; }
        if (any && ok(t)) { tr = t; progress = true; }
        i += sz;
      }
      if (sz == 1) break;
    }
    strip(tr);
    // shrink single values
    for (std::size_t i = 0; i < tr.size() && now() - t0 < budget; ++i) {
      for (std::uint32_t v : {1u, tr[i] / 2, tr[i] - 1}) {
        if (tr[i] > v) { auto t = tr; t[i] = v; if (ok(t)) { tr = t; progress = true; break; } }
      }
    }
  }
  return tr;
}
std::string jesc(std::string_view s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o;
}
std::vector<std::string> lines(const std::string &s) {
  std::vector<std::string> v; std::stringstream ss(s); std::string l;
  while (std::getline(ss, l)) v.push_back(l);
  return v;
}
struct Known { std::string prop, cls, contains; };
std::vector<Known> known;
// known-findings file: lines "finding|property|class|substring of message|text" ; "fixed: ..." lines and others are ignored
void load_known() {
  if (O.known.empty()) return;
  std::ifstream f(O.known); std::string l;
  while (std::getline(f, l)) {
    if (l.rfind("finding|", 0) != 0) continue;
    std::vector<std::string> p; std::stringstream ss(l); std::string t;
    while (std::getline(ss, t, '|')) p.push_back(t);
    if (p.size() >= 5 && p[1] == O.prop) known.push_back({p[1], p[2], p[3]});
  }
}
int known_index(const Outcome &o) {
  for (std::size_t i = 0; i < known.size(); ++i)
    if (o.cls == known[i].cls && (known[i].contains.empty() || o.msg.find(known[i].contains) != std::string::npos)) return static_cast<int>(i);
  return -1;
}
constexpr std::uint64_t CHUNK = 256; // iterations per forked child
} // namespace

static int do_replay() {
  // replay file: JSON written by us; parse the few fields we need
  std::string s = slurp(O.replay, 64 << 20);
  auto str = [&](const char *k) -> std::string {
    auto p = s.find(std::string("\"") + k + "\":");
    if (p == std::string::npos) return {};
    p = s.find('"', p + strlen(k) + 3);
    std::string out; ++p;
    while (p < s.size() && s[p] != '"') { if (s[p] == '\\') ++p; out += s[p++]; }
    return out;
  };
  std::string sn = str("scenario"), cls = str("class");
  auto num = [&](const char *k) -> std::uint64_t {
    auto p = s.find(std::string("\"") + k + "\":");
    return p == std::string::npos ? 0 : strtoull(s.c_str() + p + strlen(k) + 3, nullptr, 10);
  };
  if (str("kind") == "chunk") {
    std::uint64_t first = num("first"), last = num("last"), stride = num("stride"), base = num("base_seed");
    WorkerShm *w = shm<WorkerShm>();
    auto errf = tmpname("err");
    pid_t p = fork();
    if (p == 0) {
      g_w = w; g_count = false;
      int fd = open(errf.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); dup2(fd, 2);
      for (std::uint64_t it = first; it <= last; it += stride) { auto sd = run_seed(base, it); exec_run(choose(sd), sd, nullptr, 0, false); }
      _exit(0);
    }
    int st; waitpid(p, &st, 0);
    Outcome o; classify(st, w, slurp(errf), o); unlink(errf.c_str());
    printf("replay(chunk): failed=%d class=%s\n%s\n", o.failed, o.cls.c_str(), o.msg.c_str());
    return o.failed && o.cls == cls ? 1 : 0;
  }
  Scenario *sc = nullptr;
  auto pn = str("property");
  for (auto *x : scns) if (sn == x->name && (pn.empty() || pn == x->property)) sc = x;
  if (!sc) { fprintf(stderr, "no scenario %s\n", sn.c_str()); return 2; }
  std::vector<std::uint32_t> tr;
  auto p = s.find("\"trace\":[");
  const char *q = s.c_str() + p + 9;
  while (*q && *q != ']') { tr.push_back(static_cast<std::uint32_t>(strtoul(q, const_cast<char **>(&q), 10))); if (*q == ',') ++q; }
  auto o = run_child(sc, num("seed"), &tr, true);
  printf("%s", o.log.c_str());
  printf("replay: scenario=%s failed=%d class=%s expected=%s\n%s\n", sn.c_str(), o.failed, o.cls.c_str(), cls.c_str(), o.msg.c_str());
  return o.failed && o.cls == cls ? 1 : 0;
}

int driver_main(int argc, char **argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") O.prop = val();
    else if (a == "--seed") O.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--seconds") O.seconds = atof(val().c_str());
    else if (a == "--workers") O.workers = atoi(val().c_str());
    else if (a == "--runs") O.max_runs = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--replay") O.replay = val();
    else if (a == "--known") O.known = val();
    else if (a == "--only") O.only = val();
    else if (a == "--evidence") O.evidence = val();
    else if (a == "--replay-dir") O.replay_dir = val();
    else if (a == "--no-min") O.no_min = true;
    else if (a == "--verbose") O.verbose = true;
    else if (a == "--hang") g_hang_s = atoi(val().c_str());
    else if (a == "--list") O.list = true;
  }
  g_w = shm<WorkerShm>();
  g_g = shm<GlobalShm>();
  signal(SIGVTALRM, on_vtalrm);
  signal(SIGPIPE, SIG_IGN);
  for (auto *s = g_scn; s; s = s->next)
    if ((O.prop.empty() || O.prop == s->property) && (O.only.empty() || O.only == s->name)) scns.push_back(s);
  std::sort(scns.begin(), scns.end(), [](auto *a, auto *b) { int c = strcmp(a->property, b->property); return c ? c < 0 : strcmp(a->name, b->name) < 0; });
  for (auto *s : scns) total_weight += s->weight;
  if (O.list) { for (auto *s : scns) printf("%s %s %u\n", s->property, s->name, s->weight); return 0; }
  if (scns.empty()) { fprintf(stderr, "no scenarios for %s\n", O.prop.c_str()); return 2; }
  if (!O.replay.empty()) return do_replay();
  load_known();
  double t0 = now();
  struct W { pid_t pid = 0; WorkerShm *shm = nullptr; std::uint64_t next = 0, cur_first = 0; std::string errf; bool done = false; double cap = 0; };
  std::vector<W> ws(static_cast<std::size_t>(O.workers));
  for (std::size_t i = 0; i < ws.size(); ++i) { ws[i].shm = shm<WorkerShm>(); ws[i].next = i; ws[i].errf = tmpname("w"); }
  const std::uint64_t stride = ws.size();
  auto spawn = [&](std::size_t i) {
    auto &w = ws[i];
    if (now() - t0 > O.seconds || w.next >= O.max_runs) { w.done = true; w.pid = 0; return; }
    w.cur_first = w.next;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      g_w = w.shm;
      int fd = open(w.errf.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); dup2(fd, 2); close(fd);
      std::uint64_t it = w.next;
      for (std::uint64_t k = 0; k < CHUNK && it < O.max_runs; ++k, it += stride) {
        if ((k & 7) == 7 && (now() - t0 > O.seconds || g_g->stop)) break;
        auto sd = run_seed(O.seed, it);
        auto *sc = choose(sd);
        g_w->iter = it; g_w->seed = sd; g_w->scenario = static_cast<std::uint32_t>(std::find(scns.begin(), scns.end(), sc) - scns.begin());
        Ctx info;
        auto h = exec_run(sc, sd, nullptr, 0, false, &info);
        g_w->runs++; g_w->steps += info.steps; g_w->sim_time += info.sim_time;
        g_w->picks += g_w->ntrace;
        if (g_w->ntrace > g_w->max_trace) g_w->max_trace = g_w->ntrace;
        if (info.interesting) { g_w->nontrivial++; set_bit(g_g->runs_bm, h); }
        bump(g_g->scen, sc->name);
        if (it % 61 == 7) { // determinism self-check: same seed again, same event hash
          g_count = false;
          Ctx i2;
          auto h2 = exec_run(sc, sd, nullptr, 0, false, &i2);
          g_count = true;
          if (h2 != h) { fprintf(stderr, "SIM: nondeterminism in scenario %s seed %llu\n", sc->name, static_cast<unsigned long long>(sd)); _exit(EXIT_NONDET); }
          g_w->determinism_checks++;
        }
        g_w->iter = it + stride;
      }
      g_w->iter = it;
      _exit(0);
    }
    w.pid = p;
  };
  std::map<int, std::uint64_t> known_hits;
  std::map<int, std::string> known_msgs;
  bool violated = false, error = false;
  Outcome viol; Scenario *vsc = nullptr; std::uint64_t vseed = 0, viter = 0, vfirst = 0; double found_at = 0;
  for (std::size_t i = 0; i < ws.size(); ++i) spawn(i);
  for (;;) {
    bool any = false;
    for (auto &w : ws) any |= w.pid != 0;
    if (!any) break;
    int st; pid_t p = waitpid(-1, &st, 0);
    if (p < 0) break;
    std::size_t i = 0;
    while (i < ws.size() && ws[i].pid != p) ++i;
    if (i == ws.size()) continue;
    auto &w = ws[i];
    w.pid = 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { w.next = w.shm->iter; if (!g_g->stop) spawn(i); continue; }
    Outcome o; classify(st, w.shm, slurp(w.errf), o);
    o.trace.assign(w.shm->trace, w.shm->trace + w.shm->ntrace.load());
    int k = known_index(o);
    if (k >= 0) { known_hits[k]++; known_msgs[k] = o.msg.substr(0, 300); w.next = w.shm->iter + stride; w.shm->runs++; if (!g_g->stop) spawn(i); continue; }
    if (!violated) {
      violated = true; viol = o; vsc = scns[w.shm->scenario]; vseed = w.shm->seed; viter = w.shm->iter; vfirst = w.cur_first; g_g->stop = 1;
      found_at = now() - t0;
    }
  }
  double wall = now() - t0;
  for (auto &w : ws) unlink(w.errf.c_str());
  std::uint64_t runs = 0, steps = 0, simt = 0, nontriv = 0, dets = 0, picks = 0, maxtr = 0;
  for (auto &w : ws) { runs += w.shm->runs; steps += w.shm->steps; simt += w.shm->sim_time; nontriv += w.shm->nontrivial; dets += w.shm->determinism_checks; picks += w.shm->picks; maxtr = std::max(maxtr, w.shm->max_trace); }
  std::string replay_path;
  if (violated) {
    printf("found: scenario=%s seed=%llu iter=%llu after %.1fs class=%s\n%s\n", vsc->name, static_cast<unsigned long long>(vseed), static_cast<unsigned long long>(viter), found_at, viol.cls.c_str(), viol.msg.substr(0, 3000).c_str());
    (void)!system(("mkdir -p '" + O.replay_dir + "'").c_str());
    replay_path = O.replay_dir + "/" + (O.prop.empty() ? std::string(vsc->property) : O.prop) + ".json";
    if (viol.error) { error = true; violated = false; }
    else {
      auto again = run_child(vsc, vseed, nullptr, false);
      auto again2 = run_child(vsc, vseed, nullptr, false);
      if (again.failed && again2.failed && again.cls == again2.cls && again.trace == again2.trace) {
        auto tr = again.trace;
        if (!O.no_min) tr = minimise(vsc, vseed, tr, again.cls, 20);
        auto fin = run_child(vsc, vseed, &tr, true);
        if (!(fin.failed && fin.cls == again.cls)) { tr = again.trace; fin = run_child(vsc, vseed, &tr, true); }
        std::ofstream f(replay_path);
        f << "{\n\"kind\":\"trace\",\n\"property\":\"" << vsc->property << "\",\n\"scenario\":\"" << vsc->name << "\",\n\"seed\":" << vseed << ",\n\"base_seed\":" << O.seed << ",\n\"iteration\":" << viter
          << ",\n\"class\":\"" << jesc(fin.cls) << "\",\n\"message\":\"" << jesc(fin.msg) << "\",\n\"original_choices\":" << again.trace.size() << ",\n\"minimised_choices\":" << tr.size() << ",\n\"trace\":[";
        for (std::size_t i = 0; i < tr.size(); ++i) f << (i ? "," : "") << tr[i];
        f << "],\n\"events\":[";
        auto ls = lines(fin.log);
        for (std::size_t i = 0; i < ls.size(); ++i) f << (i ? ",\n" : "\n") << "\"" << jesc(ls[i]) << "\"";
        f << "\n]\n}\n";
        printf("minimised: %zu -> %zu choices; class=%s\n%s\n", again.trace.size(), tr.size(), fin.cls.c_str(), fin.msg.substr(0, 3000).c_str());
        for (std::size_t i = 0; i < ls.size() && i < 60; ++i) printf("  | %s\n", ls[i].c_str());
      } else {
        // depends on earlier runs in the same process: replay the whole chunk prefix
        std::ofstream f(replay_path);
        f << "{\n\"kind\":\"chunk\",\n\"property\":\"" << vsc->property << "\",\n\"scenario\":\"" << vsc->name << "\",\n\"base_seed\":" << O.seed << ",\n\"first\":" << vfirst << ",\n\"last\":" << viter << ",\n\"stride\":" << stride
          << ",\n\"class\":\"" << jesc(viol.cls) << "\",\n\"message\":\"" << jesc(viol.msg) << "\"\n}\n";
        f.close();
        O.replay = replay_path;
        if (do_replay() != 1) { printf("SIM-ERROR: violation did not reproduce\n"); error = true; violated = false; }
      }
    }
  }
  for (auto &[k, n] : known_hits) printf("KNOWN-HIT %d n=%llu %s\n", k, static_cast<unsigned long long>(n), known_msgs[k].c_str());
  // samples: event logs of two runs
  std::string samples = "[";
  if (!violated && !error) {
    int got = 0;
    for (std::uint64_t it = 0; it < 40 && got < 2; ++it) {
      auto sd = run_seed(O.seed, it); auto *sc = choose(sd);
      auto o = run_child(sc, sd, nullptr, true);
      if (o.failed) continue;
      auto ls = lines(o.log);
      if (ls.size() < 3 && it < 38) continue;
      samples += std::string(got ? ",\n" : "\n") + "{\"scenario\":\"" + sc->name + "\",\"seed\":" + std::to_string(sd) + ",\"choices\":" + std::to_string(o.trace.size()) + ",\"events\":[";
      for (std::size_t i = 0; i < ls.size() && i < 25; ++i) samples += std::string(i ? "," : "") + "\"" + jesc(ls[i].substr(0, 200)) + "\"";
      samples += "]}";
      ++got;
    }
  }
  samples += "]";
  auto tab = [](Counter *t) {
    std::map<std::string, std::uint64_t> m;
    for (std::size_t i = 0; i < NCOUNTERS; ++i) if (t[i].name[0]) m[t[i].name] += t[i].n;
    std::string s = "{"; bool first = true;
    for (auto &[k, v] : m) { s += std::string(first ? "" : ",") + "\"" + jesc(k) + "\":" + std::to_string(v); first = false; }
    return s + "}";
  };
  if (!O.evidence.empty()) {
    std::ofstream f(O.evidence);
    f << "{\"runs\":" << runs << ",\"steps\":" << steps << ",\"sim_time_us\":" << simt << ",\"nontrivial_runs\":" << nontriv
      << ",\"distinct_nontrivial\":" << count_bits(g_g->runs_bm) << ",\"distinct_states\":" << count_bits(g_g->states_bm)
      << ",\"choices\":" << picks << ",\"max_choices_in_run\":" << maxtr << ",\"determinism_reexecutions\":" << dets << ",\"wall_s\":" << wall << ",\"workers\":" << O.workers
      << ",\"seeds_per_hour\":" << static_cast<std::uint64_t>(static_cast<double>(runs) * 3600 / std::max(wall, 0.001))
      << ",\n\"faults\":" << tab(g_g->faults) << ",\n\"probes\":" << tab(g_g->probes) << ",\n\"scenarios\":" << tab(g_g->scen)
      << ",\n\"known_hits\":{";
    bool first = true;
    for (auto &[k, n] : known_hits) { f << (first ? "" : ",") << "\"" << k << "\":" << n; first = false; }
    f << "},\n\"violation\":" << (violated ? "true" : "false") << ",\"class\":\"" << jesc(viol.cls) << "\",\"replay\":\"" << replay_path << "\",\n\"samples\":" << samples << "}\n";
  }
  printf("runs=%llu (%.0f/s) steps=%llu nontrivial=%llu distinct=%llu states=%llu detcheck=%llu wall=%.1fs\nscenarios=%s\nfaults=%s\nprobes=%s\n", static_cast<unsigned long long>(runs), static_cast<double>(runs) / wall,
         static_cast<unsigned long long>(steps), static_cast<unsigned long long>(nontriv), static_cast<unsigned long long>(count_bits(g_g->runs_bm)), static_cast<unsigned long long>(count_bits(g_g->states_bm)),
         static_cast<unsigned long long>(dets), wall, tab(g_g->scen).c_str(), tab(g_g->faults).c_str(), tab(g_g->probes).c_str());
  if (error) return 2;
  return violated ? 1 : 0;
}
} // namespace sim
