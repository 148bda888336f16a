#include "plugin_sim.hpp"
#include <cerrno>
#include <csignal>
#include <cstddef>
#include <cstring>
#include <fcntl.h>
#include <iostream>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <memory>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

int plugin_main(int argc, const char **argv);

extern "C" {
long sim_raw_syscall(long nr, long a, long b, long c, long d, long e, long f);
extern char sim_raw_syscall_ip[];
}
asm(R"(
.text
.globl sim_raw_syscall
.type sim_raw_syscall,@function
sim_raw_syscall:
  movq %rdi,%rax
  movq %rsi,%rdi
  movq %rdx,%rsi
  movq %rcx,%rdx
  movq %r8,%r10
  movq %r9,%r8
  movq 8(%rsp),%r9
  syscall
.globl sim_raw_syscall_ip
sim_raw_syscall_ip:
  ret
)");

extern "C" char __executable_start[];
namespace hv {
namespace {
// the child cannot start a symbolizer; it had the same address space as this process
std::string symbolized(const std::string &err) {
  std::string cmd = "llvm-symbolizer --no-inlines -f -C -p --obj=/proc/" + std::to_string(getpid()) + "/exe";
  std::size_t b = 0;
  int frames = 0;
  std::vector<std::string> ls;
  std::vector<std::size_t> at;
  while (b < err.size()) {
    auto e = err.find('\n', b); if (e == std::string::npos) e = err.size();
    auto l = err.substr(b, e - b); b = e + 1;
    auto h = l.find('#'), x = l.find(" 0x");
    if (h != std::string::npos && x != std::string::npos && x < h + 6 && ++frames < 30) {
      char a[40]; snprintf(a, sizeof a, " 0x%llx", strtoull(l.c_str() + x + 1, nullptr, 16) - static_cast<unsigned long long>(reinterpret_cast<std::uintptr_t>(__executable_start)) - 1);
      cmd += a; at.push_back(ls.size());
      l = l.substr(0, x);
    }
    ls.push_back(l);
  }
  if (!at.empty()) if (FILE *f = popen((cmd + " 2>/dev/null").c_str(), "r")) {
    char buf[8000];
    for (auto i : at) if (fgets(buf, sizeof buf, f) && (buf[0] != '\n' || fgets(buf, sizeof buf, f))) { std::string y = buf; if (!y.empty()) y.pop_back(); if (y.size() > 300) y = y.substr(0, 120) + " ... " + y.substr(y.size() - 120); ls[i] += " in " + y; }
    pclose(f);
  }
  std::string o;
  for (auto &l : ls) o += l + "\n";
  return o;
}
constexpr std::size_t BUF = 64u << 20;
struct File { // a file of the simulated file system
  char name[200];
  std::size_t size;
  bool exists;
  char *data;
};
struct Fd { int file; std::size_t pos; bool open, w; };
struct Shm {
  PluginPlan const *plan;
  std::size_t in_pos, out_size;
  std::size_t in_i, out_i, exp_i;          // next transfer size
  bool in_done, out_done, exp_done;        // one-time error delivered
  bool saw_eof, export_opened;
  unsigned read_errors, write_errors, export_errors, unsupported;
  std::uint64_t reads, writes, allocs, peak;
  bool alloc_failed;
  Fd fds[32];
  File files[4];
  char err[4000];
};
constexpr int FD0 = 1000;
Shm *S;
char *g_out, *g_file[4];

std::size_t piece(const Stream &s, std::size_t &i, std::size_t want) {
  if (s.pieces.empty()) return want;
  auto p = s.pieces[i++ % s.pieces.size()];
  return p == 0 || p > want ? want : p;
}
bool is_export(const File &f) { return strcmp(f.name, "/sim/in.bin") != 0; }
long do_read(int fd, char *buf, std::size_t n) {
  S->reads++;
  const std::string &src = S->plan->input;
  std::size_t *pos; const char *data; std::size_t size;
  const Stream *st = &S->plan->in;
  if (fd == 0) { pos = &S->in_pos; data = src.data(); size = src.size(); }
  else {
    auto &d = S->fds[fd - FD0];
    if (!d.open) return -EBADF;
    auto &f = S->files[d.file];
    pos = &d.pos; data = f.data; size = f.size;
    if (is_export(f)) st = nullptr;
  }
  if (n == 0) return 0;
  if (st) {
    n = piece(*st, S->in_i, n);
    if (st->fail_at >= 0 && !(st->once && S->in_done)) {
      if (*pos >= static_cast<std::size_t>(st->fail_at)) { S->in_done = true; S->read_errors++; return -st->err; }
      n = std::min<std::size_t>(n, static_cast<std::size_t>(st->fail_at) - *pos);
    }
  }
  n = std::min(n, size - std::min(size, *pos));
  std::memcpy(buf, data + *pos, n);
  *pos += n;
  if (n == 0 && st) S->saw_eof = true;
  return static_cast<long>(n);
}
long do_write(int fd, const char *buf, std::size_t n) {
  S->writes++;
  std::size_t *pos, *size, *i; char *data; bool *done; unsigned *errs;
  const Stream *st;
  if (fd == 1) { pos = size = &S->out_size; data = g_out; st = &S->plan->out; i = &S->out_i; done = &S->out_done; errs = &S->write_errors; }
  else {
    auto &d = S->fds[fd - FD0];
    if (!d.open || !d.w) return -EBADF;
    auto &f = S->files[d.file];
    pos = &d.pos; size = &f.size; data = f.data; st = &S->plan->exp; i = &S->exp_i; done = &S->exp_done; errs = &S->export_errors;
  }
  if (n == 0) return 0;
  n = piece(*st, *i, n);
  if (st->fail_at >= 0 && !(st->once && *done)) {
    if (*pos >= static_cast<std::size_t>(st->fail_at)) {
      *done = true; ++*errs;
      if (st->err == EPIPE && fd == 1 && !S->plan->sigpipe_ignored) sim_raw_syscall(SYS_tgkill, sim_raw_syscall(SYS_getpid, 0, 0, 0, 0, 0, 0), sim_raw_syscall(SYS_gettid, 0, 0, 0, 0, 0, 0), SIGPIPE, 0, 0, 0);
      return -st->err;
    }
    n = std::min<std::size_t>(n, static_cast<std::size_t>(st->fail_at) - *pos);
  }
  if (*pos + n > BUF) return -EFBIG;
  std::memcpy(data + *pos, buf, n);
  *pos += n;
  if (size != pos) *size = std::max(*size, *pos);
  return static_cast<long>(n);
}
bool sim_path(const char *p) { return p && strncmp(p, "/sim/", 5) == 0; }
int find_file(const char *p) { for (int i = 0; i < 4; ++i) if (S->files[i].exists && strcmp(S->files[i].name, p) == 0) return i; return -1; }
long do_open(const char *p, int flags) {
  bool w = (flags & O_ACCMODE) != O_RDONLY;
  auto &st = w ? S->plan->exp : S->plan->in;
  if (st.open_err) { ++(w ? S->export_errors : S->read_errors); return -st.open_err; }
  int i = find_file(p);
  if (i < 0) {
    if (!(flags & O_CREAT)) return -ENOENT;
    for (i = 0; i < 4 && S->files[i].exists; ++i) {}
    if (i == 4) return -ENFILE;
    S->files[i].exists = true; S->files[i].size = 0;
    strncpy(S->files[i].name, p, sizeof S->files[i].name - 1);
  } else if ((flags & O_EXCL) && (flags & O_CREAT)) return -EEXIST;
  if (flags & O_TRUNC) S->files[i].size = 0;
  if (w) S->export_opened = true;
  for (int d = 0; d < 32; ++d) if (!S->fds[d].open) { S->fds[d] = {i, (flags & O_APPEND) ? S->files[i].size : 0, true, w}; return FD0 + d; }
  return -EMFILE;
}
void fill(struct stat *s, unsigned mode, std::size_t size, std::uint32_t blk) {
  std::memset(s, 0, sizeof *s);
  s->st_mode = (mode == 0 ? S_IFIFO : mode == 1 ? S_IFREG : S_IFCHR) | 0600;
  s->st_size = static_cast<off_t>(size); s->st_blksize = blk; s->st_nlink = 1;
}
long do_fstat(int fd, struct stat *s) {
  if (fd == 0) fill(s, S->plan->in.mode, S->plan->input.size(), S->plan->in.blksize);
  else if (fd == 1) fill(s, S->plan->out.mode, S->out_size, S->plan->out.blksize);
  else { auto &d = S->fds[fd - FD0]; if (!d.open) return -EBADF; auto &f = S->files[d.file]; fill(s, 1, f.size, (is_export(f) ? S->plan->exp : S->plan->in).blksize); }
  return 0;
}
long answer(long nr, const long *a) {
  auto fd_of = [](long x) { return static_cast<int>(x); };
  auto path = [](long x) { return reinterpret_cast<const char *>(x); };
  switch (nr) {
  case SYS_read: return do_read(fd_of(a[0]), reinterpret_cast<char *>(a[1]), static_cast<std::size_t>(a[2]));
  case SYS_write: return do_write(fd_of(a[0]), reinterpret_cast<const char *>(a[1]), static_cast<std::size_t>(a[2]));
  case SYS_readv: case SYS_writev: {
    auto *v = reinterpret_cast<const iovec *>(a[1]);
    long tot = 0;
    for (long i = 0; i < a[2]; ++i) {
      if (v[i].iov_len == 0) continue;
      long r = nr == SYS_readv ? do_read(fd_of(a[0]), static_cast<char *>(v[i].iov_base), v[i].iov_len) : do_write(fd_of(a[0]), static_cast<const char *>(v[i].iov_base), v[i].iov_len);
      if (r < 0) return tot ? tot : r;
      tot += r;
      if (static_cast<std::size_t>(r) < v[i].iov_len) break;
    }
    return tot;
  }
  case SYS_open: if (sim_path(path(a[0]))) return do_open(path(a[0]), static_cast<int>(a[1])); if (a[1] & (O_ACCMODE | O_CREAT | O_TRUNC)) return -EACCES; break; // nothing real is ever written
  case SYS_openat: if (sim_path(path(a[1]))) return do_open(path(a[1]), static_cast<int>(a[2])); if (a[2] & (O_ACCMODE | O_CREAT | O_TRUNC)) return -EACCES; break;
  case SYS_creat: if (sim_path(path(a[0]))) return do_open(path(a[0]), O_CREAT | O_TRUNC | O_WRONLY); return -EACCES;
  case SYS_close: {
    if (a[0] < FD0) return 0;
    auto &d = S->fds[a[0] - FD0];
    if (!d.open) return -EBADF;
    d.open = false;
    int e = d.w ? S->plan->exp.close_err : 0;
    if (e) S->export_errors++;
    return -e;
  }
  case SYS_fstat: return do_fstat(fd_of(a[0]), reinterpret_cast<struct stat *>(a[1]));
  case SYS_newfstatat: {
    auto *p = path(a[1]);
    if (p && !*p && (a[3] & AT_EMPTY_PATH)) return do_fstat(fd_of(a[0]), reinterpret_cast<struct stat *>(a[2]));
    if (sim_path(p)) { int i = find_file(p); if (i < 0) return -ENOENT; fill(reinterpret_cast<struct stat *>(a[2]), 1, S->files[i].size, 4096); return 0; }
    break;
  }
  case SYS_lseek: {
    if (a[0] < FD0) { auto m = a[0] == 0 ? S->plan->in.mode : S->plan->out.mode; (void)m; return -ESPIPE; }
    auto &d = S->fds[a[0] - FD0];
    long base = a[2] == SEEK_SET ? 0 : a[2] == SEEK_CUR ? static_cast<long>(d.pos) : static_cast<long>(S->files[d.file].size);
    if (base + a[1] < 0) return -EINVAL;
    d.pos = static_cast<std::size_t>(base + a[1]);
    return static_cast<long>(d.pos);
  }
  case SYS_ioctl: return -ENOTTY;
  case SYS_fcntl: return a[1] == F_GETFL ? (a[0] == 0 ? O_RDONLY : a[0] == 1 ? O_WRONLY : O_RDWR) : 0;
  case SYS_fsync: case SYS_fdatasync: {
    auto &st = a[0] == 1 ? S->plan->out : S->plan->exp;
    return st.close_err ? -st.close_err : a[0] == 1 ? -EINVAL : 0;
  }
  case SYS_ftruncate: if (a[0] >= FD0) { auto &d = S->fds[a[0] - FD0]; S->files[d.file].size = static_cast<std::size_t>(a[1]); return 0; } return -EINVAL;
  case SYS_unlink: if (sim_path(path(a[0]))) { int i = find_file(path(a[0])); if (i < 0) return -ENOENT; S->files[i].exists = false; return 0; } return -EACCES;
  case SYS_rename: if (sim_path(path(a[0])) && sim_path(path(a[1]))) {
    int i = find_file(path(a[0])), j = find_file(path(a[1]));
    if (i < 0) return -ENOENT;
    if (j >= 0 && j != i) S->files[j].exists = false;
    strncpy(S->files[i].name, path(a[1]), sizeof S->files[i].name - 1);
    return 0;
  } return -EACCES;
  case SYS_tgkill: return sim_raw_syscall(nr, sim_raw_syscall(SYS_getpid, 0, 0, 0, 0, 0, 0), a[1], a[2], 0, 0, 0);
  case SYS_getpid: return S->plan->pid;
  case SYS_getrandom: {
    auto *b = reinterpret_cast<unsigned char *>(a[0]);
    std::uint64_t x = S->plan->pid * 0x9e3779b97f4a7c15ULL + static_cast<std::uint64_t>(S->plan->now);
    for (long i = 0; i < a[1]; ++i) { x = sim::mix(x, static_cast<std::uint64_t>(i)); b[i] = static_cast<unsigned char>(x); }
    return a[1];
  }
  default: S->unsupported++; return -ENOSYS;
  }
  return sim_raw_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
void on_sys(int, siginfo_t *si, void *uc) {
  auto *g = static_cast<ucontext_t *>(uc)->uc_mcontext.gregs;
  long a[6] = {static_cast<long>(g[REG_RDI]), static_cast<long>(g[REG_RSI]), static_cast<long>(g[REG_RDX]), static_cast<long>(g[REG_R10]), static_cast<long>(g[REG_R8]), static_cast<long>(g[REG_R9])};
  int e = errno;
  g[REG_RAX] = answer(si->si_syscall, a);
  errno = e;
}
void trap() {
  struct sigaction sa{};
  sa.sa_sigaction = on_sys; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSYS, &sa, nullptr);
  std::vector<sock_filter> f;
  auto st = [&](unsigned short code, std::uint32_t k) { f.push_back(sock_filter{code, 0, 0, k}); };
  auto jmp = [&](unsigned short op, std::uint32_t k, unsigned char t, unsigned char e) { f.push_back(sock_filter{static_cast<unsigned short>(BPF_JMP | op | BPF_K), t, e, k}); };
  const auto LD = static_cast<unsigned short>(BPF_LD | BPF_W | BPF_ABS);
  auto ip = reinterpret_cast<std::uint64_t>(sim_raw_syscall_ip);
  st(LD, offsetof(seccomp_data, instruction_pointer)); jmp(BPF_JEQ, static_cast<std::uint32_t>(ip), 0, 3);
  st(LD, offsetof(seccomp_data, instruction_pointer) + 4); jmp(BPF_JEQ, static_cast<std::uint32_t>(ip >> 32), 0, 1);
  st(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  st(LD, offsetof(seccomp_data, nr));
  const long always[] = {SYS_open, SYS_openat, SYS_creat, SYS_newfstatat, SYS_unlink, SYS_rename, SYS_getpid, SYS_getrandom, SYS_tgkill};
  for (auto nr : always) { jmp(BPF_JEQ, static_cast<std::uint32_t>(nr), 0, 1); st(BPF_RET | BPF_K, SECCOMP_RET_TRAP); }
  const long by_fd[] = {SYS_read, SYS_write, SYS_readv, SYS_writev, SYS_pread64, SYS_pwrite64, SYS_close, SYS_fstat, SYS_lseek, SYS_ioctl, SYS_fcntl, SYS_fsync, SYS_fdatasync, SYS_ftruncate, SYS_sendfile, SYS_splice};
  for (auto nr : by_fd) {
    jmp(BPF_JEQ, static_cast<std::uint32_t>(nr), 0, 6);
    st(LD, offsetof(seccomp_data, args));
    jmp(BPF_JEQ, 0, 2, 0);
    jmp(BPF_JEQ, 1, 1, 0);
    jmp(BPF_JGE, FD0, 0, 1);
    st(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    st(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  }
  st(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  sock_fprog pr{static_cast<unsigned short>(f.size()), f.data()};
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &pr) != 0) { fprintf(stderr, "SIM: no seccomp: %s\n", strerror(errno)); _exit(80); }
}
void map_all() {
  if (S) return;
  auto get = [](std::size_t n) {
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return static_cast<char *>(p);
  };
  S = reinterpret_cast<Shm *>(get(sizeof(Shm)));
  g_out = get(BUF);
  for (auto &f : g_file) f = get(BUF);
}
std::int64_t g_now = 0;
__attribute__((noinline, no_sanitize("address", "undefined"))) void dirty(std::uint64_t seed) {
  volatile unsigned char b[1 << 20];
  for (std::size_t i = 0; i < sizeof b; ++i) { seed = seed * 6364136223846793005ULL + 1442695040888963407ULL; b[i] = static_cast<unsigned char>(seed >> 56); }
}
__attribute__((noinline, no_sanitize("address", "undefined"))) int start(const PluginPlan &p, int argc, const char **argv) {
  if (!p.stack_seed) return plugin_main(argc, argv);
  volatile char *room = static_cast<volatile char *>(__builtin_alloca(16 * (1 + p.stack_seed % 4096)));
  room[0] = 1;
  dirty(p.stack_seed);
  return plugin_main(argc, argv);
}
void on_hang(int) { static const char m[] = "SIM: cpu-time limit reached (hang)\n"; (void)!write(2, m, sizeof m - 1); _exit(79); }
} // namespace
std::int64_t sim_now() { return g_now; }
std::string PluginResult::how() const {
  char b[60];
  if (WIFEXITED(status)) snprintf(b, sizeof b, "exit %d", WEXITSTATUS(status)); else snprintf(b, sizeof b, "signal %d", WTERMSIG(status));
  return b;
}
PluginResult run_plugin(sim::Ctx &c, const PluginPlan &p) {
  map_all();
  auto *of = S->files;
  for (int i = 0; i < 4; ++i) if (of[i].size) madvise(g_file[i], BUF, MADV_REMOVE);
  if (S->out_size) madvise(g_out, BUF, MADV_REMOVE);
  std::memset(static_cast<void *>(S), 0, sizeof *S);
  for (int i = 0; i < 4; ++i) S->files[i].data = g_file[i];
  S->plan = &p;
  if (p.by_file) { auto &f = S->files[0]; f.exists = true; strcpy(f.name, "/sim/in.bin"); f.size = p.input.size(); std::memcpy(f.data, p.input.data(), p.input.size()); }
  fflush(stdout); fflush(stderr);
  static int errfd = memfd_create("stderr", 0);
  (void)!ftruncate(errfd, 0); lseek(errfd, 0, SEEK_SET);
  if (auto *save = getenv("VP_SAVE_REQUEST")) if (FILE *f = fopen(save, "w")) { fwrite(p.input.data(), 1, p.input.size(), f); fclose(f); } // (to look at a replay)
  pid_t pid = fork();
  if (pid < 0) { fprintf(stderr, "SIM: fork: %s\n", strerror(errno)); _exit(80); }
  if (pid == 0) {
    dup2(errfd, 2);
    signal(SIGPIPE, p.sigpipe_ignored ? SIG_IGN : SIG_DFL);
    signal(SIGVTALRM, on_hang);
    itimerval t{}; t.it_value.tv_sec = 15; setitimer(ITIMER_VIRTUAL, &t, nullptr);
    setvbuf(stdout, nullptr, _IOFBF, p.out.blksize);
    for (auto &[k, v] : p.env) setenv(k.c_str(), v.c_str(), 1);
    if (!p.cwd.empty()) (void)!chdir(p.cwd.c_str());
    g_now = p.now;
    std::vector<const char *> av{p.argv0.c_str()};
    if (p.by_file) av.push_back("/sim/in.bin");
    auto argc = static_cast<int>(av.size());
    av.push_back(nullptr);
    auto *hs = new sim::HeapScope;
    if (p.heap_seed) sim::heap_scatter(p.heap_seed);
    trap();
    hs->fail_after(p.alloc_fail, p.alloc_span);
    struct Note { sim::HeapScope *h; ~Note() { S->allocs = h->count(); S->peak = h->peak(); S->alloc_failed = h->fired(); } };
    static sim::HeapScope *H; H = hs;
    std::set_terminate([] { S->allocs = H->count(); S->peak = H->peak(); S->alloc_failed = H->fired(); H->suspend(); abort(); });
    int rc;
    { Note note{hs}; rc = start(p, argc, av.data()); }
    hs->fail_after(-1);
    std::exit(rc);
  }
  PluginResult r;
  while (waitpid(pid, &r.status, 0) < 0 && errno == EINTR) {}
  char eb[6000];
  auto en = pread(errfd, eb, sizeof eb, 0);
  r.err.assign(eb, en > 0 ? static_cast<std::size_t>(en) : 0);
  if (WIFEXITED(r.status) && (WEXITSTATUS(r.status) == 78 || WEXITSTATUS(r.status) == 79 || WEXITSTATUS(r.status) == 80)) {
    if (WEXITSTATUS(r.status) == 79) c.fail("hang", "the generator did not stop within its CPU-time limit");
    auto sy = symbolized(r.err);
    (void)!write(2, sy.data(), sy.size());
    _exit(WEXITSTATUS(r.status));
  }
  if (WIFSIGNALED(r.status) && WTERMSIG(r.status) != SIGABRT && WTERMSIG(r.status) != SIGPIPE) {
    bool so = r.err.find("stack-overflow") != std::string::npos;
    c.fail(so ? "stack-overflow" : "crash", "the generator died from signal %d: %s", WTERMSIG(r.status), r.err.substr(0, 1500).c_str());
  }
  r.out.assign(g_out, S->out_size);
  for (auto &f : S->files) if (f.exists && strcmp(f.name, "/sim/export.bin") == 0) r.exported.assign(f.data, f.size);
  r.export_opened = S->export_opened; r.saw_eof = S->saw_eof;
  r.read_errors = S->read_errors; r.write_errors = S->write_errors; r.export_errors = S->export_errors; r.unsupported = S->unsupported;
  r.reads = S->reads; r.writes = S->writes; r.allocs = S->allocs; r.peak = S->peak; r.alloc_failed = S->alloc_failed;
  if (r.unsupported) { fprintf(stderr, "SIM: unsupported system call\n"); _exit(80); }
  return r;
}
} // namespace hv
// the plugin's clock
extern "C" {
int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
  auto n = hv::sim_now();
  if (n == 0) return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
  ts->tv_sec = n; ts->tv_nsec = 123456789;
  return 0;
}
time_t time(time_t *t) noexcept {
  auto n = hv::sim_now();
  if (n == 0) { timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); n = ts.tv_sec; }
  if (t) *t = n;
  return n;
}
int gettimeofday(struct timeval *tv, void *) noexcept {
  timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
}
