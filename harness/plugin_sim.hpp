// The protoc plugin as a process under a simulated kernel: its real main(), libstdc++ streams and glibc stdio run in a
// forked child in which every system call on stdin, stdout and files below /sim/ is trapped (seccomp) and answered from a
// plan drawn beforehand; clock, process id and random numbers come from the plan, too, and heap placement can be scattered.
#pragma once
#include "../sim/core.hpp"
#include <string>
#include <vector>

namespace hv {
struct Stream { // what the simulated kernel does with one stream
  std::vector<std::uint32_t> pieces;   // sizes of the transfers, used in turn; 0: as much as asked for
  std::int64_t fail_at = -1;           // after that many bytes ...
  int err = 0;                         // ... this error
  bool once = false;                   // (only once; later transfers work again)
  int open_err = 0, close_err = 0;
  unsigned mode = 0;                   // what fstat says: 0 pipe, 1 regular file, 2 character device
  std::uint32_t blksize = 4096;
};
struct PluginPlan {
  std::string input;
  Stream in, out, exp;
  bool by_file = false;                // input named on the command line
  bool sigpipe_ignored = false;
  std::string argv0 = "/usr/bin/protoc-gen-hpp";
  std::vector<std::pair<std::string, std::string>> env;
  std::string cwd;
  std::int64_t now = 1700000000;
  std::uint32_t pid = 4242;
  std::uint64_t heap_seed = 0;         // != 0: allocations land at drawn places with drawn contents
  std::uint64_t stack_seed = 0;        // != 0: the stack starts at a drawn place with drawn contents
  std::int64_t alloc_fail = -1, alloc_span = 1;
};
struct PluginResult {
  int status = 0;                      // wait status
  std::string out, exported, err;
  bool export_opened = false, saw_eof = false;
  unsigned read_errors = 0, write_errors = 0, export_errors = 0, unsupported = 0;
  std::uint64_t reads = 0, writes = 0, allocs = 0, peak = 0;
  bool alloc_failed = false;
  bool ok() const { return status == 0; }
  std::string how() const;
};
// runs the plugin; sanitizer reports, hangs and simulator errors end the run as violations
PluginResult run_plugin(sim::Ctx &c, const PluginPlan &p);
} // namespace hv
