// L01: what the generator reports versus what it was given and what it delivered.
#include "plugin_common.hpp"
#include <cerrno>
#include <csignal>
using namespace hv;
using namespace sim;
namespace {
struct Given { std::string bytes, parameter; bool exports = false; };
Given request(Ctx &c) {
  auto fs = draw_schema(c, true);
  Given g;
  g.parameter = draw_parameter(c, fs);
  if (c.chance(1, 3)) { g.exports = true; g.parameter += std::string(g.parameter.empty() ? "" : ",") + "export_request=/sim/export.bin"; }
  else if (c.chance(1, 10)) g.parameter += std::string(g.parameter.empty() ? "" : ",") + "no_such_option=1"; // answered by an error message
  auto n = names(fs);
  std::vector<std::string> gen;
  for (auto &x : n) if (c.pick(3)) gen.push_back(x);
  if (gen.empty()) gen.push_back(n.back());
  g.bytes = make_request(ptrs(fs), gen, g.parameter);
  return g;
}
PluginResult healthy(Ctx &c, const Given &g) {
  PluginPlan p; p.input = g.bytes;
  auto r = run_plugin(c, p);
  if (!r.ok()) c.fail("healthy-failure", "a well-formed request on healthy streams ended with %s: %s", r.how().c_str(), r.err.substr(0, 800).c_str());
  if (!parse_response(r.out).valid) c.fail("bad-response", "a successful run wrote %zu bytes that are not a response", r.out.size());
  if (g.exports && r.exported != g.bytes) c.fail("export-lost", "a successful run exported %zu bytes of a request of %zu", r.exported.size(), g.bytes.size());
  return r;
}
void judge(Ctx &c, const Given &g, const PluginPlan &p, const PluginResult &base, const PluginResult &r) {
  c.ev("%s: out %zu of %zu, exported %zu, errors r%u w%u x%u, reads %llu writes %llu", r.how().c_str(), r.out.size(), base.out.size(), r.exported.size(), r.read_errors, r.write_errors, r.export_errors, static_cast<unsigned long long>(r.reads), static_cast<unsigned long long>(r.writes));
  c.state(mix(mix(r.status, r.out.size() == base.out.size()), mix(r.read_errors, mix(r.write_errors, r.export_errors))));
  if (!r.ok()) return;
  if (!r.saw_eof) c.fail("unread-input", "success although the end of the request was never seen (%u read errors)", r.read_errors);
  if (r.out != base.out) c.fail("lost-output", "success although %zu of %zu bytes of the response were delivered%s (%u write errors)", r.out.size(), base.out.size(), r.out.size() == base.out.size() ? ", altered" : "", r.write_errors);
  if (g.exports && r.exported != p.input) c.fail("lost-export", "success although %zu of %zu bytes were exported (%u errors)", r.exported.size(), p.input.size(), r.export_errors);
  if (g.exports && p.exp.close_err && r.export_errors) c.fail("lost-export", "success although closing the exported file reported an error");
}
int draw_errno(Ctx &c, bool write) {
  static const int w[] = {ENOSPC, EIO, EPIPE, EDQUOT, EFBIG, EAGAIN, ECONNRESET}, r[] = {EIO, EISDIR, EAGAIN, ECONNRESET, ENOMEM};
  return write ? w[c.pick(7)] : r[c.pick(5)];
}
// the instant a stream breaks: uniformly, or next to a buffer boundary or an end
std::int64_t instant(Ctx &c, std::size_t n) {
  auto N = static_cast<std::int64_t>(n);
  switch (c.pick(5)) {
  case 0: return 0;
  case 1: return N;
  case 2: return std::max<std::int64_t>(0, N - 1 - c.pick(8));
  case 3: return std::min<std::int64_t>(N, static_cast<std::int64_t>(c.pick(static_cast<std::uint32_t>(n / 512 + 1))) * 512);
  default: return c.pick(static_cast<std::uint32_t>(n + 1));
  }
}
void break_stream(Ctx &c, Stream &s, std::size_t n, bool write) {
  s.err = draw_errno(c, write);
  s.fail_at = instant(c, n);
  if (write && s.fail_at == static_cast<std::int64_t>(n) && n) s.fail_at = static_cast<std::int64_t>(n) - 1;
  s.once = c.chance(1, 3);
}
void pieces(Ctx &c) {
  auto g = request(c);
  auto base = healthy(c, g);
  for (unsigned k = 0; k < 2; ++k) {
    PluginPlan p; p.input = g.bytes; p.by_file = c.pick(3) == 0;
    draw_pieces(c, p.in); draw_pieces(c, p.out); draw_pieces(c, p.exp);
    auto r = run_plugin(c, p);
    c.fault("short-transfer");
    judge(c, g, p, base, r);
    if (!r.ok()) c.fail("healthy-failure", "short reads and writes alone made the generator end with %s: %s", r.how().c_str(), r.err.substr(0, 500).c_str());
    c.step(r.reads + r.writes);
  }
  c.nontrivial();
}
void faults(Ctx &c) {
  auto g = request(c);
  auto base = healthy(c, g);
  for (unsigned k = 0; k < 3; ++k) {
    PluginPlan p; p.input = g.bytes; p.by_file = c.pick(4) == 0;
    if (c.pick(2)) { draw_pieces(c, p.in); draw_pieces(c, p.out); draw_pieces(c, p.exp); }
    p.sigpipe_ignored = c.pick(2);
    const char *what = "";
    switch (c.pick(g.exports ? 6 : 3)) {
    case 0: case 1: break_stream(c, p.out, base.out.size(), true); what = "write-error"; break;
    case 2: if (p.by_file && c.pick(4) == 0) { p.in.open_err = c.pick(2) ? EACCES : EMFILE; what = "open-error"; } else { break_stream(c, p.in, g.bytes.size(), false); what = "read-error"; } break;
    case 3: case 4: break_stream(c, p.exp, g.bytes.size(), true); what = "export-write-error"; break;
    default: if (c.pick(2)) { p.exp.open_err = c.pick(2) ? EACCES : ENOSPC; what = "export-open-error"; } else { p.exp.close_err = c.pick(2) ? EIO : ENOSPC; what = "export-close-error"; }
    }
    if (c.chance(1, 5)) { break_stream(c, p.out, base.out.size(), true); }
    c.ev("%s in@%lld out@%lld exp@%lld", what, static_cast<long long>(p.in.fail_at), static_cast<long long>(p.out.fail_at), static_cast<long long>(p.exp.fail_at));
    auto r = run_plugin(c, p);
    if (r.read_errors || r.write_errors || r.export_errors) c.fault(what);
    judge(c, g, p, base, r);
    c.step(r.reads + r.writes);
  }
  c.nontrivial();
}
// input that ends early: what is left is either no request at all, or must be treated as the request it is
void early_end(Ctx &c) {
  auto g = request(c);
  Given t = g;
  t.bytes.resize(static_cast<std::size_t>(instant(c, g.bytes.size())));
  bool whole = false; // ends between two fields of the request
  {
    std::string_view in = t.bytes;
    for (;;) {
      if (in.empty()) { whole = true; break; }
      std::size_t i = 0; std::uint64_t l = 0;
      while (i < in.size() && (static_cast<unsigned char>(in[i]) & 128)) ++i;
      if (i >= in.size()) break;
      in.remove_prefix(i + 1);
      unsigned sh = 0; bool done = false;
      while (!in.empty()) { auto b = static_cast<unsigned char>(in[0]); in.remove_prefix(1); l |= static_cast<std::uint64_t>(b & 127) << sh; sh += 7; if (b < 128) { done = true; break; } }
      if (!done || l > in.size()) break;
      in.remove_prefix(l);
    }
  }
  PluginPlan p; p.input = t.bytes; p.by_file = c.pick(3) == 0;
  draw_pieces(c, p.in); draw_pieces(c, p.out);
  auto r = run_plugin(c, p);
  c.fault("early-end-of-input");
  c.ev("%zu of %zu bytes, %s -> %s", t.bytes.size(), g.bytes.size(), whole ? "between fields" : "inside a field", r.how().c_str());
  if (!whole && r.ok()) c.fail("truncated-request", "success although the request ends inside a field (%zu of %zu bytes)", t.bytes.size(), g.bytes.size());
  if (r.ok() && !parse_response(r.out).valid) c.fail("bad-response", "a successful run wrote %zu bytes that are not a response", r.out.size());
  c.nontrivial();
}
// running out of memory: failure, or the whole answer
void memory(Ctx &c) {
  auto g = request(c);
  auto base = healthy(c, g);
  for (unsigned k = 0; k < 3; ++k) {
    PluginPlan p; p.input = g.bytes;
    p.alloc_fail = c.pick(3) ? c.pick(static_cast<std::uint32_t>(base.allocs)) : c.pick(static_cast<std::uint32_t>(std::min<std::uint64_t>(base.allocs, 40)));
    p.alloc_span = c.pick(3) ? 1 : 1 + c.pick(3);
    auto r = run_plugin(c, p);
    if (r.alloc_failed) c.fault("allocation-failure");
    judge(c, g, p, base, r);
    c.step();
  }
  c.nontrivial();
}
} // namespace
SIM_SCENARIO("L01", "short-transfers", 2, pieces)
SIM_SCENARIO("L01", "failing-streams", 4, faults)
SIM_SCENARIO("L01", "early-end", 2, early_end)
SIM_SCENARIO("L01", "out-of-memory", 2, memory)
