// C01: the outcome of a decode does not depend on how the bytes are fragmented.
#include "scn.hpp"
using namespace hv;
namespace {
void check(Ctx &c, const Codec &k, const std::string &in, const std::vector<std::size_t> &fr, const Decoded &whole, const char *what) {
  Decoded d(k);
  d.decode(D_CHUNK, in, &fr);
  c.step(); 
  if ((whole.ec == 0) != (d.ec == 0))
    c.fail("fragmentation-acceptance", "%s/%s: contiguous decode returned %d, fragmented decode (%s) returned %d; input %s", k.name, k.trait, whole.ec, frag_str(fr).c_str(), d.ec, to_hex(in).c_str());
  if (d.ec == 0) {
    auto a = whole.tree(), b = d.tree();
    auto df = diff(a, b);
    if (!df.empty()) c.fail("fragmentation-value", "%s/%s: fragmented (%s) decode differs from the contiguous one at %s; input %s", k.name, k.trait, frag_str(fr).c_str(), df.c_str(), to_hex(in).c_str());
    c.state(hash(b));
  }
  (void)what;
}
void random_frag(Ctx &c) {
  auto &k = pick_codec(c);
  auto in = gen_input(c, k.s, 1, 4, 2, 1, c.chance(1, 8));
  c.ev("message=%s trait=%s kind=%d bytes=%s", k.name, k.trait, in.kind, to_hex(in.bytes).c_str());
  Decoded whole(k);
  whole.decode(D_CONTIG, in.bytes);
  c.ev("contiguous ec=%d", whole.ec);
  if (whole.ec == 0) { c.probe("accepted"); if (in.kind >= IN_DAMAGED) c.probe("accepted-damaged"); } else c.probe("rejected");
  for (int r = 0; r < 3; ++r) {
    auto fr = fragments(c, in.bytes.size());
    c.ev("fragments %s", frag_str(fr).c_str());
    c.fault(fr.size() > 1 ? "fragmentation" : "single-fragment");
    check(c, k, in.bytes, fr, whole, "random");
  }
  if (in.bytes.size() > 1) c.nontrivial();
}
// every single cut point (and, for short inputs, every pair) of one input
void all_cuts(Ctx &c) {
  auto &k = pick_codec(c);
  GenOpt g; g.exts = true; g.budget = 1 + static_cast<int>(c.pick(6)); g.max_len = 20; g.unknown = c.chance(1, 4);
  auto t = gen(c, k.s, g);
  PeerOpt o; o.swarm(c);
  std::string in = c.pick(3) ? encode_peer(c, *t, o) : encode_canonical(*t);
  if (c.chance(1, 4)) in = damage(c, in);
  if (in.size() > 160) in.resize(160), c.fault("truncate");
  c.ev("message=%s trait=%s bytes=%s", k.name, k.trait, to_hex(in).c_str());
  Decoded whole(k);
  whole.decode(D_CONTIG, in);
  std::size_t n = in.size();
  for (std::size_t i = 0; i <= n; ++i) check(c, k, in, {i, n - i}, whole, "cut");
  c.fault("fragmentation");
  if (n <= 24) for (std::size_t i = 0; i <= n; ++i) for (std::size_t j = i; j <= n; ++j) check(c, k, in, {i, j - i, n - j}, whole, "cuts");
  for (std::size_t w : {1u, 2u, 3u, 7u, 15u, 16u, 17u, 18u}) {
    std::vector<std::size_t> fr; for (std::size_t p = 0; p < n; p += w) fr.push_back(std::min<std::size_t>(w, n - p));
    if (fr.empty()) fr.push_back(0);
    check(c, k, in, fr, whole, "uniform");
  }
  if (n > 1) c.nontrivial();
}
// long packed runs and long strings straddling many chunks
void big_runs(Ctx &c) {
  auto &k = pick_codec(c);
  GenOpt g; g.big = true; g.budget = 24;
  auto t = gen(c, k.s, g);
  PeerOpt o; o.packing = c.pick(2); o.overlong_val = c.chance(1, 4);
  std::string in = encode_peer(c, *t, o);
  if (c.chance(1, 5)) { in.resize(in.size() ? c.pick(static_cast<std::uint32_t>(in.size())) : 0); c.fault("truncate"); }
  c.ev("message=%s trait=%s size=%zu", k.name, k.trait, in.size());
  c.evh("in", in.data(), in.size());
  Decoded whole(k);
  whole.decode(D_CONTIG, in);
  if (in.size() > 1000) c.probe("input>1000B");
  for (int r = 0; r < 4; ++r) { auto fr = fragments(c, in.size()); c.fault("fragmentation"); check(c, k, in, fr, whole, "big"); }
  if (in.size() > 1) c.nontrivial();
}
} // namespace
SIM_SCENARIO("C01", "random-fragmentation", 6, random_frag)
SIM_SCENARIO("C01", "all-cut-points", 2, all_cuts)
SIM_SCENARIO("C01", "big-runs", 2, big_runs)
