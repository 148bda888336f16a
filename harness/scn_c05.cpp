// C05: every legal encoding a peer may send decodes to the value it denotes.
#include "scn.hpp"
using namespace hv;
namespace {
const DecMode modes[] = {D_CONTIG, D_CHUNK, D_PADDED};
const char *mode_name(DecMode m) { return m == D_CONTIG ? "contiguous" : m == D_CHUNK ? "chunked" : "padded"; }
// the known deviations are recognised by redoing the reference decode with exactly that deviation
std::string known_class(const Codec &k, const std::string &in, int ec, const Msg *got, const char *other) {
  for (int i = 1; i < 8; ++i) {
    RefOpt o; o.known_dialect = i & 1; o.lenient_closed_map = i & 2; o.u32_max5 = i & 4;
    bool ok; Msg w = ref_tree(k, in, &ok, o);
    if (ec != 0 && !ok) return i & 4 ? "uint32-long-varint" : "map-entry-form";
    if (ec == 0 && ok && got && diff(w, *got).empty()) return "closed-enum-map-value";
  }
  return other;
}
void expect(Ctx &c, const Codec &k, const std::string &in, const Msg &want, DecMode m) {
  Decoded d(k);
  std::vector<std::size_t> fr;
  if (m == D_CHUNK) { fr = fragments(c, in.size()); c.fault("fragmentation"); }
  d.decode(m, in, m == D_CHUNK ? &fr : nullptr, c.pick(2) ? 0xff : 0);
  c.step();
  if (d.ec != 0) c.fail(known_class(k, in, d.ec, nullptr, "valid-encoding-rejected").c_str(), "%s/%s: %s decode of a valid encoding failed with %d: %s", k.name, k.trait, mode_name(m), d.ec, to_hex(in).c_str());
  auto got = d.tree();
  auto df = diff(want, got);
  if (!df.empty()) c.fail(known_class(k, in, 0, &got, "wrong-value").c_str(), "%s/%s: %s decode: %s; input %s", k.name, k.trait, mode_name(m), df.c_str(), to_hex(in).c_str());
  c.state(hash(got));
}
void peer(Ctx &c) {
  auto &k = pick_codec(c);
  GenOpt g; g.exts = true; g.budget = 2 + static_cast<int>(c.pick(30)); g.big = c.chance(1, 10); g.unknown = c.chance(1, 4);
  auto t = gen(c, k.s, g);
  PeerOpt o; o.swarm(c);
  auto in = encode_peer(c, *t, o);
  if (c.chance(1, 4)) { auto t2 = gen(c, k.s, g); in += encode_peer(c, *t2, o); c.probe("concatenated"); }
  bool ok; Msg want = ref_tree(k, in, &ok);
  c.ev("message=%s trait=%s bytes=%s", k.name, k.trait, to_hex(in).c_str());
  if (!ok) c.fail("sim-harness", "the simulated peer produced an encoding the reference rejects: %s %s", k.name, to_hex(in, 4000).c_str());
  c.ev("value %s", show(want).c_str());
  auto m = modes[c.pick(3)];
  expect(c, k, in, want, m);
  if (c.pick(2)) expect(c, k, in, want, modes[c.pick(3)]);
  if (in.size() > 2) c.nontrivial();
}
// decoding into an object that already holds something replaces it, and a failed decode does not poison the object
void reuse(Ctx &c) {
  auto &k = pick_codec(c);
  Decoded d(k);
  for (unsigned i = 0, n = 2 + c.pick(4); i < n; ++i) {
    auto in = gen_input(c, k.s, 1, 3, 2, 1);
    bool ok; Msg want = ref_tree(k, in.bytes, &ok);
    auto m = modes[c.pick(3)];
    std::vector<std::size_t> fr; if (m == D_CHUNK) fr = fragments(c, in.bytes.size());
    d.decode(m, in.bytes, m == D_CHUNK ? &fr : nullptr);
    c.ev("%s decode into the same %s/%s object: ec=%d %s", mode_name(m), k.name, k.trait, d.ec, to_hex(in.bytes, 60).c_str());
    if (in.kind <= IN_PEER) {
      if (d.ec != 0) c.fail(known_class(k, in.bytes, d.ec, nullptr, "valid-encoding-rejected").c_str(), "%s/%s: decode into a used object failed with %d: %s", k.name, k.trait, d.ec, to_hex(in.bytes).c_str());
      auto got = d.tree();
      auto df = diff(want, got);
      if (!df.empty()) c.fail(known_class(k, in.bytes, 0, &got, "stale-state").c_str(), "%s/%s: decode into a used object: %s; input %s", k.name, k.trait, df.c_str(), to_hex(in.bytes).c_str());
      c.state(hash(want));
    }
  }
  c.nontrivial();
}
} // namespace
SIM_SCENARIO("C05", "peer-encodings", 5, peer)
SIM_SCENARIO("C05", "object-reuse", 2, reuse)
