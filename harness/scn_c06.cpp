// C06: what is encoded is what every conforming peer decodes.
#include "build.hpp"
using namespace hv;
namespace {
void roundtrip(Ctx &c) {
  auto &k = pick_codec(c);
  auto want = gen_value(c, k.s, 2 + static_cast<int>(c.pick(40)), c.chance(1, 8));
  Built b(c, k, *want);
  c.ev("message=%s trait=%s value %s", k.name, k.trait, show(b.t).c_str());
  c.state(hash(b.t));
  auto e = encode(b.o);
  c.evh("encoded", e.bytes.data(), e.bytes.size());
  if (e.ec != 0) c.fail("encode-failed", "%s/%s: encoding failed with %d: %s", k.name, k.trait, e.ec, show(b.t).c_str());
  // the peer: an independent decoder that knows the same schema
  bool ok; RefOpt ro; Msg peer = ref_tree(k, e.bytes, &ok, ro);
  if (!ok) c.fail("peer-rejects", "%s/%s: a conforming peer rejects the encoding %s of %s", k.name, k.trait, to_hex(e.bytes).c_str(), show(b.t).c_str());
  peer.keeps = b.t.keeps;
  RefOpt rd; rd.as_declared = rd.exts = true; RefErr why; Msg dm; dm.t = k.s;
  if (!ref_decode(e.bytes, dm, rd, &why)) c.fail("not-as-declared", "%s/%s: %s: %s of %s", k.name, k.trait, why.what ? why.what : "?", to_hex(e.bytes).c_str(), show(b.t).c_str());
  auto df = diff(b.t, peer);
  if (!df.empty()) {
    bool nz = df.find("-zero") != std::string::npos;
    c.fail(nz ? "negative-zero" : "peer-differs", "%s/%s: a conforming peer decodes something else: %s; bytes %s", k.name, k.trait, df.c_str(), to_hex(e.bytes).c_str());
  }
  auto e2 = encode(b.o, E_VECTOR, std::string(c.pick(200), '\x7f'));
  if (e2.ec != 0 || e2.bytes != e.bytes) c.fail("not-deterministic", "%s/%s: encoding the same value again gave other bytes: %s vs %s", k.name, k.trait, to_hex(e.bytes).c_str(), to_hex(e2.bytes).c_str());
  // the size announced in advance
  Sink s; s.tail = 64 + c.pick(4096); s.exact_first = true;
  EncArgs a; a.mode = E_SINK_CHUNK; a.sink = &s;
  int ec = k.encode(b.o.p, a);
  if (ec != 0 || s.msg_size != e.bytes.size() || s.size_calls != 1) c.fail("wrong-size", "%s/%s: announced %zu bytes (%d calls), encoded %zu (status %d)", k.name, k.trait, s.msg_size, s.size_calls, e.bytes.size(), ec);
  // this library itself, through another storage trait of the same message
  auto ks = codecs_of(k.s);
  auto &k2 = *ks[c.pick(static_cast<std::uint32_t>(ks.size()))];
  Decoded back(k2);
  std::vector<std::size_t> fr; bool ch = c.pick(2);
  if (ch) { fr = fragments(c, e.bytes.size()); c.fault("fragmentation"); }
  back.decode(ch ? D_CHUNK : D_CONTIG, e.bytes, ch ? &fr : nullptr);
  if (back.ec != 0) c.fail("own-decode-rejects", "%s/%s: own encoding rejected with %d by %s: %s", k.name, k.trait, back.ec, k2.trait, to_hex(e.bytes).c_str());
  auto t2 = back.tree(); Msg t1 = b.t; if (!t2.keeps) t1.keeps = false;
  df = diff(t1, t2);
  if (!df.empty()) c.fail("own-decode-differs", "%s/%s: own decode (%s) differs: %s; bytes %s", k.name, k.trait, k2.trait, df.c_str(), to_hex(e.bytes).c_str());
  if (&k2 == &k) {
    auto e3 = encode(back.o);
    if (e3.ec != 0 || e3.bytes.size() != e.bytes.size()) c.fail("unstable-encoding", "%s/%s: re-encoding after a round trip changed the size %zu -> %zu", k.name, k.trait, e.bytes.size(), e3.bytes.size());
  }
  if (e.bytes.size() > 2) c.nontrivial();
}
// several hops between implementations: generated code and reference peers re-encode in turn
void hops(Ctx &c) {
  auto &k = pick_codec(c);
  auto want = gen_value(c, k.s, 2 + static_cast<int>(c.pick(20)));
  fill_required(*want);
  std::string wire = encode_canonical(*want);
  bool ok0; auto w0 = clone(ref_tree(k, wire, &ok0)); // extensions as the raw records an extendable message stores
  auto ks = codecs_of(k.s);
  unsigned n = 2 + c.pick(5);
  c.ev("message=%s %s", k.name, show(*want).c_str());
  for (unsigned i = 0; i < n; ++i) {
    auto &h = *ks[c.pick(static_cast<std::uint32_t>(ks.size()))];
    Decoded d(h); std::vector<std::size_t> fr = fragments(c, wire.size());
    d.decode(c.pick(2) ? D_CHUNK : D_CONTIG, wire, &fr);
    if (d.ec != 0) c.fail("hop-rejects", "hop %u %s/%s rejected %s with %d", i, h.name, h.trait, to_hex(wire).c_str(), d.ec);
    auto e = encode(d.o);
    if (e.ec != 0) c.fail("encode-failed", "hop %u %s/%s: encoding failed with %d", i, h.name, h.trait, e.ec);
    apply_keeps(*w0, d.tree());
    bool ok; Msg got = ref_tree(k, e.bytes, &ok);
    if (!ok) c.fail("peer-rejects", "hop %u %s/%s: peer rejects %s", i, h.name, h.trait, to_hex(e.bytes).c_str());
    auto df = diff(*w0, got);
    if (!df.empty()) c.fail("hop-changes-value", "hop %u %s/%s: %s; bytes %s", i, h.name, h.trait, df.c_str(), to_hex(e.bytes).c_str());
    wire = e.bytes;
    if (c.pick(3) == 0) { PeerOpt o; o.shuffle = o.packing = true; o.interleave = c.pick(2); wire = encode_peer(c, got, o); c.fault("peer-reencode"); }
    c.step();
  }
  if (wire.size() > 2) c.nontrivial();
}
} // namespace
SIM_SCENARIO("C06", "encode-and-peer-decode", 5, roundtrip)
SIM_SCENARIO("C06", "hops", 2, hops)
