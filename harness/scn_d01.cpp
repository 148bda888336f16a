// D01: dynamic messages and generated messages are interchangeable on the wire.
#include "dyn.hpp"
#include "build.hpp"
#include "sinks.hpp"
using namespace hv;
namespace {
const char *mode_names[] = {"contiguous", "chunked", "padded", "contiguous+cache", "chunked+cache", "limit 1", "limit 5", "limit 5 chunked", "limit 1000", "limit 0 chunked", "limit 5 padded"};
const Codec &pick_dyn(Ctx &c) { return pick_codec_if(c, [](const Codec &k) { return !strcmp(k.trait, "dynamic"); }); }
const Codec *pick_gen(Ctx &c, const MsgS *s) {
  std::vector<const Codec *> v;
  for (auto *k : codecs_of(s)) if (strcmp(k->trait, "dynamic")) v.push_back(k);
  if (v.empty()) return nullptr;
  return v[c.pick(static_cast<std::uint32_t>(v.size()))];
}
bool is_chunked(DecMode m) { return m == D_CHUNK || m == D_CHUNK_CACHE || m == D_LIM5_CHUNK || m == D_LIM0_CHUNK; }
int limit_of(DecMode m) { switch (m) { case D_LIM1: return 1; case D_LIM5: case D_LIM5_CHUNK: case D_LIM5_PADDED: return 5; case D_LIM100X: return 1000; case D_LIM0_CHUNK: return 0; default: return 100; } }
// the input means the same under every documented deviation (C05's known findings): only then must everybody agree
bool undisputed(const Codec &k, const std::string &in, int limit, bool *ok, Msg *want) {
  RefOpt o; o.limit = limit;
  *want = ref_tree(k, in, ok, o);
  for (int i = 1; i < 8; ++i) {
    RefOpt p = o; p.known_dialect = i & 1; p.lenient_closed_map = i & 2; p.u32_max5 = i & 4;
    bool ok2; Msg w = ref_tree(k, in, &ok2, p);
    if (ok2 != *ok || (*ok && !diff(*want, w).empty())) return false;
  }
  return true;
}
void look(Ctx &c, const Codec &k, const Obj &o, Msg &out, const char *when) {
  auto *d = static_cast<DynObj *>(o.p);
  out = Msg{};
  auto e = dyn_read(d->m.cref(), d->s, out);
  if (!e.empty()) c.fail("api-contradiction", "%s %s: %s", k.name, when, e.c_str());
}
// every way of looking at the message gives the same content and looking does not change it
void inspect(Ctx &c, const Codec &k, const Obj &o, Msg &t) {
  look(c, k, o, t, "read through constant references");
  auto *d = static_cast<DynObj *>(o.p);
  auto e = dyn_read_mref(d->m, d->s);
  if (!e.empty()) c.fail("api-contradiction", "%s read through mutable references: %s", k.name, e.c_str());
  Msg again;
  look(c, k, o, again, "read again");
  auto df = diff(t, again);
  if (!df.empty()) c.fail("reading-changes", "%s: reading through mutable references changed the message: %s", k.name, df.c_str());
}
void same(Ctx &c, const Codec &k, const char *what, const Msg &want, const Msg &got, const std::string &in) {
  auto df = diff(want, got);
  if (!df.empty()) c.fail("content-differs", "%s: %s: %s; bytes %s", k.name, what, df.c_str(), to_hex(in).c_str());
}
void encode_side(Ctx &c, const Codec &k, const Obj &o, const Msg &t) {
  auto e = encode(o);
  if (e.ec != 0) c.fail("encode-failed", "%s: encoding the dynamic message failed with %d: %s", k.name, e.ec, show(t).c_str());
  bool ok; Msg peer = ref_tree(k, e.bytes, &ok);
  if (!ok) c.fail("encode-invalid", "%s: the encoding of the dynamic message is not valid: %s", k.name, to_hex(e.bytes).c_str());
  same(c, k, "a peer decodes the dynamic message's encoding differently", peer, t, e.bytes);
  RefOpt rd; rd.as_declared = true; RefErr why; Msg dm; dm.t = k.s;
  if (!ref_decode(e.bytes, dm, rd, &why)) c.fail("not-as-declared", "%s: %s: %s of %s", k.name, why.what ? why.what : "?", to_hex(e.bytes).c_str(), show(t).c_str());
  if (auto *g = pick_gen(c, k.s)) {
    Decoded d(*g);
    d.decode(D_CONTIG, e.bytes);
    if (d.ec != 0) c.fail("encode-invalid", "%s: the generated type (%s) rejects the dynamic message's encoding with %d: %s", k.name, g->trait, d.ec, to_hex(e.bytes).c_str());
    auto gt = d.tree();
    same(c, k, "the generated type decodes the dynamic message's encoding differently", gt, t, e.bytes);
    auto ge = encode(d.o);
    Decoded back(k);
    back.decode(D_CONTIG, ge.bytes);
    if (ge.ec != 0 || back.ec != 0) c.fail("encode-invalid", "%s: generated encode %d, dynamic decode %d of it: %s", k.name, ge.ec, back.ec, to_hex(ge.bytes).c_str());
    Msg bt; look(c, k, back.o, bt, "decoded from the generated type's encoding");
    same(c, k, "the value changed on its way through the generated type", t, bt, ge.bytes);
  }
  for (unsigned i = 0, n = c.pick(4); i < n; ++i) {
    static const int ms[] = {E_VECTOR, E_STRING, E_APPEND, E_SPAN, E_SINK_CONTIG, E_SINK_ADAPT, E_SINK_CHUNK, E_SINK_CHUNK, E_SINK_DEFAULT, E_NONOWN, E_VECTOR_CACHE};
    encode_into(c, k, o, e.bytes, ms[c.pick(11)]);
  }
}
void one_input(Ctx &c, const Codec &k, Decoded &d, const Input &in, DecMode m) {
  std::vector<std::size_t> fr;
  if (is_chunked(m)) { fr = fragments(c, in.bytes.size()); c.fault("fragmentation"); }
  int fill = c.pick(2) ? 0xff : 0;
  d.decode(m, in.bytes, is_chunked(m) ? &fr : nullptr, fill);
  c.step();
  c.ev("%s %s: ec=%d %s", k.name, mode_names[m], d.ec, to_hex(in.bytes, 80).c_str());
  bool ok; Msg want;
  bool und = undisputed(k, in.bytes, limit_of(m), &ok, &want);
  if (!und) c.probe("disputed-encoding");
  if (und && in.kind <= IN_PEER && (d.ec == 0) != ok && limit_of(m) == 100) c.fail("acceptance-differs", "%s: %s decode of a valid encoding gives %d: %s", k.name, mode_names[m], d.ec, to_hex(in.bytes).c_str());
  std::vector<const Codec *> gs;
  for (auto *g : codecs_of(k.s)) if (strcmp(g->trait, "dynamic")) gs.push_back(g);
  Msg t; bool have = false;
  if (d.ec == 0) { inspect(c, k, d.o, t); have = true; c.state(hash(t)); }
  if (und && have && ok) same(c, k, "content differs from the wire's", want, t, in.bytes);
  for (auto *g : gs) {
    Decoded x(*g);
    x.decode(m, in.bytes, is_chunked(m) ? &fr : nullptr, fill);
    if (!und) continue;
    if ((x.ec == 0) != (d.ec == 0)) c.fail("acceptance-differs", "%s: %s decode (pieces %s) gives %d as a dynamic message and %d as a generated one (%s); the reference says %s: %s", k.name, mode_names[m], frag_str(fr).c_str(), d.ec, x.ec, g->trait, ok ? "valid" : "invalid", to_hex(in.bytes).c_str());
    if (x.ec == 0) { auto gt = x.tree(); same(c, k, g->trait, gt, t, in.bytes); }
  }
  if (have) encode_side(c, k, d.o, t);
}
const DecMode modes[] = {D_CONTIG, D_CHUNK, D_PADDED, D_CONTIG_CACHE, D_CHUNK_CACHE, D_LIM1, D_LIM5, D_LIM5_CHUNK, D_LIM100X, D_LIM0_CHUNK, D_LIM5_PADDED};
void interchange(Ctx &c) {
  auto &k = pick_dyn(c);
  auto in = gen_input(c, k.s, 1, 4, 3, 1, c.chance(1, 8));
  if (in.tree) c.ev("value %s", show(*in.tree).c_str());
  Decoded d(k);
  one_input(c, k, d, in, c.pick(3) ? modes[c.pick(3)] : modes[c.pick(11)]);
  if (in.bytes.size() > 2) c.nontrivial();
}
// one dynamic message, used again and again, also after failed decodes
void reuse(Ctx &c) {
  auto &k = pick_dyn(c);
  Decoded d(k);
  for (unsigned i = 0, n = 2 + c.pick(4); i < n; ++i) {
    auto in = gen_input(c, k.s, 1, 3, 2, 1);
    one_input(c, k, d, in, c.pick(3) ? modes[c.pick(3)] : modes[c.pick(11)]);
    if (c.chance(1, 6)) { // a fresh look at an emptied message
      static_cast<DynObj *>(d.o.p)->m.reset();
      Msg t; inspect(c, k, d.o, t);
      Msg empty; empty.t = k.s; empty.keeps = false; fill_required(empty);
      same(c, k, "content after reset()", empty, t, "");
      auto e = encode(d.o);
      if (e.ec != 0 || !e.bytes.empty()) c.fail("reset-leaves", "%s: a reset message encodes to %s", k.name, to_hex(e.bytes).c_str());
    }
  }
  c.nontrivial();
}
} // namespace
SIM_SCENARIO("D01", "interchange", 5, interchange)
SIM_SCENARIO("D01", "reuse", 3, reuse)
