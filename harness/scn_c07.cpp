// C07: unknown fields and extensions survive store-and-forward through older nodes.
#include "build.hpp"
using namespace hv;
namespace {
struct Pair { const char *oldn, *newn; };
const Pair pairs[] = {{"p2.Old2", "p2.All2"}, {"p2.OldX2", "p2.All2"}, {"p3.Old3", "p3.All3"}};

// fields whose value must be identical for a peer that knows the newer schema: those the older one does not know
// (a oneof that the older schema knows in part may change its winner, as with any implementation)
bool opaque(const MsgS *o, const MsgS *n, const FieldS &f) {
  if (o->by_num.count(f.num)) return false;
  if (f.oneof < 0 || f.ext) return true;
  for (auto &g : n->fields) if (g.oneof == f.oneof && o->by_num.count(g.num)) return false;
  return true;
}
Msg only_opaque(const MsgS *o, const Msg &m) {
  Msg r; r.t = m.t; r.unk = m.unk;
  for (auto &[n, f] : m.f) if (opaque(o, m.t, *f.f)) r.f[n] = f;
  return r;
}
void forward(Ctx &c) {
  auto &pr = pairs[c.pick(3)];
  const MsgS *os = find_msg(pr.oldn), *ns = find_msg(pr.newn);
  std::vector<const Codec *> ks;
  for (auto *k : codecs_of(os)) ks.push_back(k);
  GenOpt g; g.exts = true; g.budget = 2 + static_cast<int>(c.pick(40)); g.unknown = c.pick(2); g.big = c.chance(1, 20);
  auto t = gen(c, ns, g);
  std::string wire;
  if (c.pick(3) == 0) wire = encode_canonical(*t);
  else {
    PeerOpt o; o.swarm(c); o.no_known(); o.other_oneof = false; // the order across field numbers is not promised
    wire = encode_peer(c, *t, o);
  }
  RefOpt ro; ro.exts = true;
  Msg orig; orig.t = ns;
  if (!ref_decode(wire, orig, ro)) c.fail("sim-harness", "peer encoding rejected by the reference");
  c.ev("newer peer (%s) sends %s = %s", pr.newn, show(orig).c_str(), to_hex(wire).c_str());
  unsigned hops = 1 + c.pick(4);
  Msg expect_old; bool ok; 
  for (unsigned i = 0; i < hops; ++i) {
    auto &k = *ks[c.pick(static_cast<std::uint32_t>(ks.size()))];
    expect_old = ref_tree(k, wire, &ok);
    if (!ok) c.fail("bad-forwarded-bytes", "hop %u: an older peer rejects the forwarded message %s", i, to_hex(wire).c_str());
    Decoded d(k); auto fr = fragments(c, wire.size());
    DecMode m = c.pick(2) ? D_CHUNK : D_CONTIG;
    if (m == D_CHUNK) c.fault("fragmentation");
    d.decode(m, wire, &fr);
    if (d.ec != 0) c.fail("hop-rejects", "hop %u %s/%s: decode failed with %d: %s", i, k.name, k.trait, d.ec, to_hex(wire).c_str());
    auto got = d.tree();
    auto df = diff(expect_old, got);
    if (!df.empty()) c.fail("hop-decodes-wrong", "hop %u %s/%s (%s): %s; input %s", i, k.name, k.trait, m == D_CHUNK ? frag_str(fr).c_str() : "contiguous", df.c_str(), to_hex(wire).c_str());
    if (c.pick(2)) { // the older node edits fields it knows
      for (unsigned e = 0, n = 1 + c.pick(3); e < n; ++e) {
        auto &f = os->fields[c.pick(static_cast<std::uint32_t>(os->fields.size()))];
        if (f.oneof >= 0) continue;
        auto before = d.tree();
        static const char *strs[] = {"", "edited", "a-longer-edited-value-that-does-not-fit-the-small-buffer"};
        if (k.set_field(d.o.p, f.num, c.bits64(), strs[c.pick(3)])) {
          c.fault("edit-known-field");
          auto after = d.tree();
          before.f.erase(f.num); Msg a2 = after; a2.f.erase(f.num);
          df = diff(before, a2);
          if (!df.empty()) c.fail("edit-side-effect", "hop %u %s/%s: editing %s changed something else: %s", i, k.name, k.trait, f.name, df.c_str());
        }
      }
      got = d.tree();
    }
    // copies forward what the original would
    Obj cp(&k, c.pick(2) ? k.copy(d.o.p) : k.create());
    bool copied = false;
    if (c.pick(3) == 0) { k.assign(cp.p, d.o.p); copied = true; c.probe("forwarded-copy"); }
    auto e = encode(copied ? cp : d.o);
    if (e.ec != 0) c.fail("encode-failed", "hop %u %s/%s: encoding failed with %d", i, k.name, k.trait, e.ec);
    bool ok2; Msg back = ref_tree(k, e.bytes, &ok2);
    if (!ok2) c.fail("bad-forwarded-bytes", "hop %u %s/%s: forwarded bytes are malformed: %s (received %s)", i, k.name, k.trait, to_hex(e.bytes).c_str(), to_hex(wire).c_str());
    df = diff(got, back);
    if (!df.empty()) c.fail("hop-loses", "hop %u %s/%s: forwarded message differs: %s; received %s, sent %s", i, k.name, k.trait, df.c_str(), to_hex(wire).c_str(), to_hex(e.bytes).c_str());
    Msg nw; nw.t = ns;
    if (!ref_decode(e.bytes, nw, ro)) c.fail("newer-peer-rejects", "hop %u %s/%s: the newer peer rejects %s (sent %s)", i, k.name, k.trait, to_hex(e.bytes).c_str(), to_hex(wire).c_str());
    df = diff(only_opaque(os, orig), only_opaque(os, nw));
    if (!df.empty()) c.fail("newer-peer-sees-other", "hop %u %s/%s: newer peer sees a different value: %s; received %s, sent %s", i, k.name, k.trait, df.c_str(), to_hex(wire).c_str(), to_hex(e.bytes).c_str());
    c.step();
    c.state(hash(nw));
    wire = e.bytes;
    if (!got.unk.empty()) c.probe("unknown-fields-carried");
  }
  if (wire.size() > 2) c.nontrivial();
}
// one record holding field f of tree h
std::string ext_wire(const MsgS *s, const Fld &f) {
  Msg m; m.t = s; m.f[f.f->num] = f;
  return encode_canonical(m);
}
Msg with_exts(Ctx &c, const Codec &k, const Obj &o, std::string *bytes) {
  auto e = encode(o);
  if (e.ec != 0) c.fail("encode-failed", "%s/%s: encoding failed with %d", k.name, k.trait, e.ec);
  RefOpt ro; ro.exts = true; bool ok;
  Msg m = ref_tree(k, e.bytes, &ok, ro);
  if (!ok) c.fail("peer-rejects", "%s/%s: a peer that knows the extensions rejects %s", k.name, k.trait, to_hex(e.bytes).c_str());
  if (bytes) *bytes = e.bytes;
  return m;
}
// edit histories over the extensions of one message, with transfers in between
void ext_history(Ctx &c) {
  auto &k0 = pick_codec_if(c, [](const Codec &k) { return !k.exts.empty(); });
  auto ks = codecs_of(k0.s);
  auto d = std::make_unique<Decoded>(k0);
  GenOpt g; g.exts = true; g.budget = static_cast<int>(c.pick(15)); g.unknown = c.chance(1, 3);
  auto t = gen(c, k0.s, g);
  std::string wire;
  if (c.pick(2)) { PeerOpt o; o.swarm(c); o.no_known(); wire = encode_peer(c, *t, o); } else wire = encode_canonical(*t);
  d->decode(D_CONTIG, wire);
  if (d->ec != 0) c.fail("hop-rejects", "%s/%s rejects %s with %d", k0.name, k0.trait, to_hex(wire).c_str(), d->ec);
  RefOpt ro; ro.exts = true; bool ok;
  auto m0 = clone(ref_tree(k0, wire, &ok, ro));
  apply_keeps(*m0, d->tree());
  Msg model = with_exts(c, k0, d->o, nullptr);
  auto df0 = diff(*m0, model);
  if (!df0.empty()) c.fail("transfer-loses", "%s/%s: %s after decoding %s", k0.name, k0.trait, df0.c_str(), to_hex(wire).c_str());
  c.ev("message %s/%s %s", k0.name, k0.trait, show(model).c_str());
  const Codec *k = &k0;
  unsigned n = 2 + c.pick(10);
  for (unsigned i = 0; i < n; ++i) {
    auto &x = k->exts[c.pick(static_cast<std::uint32_t>(k->exts.size()))];
    const FieldS &f = *x.f;
    switch (c.weighted(4, 3, 2, 1)) {
    case 0: { // set
      Fld fl; fl.f = &f;
      GenOpt go; go.max_len = 30; int budget = 4;
      unsigned cnt = f.card == REP ? c.pick(4) : 1;
      for (unsigned j = 0; j < cnt; ++j) { if (f.card != REP && c.chance(1, 4) && !f.is_msg()) { Val z; z.u = f.kind == ENUM ? f.dflt : 0; fl.v.push_back(z); c.probe("set-to-default"); } else fl.v.push_back(gen_val(c, f, go, budget, 0)); }
      Msg held; held.t = k->s;
      int ec = x.set(d->o.p, ext_wire(k->s, fl), held, &d->mr);
      c.ev("set %s = %s -> %d", f.name, show(held).c_str(), ec);
      c.fault("set-extension");
      if (ec != 0) c.fail("set-failed", "%s/%s: setting %s failed with %d", k->name, k->trait, f.name, ec);
      std::string b; Msg now = with_exts(c, *k, d->o, &b);
      Msg rep = *clone(model); rep.f.erase(f.num); rep.unk.erase(f.num);
      if (held.f.count(f.num)) rep.f[f.num] = held.f[f.num];
      std::string cat = encode_canonical(model) + (held.f.count(f.num) ? ext_wire(k->s, held.f[f.num]) : std::string());
      bool ok3; Msg sup = ref_tree(*k, cat, &ok3, ro);
      auto d1 = diff(rep, now), d2 = diff(sup, now);
      if (!d1.empty() && !(ok3 && d2.empty())) c.fail("set-extension-wrong", "%s/%s: after setting %s: %s; message is now %s", k->name, k->trait, f.name, d1.c_str(), to_hex(b).c_str());
      model = std::move(now);
      break;
    }
    case 1: { // get
      if (f.kind == ENUM && f.e->closed && model.unk.count(f.num)) break;
      Msg out; out.t = k->s;
      int ec = x.get(d->o.p, out, &d->mr);
      auto it = model.f.find(f.num);
      if (ec != 0) c.fail("get-failed", "%s/%s: reading %s failed with %d; message %s", k->name, k->trait, f.name, ec, show(model).c_str());
      if (it != model.f.end()) {
        Msg w; w.t = k->s; w.f[f.num] = it->second;
        auto df = diff(w, out);
        if (!df.empty()) c.fail("get-extension-wrong", "%s/%s: reading %s: %s", k->name, k->trait, f.name, df.c_str());
        c.probe("get-present");
      } else if (out.f.count(f.num) && f.card == REP) c.fail("get-extension-wrong", "%s/%s: %s has elements although it was never set", k->name, k->trait, f.name);
      break;
    }
    case 2: { // has
      bool h = x.has(d->o.p), w = model.f.count(f.num);
      if (f.card != REP && !model.unk.count(f.num) && h != w) c.fail("has-extension-wrong", "%s/%s: has(%s) = %d, the encoded message %s it", k->name, k->trait, f.name, h, w ? "carries" : "does not carry");
      if (w && !h) c.fail("has-extension-wrong", "%s/%s: has(%s) is false although it carries elements", k->name, k->trait, f.name);
      break;
    }
    default: { // transfer to another node
      auto e = encode(d->o);
      k = ks[c.pick(static_cast<std::uint32_t>(ks.size()))];
      if (k->exts.empty()) k = &k0;
      auto nd = std::make_unique<Decoded>(*k); auto fr = fragments(c, e.bytes.size());
      nd->decode(c.pick(2) ? D_CHUNK : D_CONTIG, e.bytes, &fr);
      c.fault("transfer");
      if (nd->ec != 0) c.fail("hop-rejects", "%s/%s rejects %s with %d", k->name, k->trait, to_hex(e.bytes).c_str(), nd->ec);
      d = std::move(nd);
      auto m1 = clone(model); apply_keeps(*m1, d->tree());
      model = with_exts(c, *k, d->o, nullptr);
      auto df = diff(*m1, model);
      if (!df.empty()) c.fail("transfer-loses", "%s/%s: %s after a transfer (%s); bytes %s", k->name, k->trait, df.c_str(), frag_str(fr).c_str(), to_hex(e.bytes).c_str());
    }
    }
    c.step();
    c.state(hash(model));
  }
  c.nontrivial();
}
} // namespace
SIM_SCENARIO("C07", "forward", 4, forward)
SIM_SCENARIO("C07", "extension-history", 3, ext_history)
