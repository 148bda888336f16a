// C09: the recursion limit is exact and the same everywhere.
#include "build.hpp"
using namespace hv;
namespace {
void put_tag(std::string &o, std::uint32_t num, unsigned wt) { put_varint(o, static_cast<std::uint64_t>(num) << 3 | wt); }
// wraps `inner` into one occurrence of field f
std::string wrap(Ctx &c, const FieldS &f, const std::string &inner) {
  std::string o;
  if (f.kind == GRP) { put_tag(o, f.num, 3); o += inner; put_tag(o, f.num, 4); return o; }
  std::string body = inner;
  if (f.card == MAP) {
    const FieldS &kf = f.m->fields[0], &vf = f.m->fields[1];
    Msg e; e.t = f.m; GenOpt g; int b = 1;
    Fld k; k.f = &kf; k.v.push_back(gen_val(c, kf, g, b, 0)); e.f[1] = k;
    std::string kb;
    if (kf.is_len()) { put_tag(kb, 1, 2); put_varint(kb, e.f[1].v[0].s.size()); kb += e.f[1].v[0].s; }
    else kb = std::string(); // default key: sent explicitly below
    if (kb.empty()) { unsigned wt = kf.kind == F32 || kf.kind == SF32 ? 5 : kf.kind == F64 || kf.kind == SF64 ? 1 : 0; put_tag(kb, 1, wt); kb += wt == 0 ? std::string(1, '\1') : std::string(wt == 5 ? 4 : 8, '\1'); }
    std::string vb;
    if (vf.kind == GRP) { put_tag(vb, 2, 3); vb += inner; put_tag(vb, 2, 4); } else { put_tag(vb, 2, 2); put_varint(vb, inner.size()); vb += inner; }
    body = kb + vb;
  }
  put_tag(o, f.num, 2); put_varint(o, body.size()); o += body;
  return o;
}
struct Deep { std::string bytes; int levels; };
// nests along a random path below type s
Deep nest(Ctx &c, const MsgS *s, int levels, bool may_unknown) {
  struct Hop { const FieldS *f; std::uint32_t unk; const MsgS *in; };
  std::vector<Hop> path;
  const MsgS *t = s; int d = 0; bool unk = false;
  while (d < levels) {
    if (!unk && may_unknown && c.chance(1, 40)) unk = true;
    if (unk) { path.push_back({nullptr, pick_unknown_number(c, t, true), t}); ++d; continue; }
    std::vector<const FieldS *> cand;
    for (auto &f : t->fields) if (f.card == MAP ? f.m->fields[1].is_msg() : f.is_msg()) {
      const MsgS *n = f.card == MAP ? f.m->fields[1].m : f.m;
      int cost = f.card == MAP ? 2 : 1;
      if (d + cost > levels) continue;
      if (n->recursive || d + cost == levels || c.chance(1, 6)) cand.push_back(&f);
    }
    if (cand.empty()) { if (!may_unknown) break; unk = true; continue; }
    auto *f = cand[c.pick(static_cast<std::uint32_t>(cand.size()))];
    path.push_back({f, 0, t});
    t = f->card == MAP ? f->m->fields[1].m : f->m;
    d += f->card == MAP ? 2 : 1;
  }
  std::string b;
  // required fields of the visited types are absent: presence is not checked by this library
  for (auto i = path.rbegin(); i != path.rend(); ++i) {
    if (i->f) b = wrap(c, *i->f, b);
    else { std::string o; put_tag(o, i->unk, 3); o += b; put_tag(o, i->unk, 4); b = o; }
    if (c.chance(1, 6)) { // a shallow sibling, before or after
      std::string sib; put_unknown(c, sib, i->in, 0, true);
      if (i->f && i->in) { sib.clear(); for (auto &f : i->in->fields) if (f.kind == I32 && f.card != REP && f.card != MAP && f.oneof < 0) { put_tag(sib, f.num, 0); sib += '\5'; break; } }
      b = c.pick(2) ? sib + b : b + sib;
    }
  }
  return {b, d};
}
// smallest limit with which a conforming decoder accepts the input; -1: none
int need(const Codec &k, const std::string &in, int hi) {
  bool ok; RefOpt o; o.limit = hi;
  ref_tree(k, in, &ok, o);
  if (!ok) return -1;
  int lo = 0;
  while (lo < hi) { int m = (lo + hi) / 2; o.limit = m; ref_tree(k, in, &ok, o); if (ok) hi = m; else lo = m + 1; }
  return lo;
}
struct DM { DecMode m; int lim; const char *n; };
const DM dms[] = {{D_CONTIG, 100, "contiguous, default limit"}, {D_CHUNK, 100, "chunked, default limit"}, {D_PADDED, 100, "padded, default limit"}, {D_LIM1, 1, "contiguous, limit 1"}, {D_LIM5, 5, "contiguous, limit 5"}, {D_LIM5_CHUNK, 5, "chunked, limit 5"}, {D_LIM5_PADDED, 5, "padded, limit 5"}, {D_LIM0_CHUNK, 0, "chunked, limit 0"}};
void exact(Ctx &c) {
  auto &k = pick_codec(c);
  auto &dm = dms[c.pick(8)];
  int around = dm.lim + static_cast<int>(c.pick(5)) - 2;
  if (around < 0) around = 0;
  auto far = c.weighted(6, 1, 1);
  int levels = far == 0 ? around : far == 1 ? static_cast<int>(c.pick(static_cast<std::uint32_t>(dm.lim + 8))) : dm.lim + 1 + static_cast<int>(c.pick(300));
  bool unk = c.pick(2);
  auto dp = nest(c, k.s, levels, unk);
  c.ev("%s/%s %s: %d levels, %s", k.name, k.trait, dm.n, dp.levels, to_hex(dp.bytes, 300).c_str());
  int n = need(k, dp.bytes, 900);
  if (n != dp.levels) c.fail("sim-harness", "depth %d by construction, %d by the reference: %s", dp.levels, n, to_hex(dp.bytes).c_str());
  if (n == dm.lim) c.probe("exactly-at-limit");
  if (n == dm.lim + 1) c.probe("one-beyond-limit");
  c.fault(n > dm.lim ? "nested-beyond-limit" : "nested-within-limit");
  Decoded d(k); auto fr = fragments(c, dp.bytes.size());
  d.decode(dm.m, dp.bytes, &fr, c.pick(2) ? 0xff : 0);
  if ((d.ec == 0) != (n <= dm.lim)) c.fail("decode-limit", "%s/%s (%s): nested %d deep, limit %d, decode returned %d; input %s", k.name, k.trait, dm.n, n, dm.lim, d.ec, to_hex(dp.bytes, 400).c_str());
  // an attempt, failed or not, leaves later calls alone
  auto shallow = nest(c, k.s, dm.lim, unk);
  if (need(k, shallow.bytes, 900) <= dm.lim) {
    d.decode(dm.m, shallow.bytes, nullptr);
    if (d.ec != 0) c.fail("limit-poisons", "%s/%s (%s): after a decode %d deep, one %d deep fails with %d: %s", k.name, k.trait, dm.n, n, shallow.levels, d.ec, to_hex(shallow.bytes, 400).c_str());
  }
  c.state(sim::mix(static_cast<std::uint64_t>(n), sim::hash_bytes(dp.bytes.data(), dp.bytes.size())));
  c.step(2);
  if (n > 0) c.nontrivial();
}
struct EM { EncMode m; int lim; const char *n; };
const EM ems[] = {{E_VECTOR, 100, "vector, default limit"}, {E_SINK_CONTIG, 100, "contiguous sink, default limit"}, {E_SINK_ADAPT, 100, "adaptive sink, default limit"}, {E_SINK_CHUNK, 100, "chunked sink, default limit"}, {E_LIM1, 1, "vector, limit 1"}, {E_LIM5, 5, "vector, limit 5"}, {E_LIM5_SINK, 5, "chunked sink, limit 5"}};
void enc_exact(Ctx &c) {
  auto &k = pick_codec(c);
  auto &em = ems[c.pick(7)];
  int levels = std::max(0, em.lim + static_cast<int>(c.pick(5)) - 2);
  if (c.chance(1, 8)) levels = em.lim + 1 + static_cast<int>(c.pick(200));
  auto dp = nest(c, k.s, levels, false);
  Decoded d(k);
  d.decode(D_LIM100X, dp.bytes);
  if (d.ec != 0) c.fail("decode-limit", "%s/%s: nested %d deep with limit 1000, decode returned %d", k.name, k.trait, dp.levels, d.ec);
  int n = need(k, encode_canonical(d.tree()), 900); // required submessages count, sent or not
  c.ev("%s/%s %s: %d levels, %s", k.name, k.trait, em.n, n, to_hex(dp.bytes, 300).c_str());
  c.fault(n > em.lim ? "nested-beyond-limit" : "nested-within-limit");
  std::string out; Sink s; s.tail = 1 + c.pick(200); s.advertised = c.pick(4000); s.exact_first = em.m == E_SINK_CONTIG || em.m == E_SINK_ADAPT;
  EncArgs a; a.mode = em.m; a.out = &out; a.sink = &s; TrackMR mr, ca; a.mr = &mr; a.cache = &ca;
  int ec = k.encode(d.o.p, a);
  if ((ec == 0) != (n <= em.lim)) c.fail("encode-limit", "%s/%s (%s): value nested %d deep, limit %d, encode returned %d; built from %s", k.name, k.trait, em.n, n, em.lim, ec, to_hex(dp.bytes, 400).c_str());
  EncRes e2 = encode(d.o);
  if ((e2.ec == 0) != (n <= 100)) c.fail("limit-poisons", "%s/%s: plain encoding of a value nested %d deep returned %d after an attempt with another limit", k.name, k.trait, n, e2.ec);
  c.step(2);
  c.state(sim::mix(static_cast<std::uint64_t>(n), sim::hash_bytes(dp.bytes.data(), dp.bytes.size())));
  if (n > 0) c.nontrivial();
}
// far beyond any limit: an error, quickly, and no stack overflow
void abyss(Ctx &c) {
  auto &k = pick_codec(c);
  std::uint32_t depth = 1000 + c.pick(200000);
  std::string in;
  auto kind = c.pick(3);
  std::vector<const FieldS *> self;
  for (auto &f : k.s->fields) if (f.is_msg() && f.m == k.s) self.push_back(&f);
  if (kind == 0 || self.empty()) { // unterminated or terminated unknown groups
    auto n = pick_unknown_number(c, k.s, true);
    for (std::uint32_t i = 0; i < depth; ++i) put_tag(in, n, 3);
    if (c.pick(2)) for (std::uint32_t i = 0; i < depth; ++i) put_tag(in, n, 4);
  } else {
    depth = std::min(depth, 20000u);
    auto *f = self[c.pick(static_cast<std::uint32_t>(self.size()))];
    if (f->kind == GRP) for (std::uint32_t i = 0; i < depth; ++i) put_tag(in, f->num, 3);
    else {
      std::vector<std::size_t> len(depth + 1);
      std::string tg; put_tag(tg, f->num, 2);
      for (std::uint32_t i = 1; i <= depth; ++i) { std::string l; put_varint(l, len[i - 1]); len[i] = tg.size() + l.size() + len[i - 1]; }
      for (std::uint32_t i = depth; i >= 1; --i) { in += tg; put_varint(in, len[i - 1]); }
    }
  }
  c.fault("abyss");
  c.ev("%s/%s kind %u depth %u", k.name, k.trait, kind, depth);
  DecMode m = c.pick(2) ? D_CHUNK : D_CONTIG;
  auto fr = fragments(c, in.size());
  Decoded d(k);
  d.decode(m, in, &fr);
  if (d.ec == 0) c.fail("decode-limit", "%s/%s: input nested %u deep was accepted", k.name, k.trait, depth);
  d.decode(D_CONTIG, std::string());
  if (d.ec != 0) c.fail("limit-poisons", "%s/%s: empty message rejected with %d afterwards", k.name, k.trait, d.ec);
  c.step();
  c.state(sim::hash_bytes(in.data(), std::min<std::size_t>(in.size(), 5000)));
  c.nontrivial();
}
} // namespace
SIM_SCENARIO("C09", "decode-exact", 5, exact)
SIM_SCENARIO("C09", "encode-exact", 4, enc_exact)
SIM_SCENARIO("C09", "abyss", 1, abyss)
