// C04: hostile and damaged bytes.
#include "build.hpp"
using namespace hv;
namespace {
void put_tag(std::string &o, std::uint32_t num, unsigned wt) { put_varint(o, static_cast<std::uint64_t>(num) << 3 | wt); }
const struct { DecMode m; const char *n; } dms[] = {{D_CONTIG, "contiguous"}, {D_CHUNK, "chunked"}, {D_PADDED, "padded"}, {D_CONTIG_CACHE, "contiguous, cache"}, {D_CHUNK_CACHE, "chunked, cache"}};
std::size_t widest(const MsgS *s, std::size_t base) { // upper bound for the size of one element of any kind below s
  (void)s; return std::max<std::size_t>(base, 512) * 2; // element types of the schemas are never larger than their root
}
struct Cost { std::uint64_t bytes = 0, peak = 0, held = 0; };
// decodes `in` into obj; everything allocated is accounted for
int hit(Ctx &c, const Codec &k, void *obj, std::size_t mode, std::string_view in, const std::vector<std::size_t> *fr, std::vector<Guarded> &bufs, TrackMR &arena, TrackMR &dflt, TrackMR &cache, Cost &cost, int pad) {
  std::vector<Bytes> spans; DecArgs a; a.mode = dms[mode].m; a.mr = &arena; a.cache = &cache;
  bool ch = a.mode == D_CHUNK || a.mode == D_CHUNK_CACHE;
  if (ch) {
    std::size_t p = 0, b0 = bufs.size();
    for (auto n : *fr) { bufs.emplace_back(in.substr(p, n)); p += n; }
    for (auto i = b0; i < bufs.size(); ++i) spans.push_back(bufs[i].bytes());
    a.chunks = spans;
  } else { bufs.emplace_back(in, a.mode == D_PADDED ? 16 : 0, pad); a.in = bufs.back().bytes(); }
  auto b0 = arena.bytes + dflt.bytes + cache.bytes, l0 = arena.live_bytes + dflt.live_bytes;
  dflt.peak = dflt.live_bytes; cache.peak = cache.live_bytes;
  int ec;
  sim::HeapScope hs;
  try { ec = k.decode(obj, a); }
  catch (const std::bad_alloc &) { ec = -2; }
  hs.suspend();
  cost.bytes = hs.bytes() + arena.bytes + dflt.bytes + cache.bytes - b0;
  cost.peak = hs.peak() + arena.live_bytes + dflt.peak + cache.peak - l0;
  (void)c;
  return ec;
}
void usable(Ctx &c, const Codec &k, const void *obj, const char *mode, std::string_view in) {
  Msg t; t.t = k.s; k.tree(obj, t);
  c.state(hash(t));
  std::string out; EncArgs e; TrackMR m1(true), m2; e.mode = E_VECTOR; e.out = &out; e.mr = &m1; e.cache = &m2;
  int r = k.encode(obj, e);
  if (r != 0) c.fail("accepted-unusable", "%s/%s (%s): accepted, but encoding what was decoded fails with %d; input %s", k.name, k.trait, mode, r, to_hex(in, 500).c_str());
  Decoded d(k); d.decode(D_CONTIG, out);
  if (d.ec != 0) c.fail("accepted-unusable", "%s/%s (%s): accepted, but the re-encoding %s is rejected with %d; input %s", k.name, k.trait, mode, to_hex(out, 500).c_str(), d.ec, to_hex(in, 500).c_str());
  auto df = diff(t, d.tree());
  if (!df.empty()) c.fail("accepted-unusable", "%s/%s (%s): accepted, but re-encoding and decoding changes the value: %s; input %s", k.name, k.trait, mode, df.c_str(), to_hex(in, 500).c_str());
}
void proportional(Ctx &c, const Codec &k, const char *mode, std::size_t len, std::size_t nchunks, const Cost &x, int ec, const std::string &desc) {
  std::uint64_t w = widest(k.s, k.obj_size);
  std::uint64_t lim = (64u << 10) + 4 * w * (len / 2 + 8) + nchunks * 256;
  if (ec == -2 || x.peak > lim) c.fail("disproportionate-memory", "%s/%s (%s): %zu bytes of input made the decoder hold %llu bytes (limit %llu) and request %llu; %s", k.name, k.trait, mode, len, (unsigned long long)x.peak, (unsigned long long)lim, (unsigned long long)x.bytes, desc.c_str());
  if (x.bytes > 4 * lim) c.fail("disproportionate-work", "%s/%s (%s): %zu bytes of input made the decoder request %llu bytes in total (limit %llu); %s", k.name, k.trait, mode, len, (unsigned long long)x.bytes, (unsigned long long)(4 * lim), desc.c_str());
}
// Is this a sequence of complete fields? 0: certainly not, 1: yes, or not for this function to say (over-long tags and lengths)
int complete(std::string_view in) {
  std::size_t p = 0; std::vector<std::uint32_t> open;
  auto varint = [&](std::uint64_t &v, unsigned max) { v = 0; for (unsigned n = 0;; ++n) { if (n == max) return 1; if (p == in.size()) return 0; auto b = static_cast<unsigned char>(in[p++]); v |= static_cast<std::uint64_t>(b & 127) << (7 * n); if (b < 128) return 2; } };
  while (p < in.size()) {
    std::uint64_t t, v;
    if (auto q = varint(t, 5); q < 2) return q;
    if (t > 0xffffffffu) return 1;
    auto num = static_cast<std::uint32_t>(t >> 3); std::size_t n = 0;
    if (num == 0) return 0;
    switch (t & 7) {
    case 0: if (auto q = varint(v, 10); q < 2) return q; break;
    case 1: n = 8; break;
    case 5: n = 4; break;
    case 2: if (auto q = varint(v, 5); q < 2) return q; if (v > 0xffffffffu) return 1; n = v; break;
    case 3: open.push_back(num); if (open.size() > 90) return 1; break;
    case 4: if (open.empty() || open.back() != num) return 0; open.pop_back(); break;
    default: return 0;
    }
    if (in.size() - p < n) return 0;
    p += n;
  }
  return open.empty();
}
// damaged traffic into fresh and used objects
void hostile(Ctx &c) {
  auto &k = pick_codec(c);
  std::vector<Guarded> bufs; TrackMR arena(true), dflt, cache; DefaultMR g(&dflt);
  void *obj = k.create();
  struct Fin { const Codec &k; void *o; ~Fin() { k.destroy(o); } } fin{k, obj};
  for (int r = 1 + static_cast<int>(c.pick(3)); r > 0; --r) {
    auto in = gen_input(c, k.s, 1, 1, 6, 4, c.chance(1, 8));
    if (in.kind == IN_DAMAGED && c.pick(3) == 0) in.bytes = damage(c, in.bytes);
    auto m = c.pick(5); auto fr = fragments(c, in.bytes.size()); Cost x;
    int ec = hit(c, k, obj, m, in.bytes, &fr, bufs, arena, dflt, cache, x, c.pick(2) ? 0xff : 0);
    c.ev("%s/%s %s ec=%d bytes=%llu in=%s", k.name, k.trait, dms[m].n, ec, (unsigned long long)x.bytes, to_hex(in.bytes, 200).c_str());
    if (ec) c.probe("rejected"); else c.probe("accepted");
    proportional(c, k, dms[m].n, in.bytes.size(), fr.size(), x, ec, "input " + to_hex(in.bytes, 400));
    if (ec == 0) { usable(c, k, obj, dms[m].n, in.bytes); if (!complete(in.bytes)) c.fail("accepts-broken", "%s/%s (%s): accepted, but it is not a sequence of complete fields; input %s", k.name, k.trait, dms[m].n, to_hex(in.bytes, 4000).c_str()); }
    else if (std::string_view(k.trait).find("non_owning") == std::string_view::npos) { Msg t; t.t = k.s; k.tree(obj, t); c.state(hash(t)); if (c.pick(4) == 0) { std::string out; EncArgs e; TrackMR a1(true), a2; e.out = &out; e.mr = &a1; e.cache = &a2; k.encode(obj, e); } } // what a failed decode left is still a valid object (the elements of a non-owning repeated field are not initialised then: it may only be decoded into again)
    c.step();
    if (in.bytes.size() > 2) c.nontrivial();
    // whatever happened, the object decodes the next clean message
    if (c.chance(1, 4)) {
      auto v = gen_value(c, k.s, 4); auto b = encode_canonical(*v);
      int e2 = hit(c, k, obj, 0, b, nullptr, bufs, arena, dflt, cache, x, 0);
      Msg t; t.t = k.s; k.tree(obj, t);
      Decoded d(k); d.decode(D_CONTIG, b);
      auto df = e2 == 0 ? diff(d.tree(), t) : std::string("rejected");
      if (!df.empty()) c.fail("stale-state", "%s/%s: after a hostile input, decoding a clean message into the same object: %s; hostile %s clean %s", k.name, k.trait, df.c_str(), to_hex(in.bytes, 400).c_str(), to_hex(b, 200).c_str());
    }
  }
}
// every field number, with a length or count that promises far more than there is
void claims(Ctx &c) {
  auto &k = pick_codec(c);
  std::string in; const MsgS *s = k.s;
  std::string prefix, suffix;
  // optionally inside nested messages
  std::vector<std::pair<std::uint32_t, bool>> path;
  for (auto n = c.pick(4); n > 0; --n) {
    std::vector<const FieldS *> ms;
    for (auto &f : s->fields) if (f.is_msg() && f.card != MAP) ms.push_back(&f);
    if (ms.empty()) break;
    auto *f = ms[c.pick(static_cast<std::uint32_t>(ms.size()))];
    path.push_back({f->num, f->kind == GRP}); s = f->m;
  }
  auto *f = &s->fields[c.pick(static_cast<std::uint32_t>(s->fields.size()))];
  std::uint64_t claim;
  switch (c.pick(6)) { case 0: claim = 0x7fffffff; break; case 1: claim = 0x7fffffff - c.pick(64); break; case 2: claim = 0x80000000ull + c.pick(16); break; case 3: claim = 1u << (10 + c.pick(21)); break; case 4: claim = 0xffffffffffffffffull - c.pick(64); break; default: claim = 0xffffffffull; }
  bool has_unknown = c.chance(1, 6);
  if (c.pick(2)) { put_tag(in, f->num, 2); in += std::string(); }
  std::string leaf; put_tag(leaf, has_unknown ? pick_unknown_number(c, s, false) : f->num, 2); put_varint(leaf, claim);
  std::string tail; for (std::uint32_t i = 0, n = c.pick(60); i < n; ++i) tail += static_cast<char>(c.pick(3) ? 1 + c.pick(100) : c.pick(256));
  in = (c.pick(2) ? encode_canonical(*gen_value(c, s, 3)) : std::string()) + leaf + tail;
  for (auto i = path.rbegin(); i != path.rend(); ++i) {
    std::string o;
    if (i->second) { put_tag(o, i->first, 3); o += in; put_tag(o, i->first, 4); }
    else { put_tag(o, i->first, 2); put_varint(o, c.chance(1, 4) ? claim : in.size()); o += in; }
    in = o;
  }
  c.fault("huge-claim");
  std::vector<Guarded> bufs; TrackMR arena(true), dflt, cache; DefaultMR g(&dflt);
  void *obj = k.create();
  struct Fin { const Codec &k; void *o; ~Fin() { k.destroy(o); } } fin{k, obj};
  auto m = c.pick(5); auto fr = fragments(c, in.size()); Cost x;
  int ec = hit(c, k, obj, m, in, &fr, bufs, arena, dflt, cache, x, 0xff);
  c.ev("%s/%s %s field %u claim %llu ec=%d bytes=%llu in=%s", k.name, k.trait, dms[m].n, f->num, (unsigned long long)claim, ec, (unsigned long long)x.bytes, to_hex(in, 200).c_str());
  proportional(c, k, dms[m].n, in.size(), fr.size(), x, ec, "input " + to_hex(in, 400));
  if (ec == 0) c.fail("accepts-overrun", "%s/%s (%s): a field claiming %llu bytes is accepted; input %s", k.name, k.trait, dms[m].n, (unsigned long long)claim, to_hex(in, 400).c_str());
  c.step(); c.nontrivial();
}
// one field that is broken, somewhere in a message that is otherwise whole
void broken(Ctx &c) {
  auto &k = pick_codec(c);
  const MsgS *s = k.s; std::vector<std::pair<std::uint32_t, bool>> path;
  for (auto n = c.pick(4); n > 0; --n) {
    std::vector<const FieldS *> ms;
    for (auto &f : s->fields) if (f.is_msg() && f.card != MAP) ms.push_back(&f);
    if (ms.empty()) break;
    auto *f = ms[c.pick(static_cast<std::uint32_t>(ms.size()))];
    path.push_back({f->num, f->kind == GRP}); s = f->m;
  }
  auto number = [&] { return s->fields.empty() || c.pick(2) ? pick_unknown_number(c, s, c.pick(2)) : s->fields[c.pick(static_cast<std::uint32_t>(s->fields.size()))].num; };
  std::string leaf; const char *what = ""; bool last = false; auto num = pick_unknown_number(c, s, c.pick(2));
  for (auto &f : s->fields) if (f.kind == GRP && c.pick(3) == 0) num = f.num;
  switch (c.pick(7)) {
  case 0: what = "a group that ends with another number"; put_tag(leaf, num, 3); for (auto n = c.pick(3); n > 0; --n) { put_tag(leaf, pick_unknown_number(c, s, true), 0); put_varint(leaf, c.pick(300)); } { auto e = number(); if (e == num) e = num == 1 ? 2 : num - 1; put_tag(leaf, e, 4); } if (c.pick(2)) put_tag(leaf, num, 4); break;
  case 1: what = "the end of a group that was never begun"; { auto e = number(); if (!path.empty() && e == path.back().first) e = e == 1 ? 2 : e - 1; put_tag(leaf, e, 4); } break;
  case 2: what = "a field with the number 0"; { auto wt = c.pick(6); if (wt == 4) wt = 0; put_tag(leaf, 0, wt); if (wt == 0) leaf += '\1'; if (wt == 1) leaf.append(8, 0); if (wt == 2) leaf += std::string("\1a"); if (wt == 3) put_tag(leaf, 0, 4); if (wt == 5) leaf.append(4, 0); } break;
  case 3: what = "a wire type that does not exist"; put_tag(leaf, number(), 6 + c.pick(2)); leaf += '\1'; break;
  case 4: what = "a group without an end"; put_tag(leaf, num, 3); for (auto n = c.pick(3); n > 0; --n) { put_tag(leaf, pick_unknown_number(c, s, true), 0); put_varint(leaf, c.pick(300)); } if (path.empty() || path.back().first != num) last = true; else { leaf.clear(); put_tag(leaf, 0, 0); leaf += '\0'; } break;
  case 5: what = "a field that is cut off"; last = true; { auto kind = c.pick(4); auto u = number(); put_tag(leaf, u, kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? 2 : 5); if (kind == 0) leaf.append(c.pick(9), static_cast<char>(0x80 + c.pick(128))); if (kind == 1) leaf.append(c.pick(8), 'x'); if (kind == 2) { auto n = 1 + c.pick(300); put_varint(leaf, n); leaf.append(c.pick(n), 'x'); } if (kind == 3) leaf.append(c.pick(4), 'x'); } break;
  default: what = "a tag that is cut off"; last = true; leaf.append(1 + c.pick(4), static_cast<char>(0x80 + c.pick(128)));
  }
  if (last && !path.empty() && path.back().second) path.pop_back(); // what follows in a group would complete it
  std::string in;
  if (last) for (std::size_t i = 0; i < path.size(); ++i) if (path[i].second) { path.clear(); break; }
  s = k.s; for (auto &[n, g] : path) for (auto &f : s->fields) if (f.num == n) { s = f.m; break; }
  in = (c.pick(3) ? encode_canonical(*gen_value(c, s, 3)) : std::string()) + leaf;
  if (!last && c.pick(2)) in += encode_canonical(*gen_value(c, s, 2));
  for (auto i = path.rbegin(); i != path.rend(); ++i) {
    std::string o;
    if (i->second) { put_tag(o, i->first, 3); o += in; put_tag(o, i->first, 4); } else { put_tag(o, i->first, 2); put_varint(o, in.size()); o += in; }
    in = o;
  }
  c.fault("broken-field");
  std::vector<Guarded> bufs; TrackMR arena(true), dflt, cache; DefaultMR g(&dflt);
  void *obj = k.create();
  struct Fin { const Codec &k; void *o; ~Fin() { k.destroy(o); } } fin{k, obj};
  auto m = c.pick(5); auto fr = fragments(c, in.size()); Cost x;
  int ec = hit(c, k, obj, m, in, &fr, bufs, arena, dflt, cache, x, c.pick(2) ? 0xff : 0);
  c.ev("%s/%s %s: %s, ec=%d in=%s", k.name, k.trait, dms[m].n, what, ec, to_hex(in, 200).c_str());
  proportional(c, k, dms[m].n, in.size(), fr.size(), x, ec, "input " + to_hex(in, 400));
  if (ec == 0) c.fail("accepts-broken", "%s/%s (%s): %s is accepted; input %s", k.name, k.trait, dms[m].n, what, to_hex(in, 400).c_str());
  c.state(sim::mix(in.size(), leaf.size())); c.step(); c.nontrivial();
}
// long well-formed inputs whose shape is unfavourable
void shapes(Ctx &c) {
  auto &k = pick_codec(c);
  const MsgS *s = k.s; std::string in; std::size_t target = 2000u << c.pick(5);
  auto shape = c.pick(6); const char *sn = "";
  std::vector<const FieldS *> rep, maps;
  for (auto &f : s->fields) { if (f.card == REP) rep.push_back(&f); if (f.card == MAP) maps.push_back(&f); }
  auto one = [&](const FieldS &f, std::uint64_t i) { // one unpacked occurrence
    std::string o;
    switch (wt_of(f.kind)) {
    case 0: put_tag(o, f.num, 0); put_varint(o, i & 1); break;
    case 1: put_tag(o, f.num, 1); o.append(8, '\1'); break;
    case 5: put_tag(o, f.num, 5); o.append(4, '\1'); break;
    case 3: put_tag(o, f.num, 3); put_tag(o, f.num, 4); break;
    default: put_tag(o, f.num, 2); if (f.is_msg()) o += '\0'; else { o += '\2'; o += "ab"; } }
    return o;
  };
  if (rep.empty() && shape < 2) shape = 3;
  bool nonown = std::string_view(k.trait).find("non_owning") != std::string_view::npos;
  if (maps.empty() && shape == 2) shape = 3;
  bool brk = shape < 2 || (shape == 2 && c.pick(2)), regrow = nonown && (brk || shape == 3 || shape == 4);
  if (regrow && target > 8000) target = 8000;
  std::uint64_t nocc = 0;
  switch (shape) {
  case 0: { sn = "two repeated fields alternating"; auto *a = rep[c.pick(static_cast<std::uint32_t>(rep.size()))], *b = rep[c.pick(static_cast<std::uint32_t>(rep.size()))]; for (std::uint64_t i = 0; in.size() < target; ++i) { in += one(*a, i); in += one(*b, i); nocc += 2; } break; }
  case 1: { sn = "a repeated field alternating with unknown fields"; auto *a = rep[c.pick(static_cast<std::uint32_t>(rep.size()))]; auto u = pick_unknown_number(c, s, true); for (std::uint64_t i = 0; in.size() < target; ++i) { in += one(*a, i); put_tag(in, u, 0); put_varint(in, i & 127); nocc += 2; } break; }
  case 2: { sn = brk ? "map entries alternating with unknown fields" : "map entries in descending key order"; auto *f = maps[c.pick(static_cast<std::uint32_t>(maps.size()))]; auto &kf = f->m->fields[0]; auto u = pick_unknown_number(c, s, true);
      for (std::uint64_t i = 60000; in.size() < target; --i) { std::string e; if (kf.is_len()) { put_tag(e, 1, 2); auto x = std::to_string(100000 + i); put_varint(e, x.size()); e += x; } else if (wt_of(kf.kind) == 0) { put_tag(e, 1, 0); put_varint(e, i); } else { put_tag(e, 1, wt_of(kf.kind)); for (int b = 0; b < (wt_of(kf.kind) == 1 ? 8 : 4); ++b) e += static_cast<char>(i >> (8 * b)); }
        put_tag(in, f->num, 2); put_varint(in, e.size()); in += e; if (brk) { put_tag(in, u, 0); put_varint(in, 1); } ++nocc; } break; }
  case 3: { sn = "unknown fields with ever new numbers"; for (std::uint32_t n = 20000; in.size() < target; ++n) { put_tag(in, n, 0); put_varint(in, 1); ++nocc; } break; }
  case 4: { sn = "one unknown field many times"; auto u = pick_unknown_number(c, s, true); while (in.size() < target) { put_tag(in, u, 0); put_varint(in, 1); ++nocc; } break; }
  default: { sn = "a singular field many times"; auto *f = &s->fields[c.pick(static_cast<std::uint32_t>(s->fields.size()))]; for (std::uint64_t i = 0; in.size() < target; ++i) { if (f->card == MAP) { put_tag(in, f->num, 2); in += std::string("\2\10\1", 3); } else in += one(*f, i); ++nocc; } }
  }
  c.fault("unfavourable-shape");
  std::vector<Guarded> bufs; TrackMR arena(true), dflt, cache; DefaultMR g(&dflt);
  void *obj = k.create();
  struct Fin { const Codec &k; void *o; ~Fin() { k.destroy(o); } } fin{k, obj};
  auto m = c.pick(5); auto fr = fragments(c, in.size()); Cost x;
  int ec = hit(c, k, obj, m, in, &fr, bufs, arena, dflt, cache, x, 0);
  std::string head = to_hex(in.substr(0, 40));
  c.ev("%s/%s %s: %s, %zu bytes, ec=%d requested=%llu peak=%llu", k.name, k.trait, dms[m].n, sn, in.size(), ec, (unsigned long long)x.bytes, (unsigned long long)x.peak);
  std::uint64_t lim = (64u << 10) + 8 * widest(s, k.obj_size) * nocc;
  std::uint64_t quad = lim + nocc * nocc * 64; // a listed finding: arena_vector copies a non-owning repeated field each time it is reopened
  if (ec == -2 || x.peak > lim) c.fail(regrow && ec != -2 && x.peak <= quad ? "arena-regrowth" : "disproportionate-memory", "%s/%s (%s): %s: %zu bytes of input made the decoder request %llu bytes (hold %llu); starts with %s", k.name, k.trait, dms[m].n, sn, in.size(), (unsigned long long)x.bytes, (unsigned long long)x.peak, head.c_str());
  c.state(sim::mix(shape, in.size()));
  c.step(); c.nontrivial();
}
SIM_SCENARIO("C04", "hostile", 6, hostile)
SIM_SCENARIO("C04", "claims", 3, claims)
SIM_SCENARIO("C04", "broken", 3, broken)
SIM_SCENARIO("C04", "shapes", 1, shapes)
} // namespace
