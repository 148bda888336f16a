// C03: the encoder never writes outside the space the destination offers.
#include "build.hpp"
using namespace hv;
namespace {
// every destination too small by any amount; chunks of any size including none at all; sinks that throw
void small_fixed(Ctx &c, const Codec &k, const Obj &o, const std::string &ref) {
  std::size_t n = ref.size();
  std::size_t room = c.pick(4) == 0 ? 0 : n ? c.pick(static_cast<std::uint32_t>(n)) : 0;
  if (c.pick(5) == 0) room = n ? n - 1 : 0;
  if (c.pick(6) == 0) room = n + c.pick(20);
  Guarded g(std::string(room, '\xa5'));
  EncArgs a; a.mode = E_SPAN; a.fixed = {g.p, g.n};
  int ec = k.encode(o.p, a);
  c.ev("fixed buffer of %zu for %zu bytes: ec=%d", room, n, ec);
  if (room < n) c.fault("buffer-too-small");
  if (room < n && ec == 0) c.fail("too-small-accepted", "%s/%s: encoding %zu bytes into a buffer of %zu reported success", k.name, k.trait, n, room);
  if (room >= n && ec != 0) c.fail("spurious-failure", "%s/%s: encoding %zu bytes into a buffer of %zu failed with %d", k.name, k.trait, n, room, ec);
}
void hostile_sink(Ctx &c, const Codec &k, const Obj &o, const std::string &ref) {
  std::size_t n = ref.size();
  static const int ms[] = {E_SINK_CONTIG, E_SINK_ADAPT, E_SINK_CHUNK, E_SINK_CHUNK, E_SINK_DEFAULT};
  int m = ms[c.pick(5)];
  Sink s;
  unsigned kinds = 1 + c.pick(7); // bit 0 short first chunk, 1 empty chunks, 2 limited total
  std::size_t chunks = 1 + c.pick(12);
  for (std::size_t i = 0; i < chunks; ++i) {
    std::size_t w = c.pick(3) ? 1 + c.pick(16) : c.pick(static_cast<std::uint32_t>(n) + 2);
    if ((kinds & 2) && c.pick(3) == 0) w = 0;
    s.plan.push_back(w);
  }
  s.tail = kinds & 2 && c.pick(2) ? 0 : 1 + c.pick(40);
  if (kinds & 4) s.limit = c.pick(static_cast<std::uint32_t>(n) + 1);
  if (c.pick(4) == 0) { s.throw_at = c.pick(6); }
  s.advertised = c.pick(3) == 0 ? n + c.pick(50) : c.pick(static_cast<std::uint32_t>(n) + 1); // may lie
  EncArgs a; a.mode = static_cast<EncMode>(m); a.sink = &s;
  int ec = -1; bool threw = false;
  try { ec = k.encode(o.p, a); } catch (const Sink::Fault &) { threw = true; }
  c.ev("sink mode %d plan %s tail %zu limit %zd: ec=%d threw=%d chunks=%zu", m, frag_str(s.plan).c_str(), s.tail, s.limit == ~std::size_t{0} ? -1 : static_cast<long>(s.limit), ec, threw, s.bufs.size());
  if (threw) c.fault("sink-throws");
  if (s.short_given) c.fault("sink-exhausted");
  if (s.empty_given) c.fault("empty-chunk");
  bool had_short = !s.bufs.empty() && s.bufs[0].n < n;
  if (had_short) c.fault("short-chunk");
  if (ec == 0) { // success must mean the whole message arrived
    if (s.offered < n) c.fail("success-without-room", "%s/%s: success although only %zu of %zu bytes were ever offered", k.name, k.trait, s.offered, n);
    if (s.written(n) != ref) c.fail("success-but-other-bytes", "%s/%s: success, but the sink holds other bytes (mode %d, plan %s)", k.name, k.trait, m, frag_str(s.plan).c_str());
    if (!s.rest_untouched(n)) c.fail("wrote-too-much", "%s/%s: bytes behind the end of the message were written", k.name, k.trait);
  }
  if (s.msg_size != ~std::size_t{0} && s.msg_size != n) c.fail("wrong-size", "%s/%s: announced %zu instead of %zu", k.name, k.trait, s.msg_size, n);
  // whatever was written is a prefix of the message: nothing else may have been touched (guards catch writes outside)
  std::size_t good = 0; auto all = s.written(std::min(s.offered, n));
  while (good < all.size() && all[good] == ref[good]) ++good;
  for (std::size_t i = good; i < all.size(); ++i) if (all[i] != '\xa5') { c.fail("garbage-written", "%s/%s: byte %zu of the output is neither the message nor untouched (mode %d, plan %s)", k.name, k.trait, i, m, frag_str(s.plan).c_str()); }
}
void dest(Ctx &c) {
  auto &k = pick_codec(c);
  auto want = gen_value(c, k.s, 2 + static_cast<int>(c.pick(25)), c.chance(1, 6));
  Built b(c, k, *want);
  auto ref = encode(b.o);
  c.ev("message=%s trait=%s bytes=%s", k.name, k.trait, to_hex(ref.bytes).c_str());
  if (ref.ec != 0) c.fail("encode-failed", "%s/%s: encoding failed with %d", k.name, k.trait, ref.ec);
  for (unsigned i = 0, n = 3 + c.pick(6); i < n; ++i) { if (c.pick(4) == 0) small_fixed(c, k, b.o, ref.bytes); else hostile_sink(c, k, b.o, ref.bytes); c.step(); }
  auto again = encode(b.o);
  if (again.bytes != ref.bytes || again.ec != 0) c.fail("poisoned", "%s/%s: an encode after failed attempts gives other bytes", k.name, k.trait);
  c.state(sim::hash_bytes(ref.bytes.data(), ref.bytes.size()));
  if (ref.bytes.size() > 2) c.nontrivial();
}
// every possible room for one message
void all_rooms(Ctx &c) {
  auto &k = pick_codec(c);
  auto want = gen_value(c, k.s, 1 + static_cast<int>(c.pick(6)));
  Built b(c, k, *want);
  auto ref = encode(b.o).bytes;
  if (ref.size() > 300) { c.probe("skipped-long"); return; }
  c.ev("message=%s trait=%s bytes=%s", k.name, k.trait, to_hex(ref).c_str());
  for (std::size_t r = 0; r <= ref.size() + 1; ++r) {
    Guarded g(std::string(r, '\xa5'));
    EncArgs a; a.mode = E_SPAN; a.fixed = {g.p, g.n};
    int ec = k.encode(b.o.p, a);
    if ((ec == 0) != (r >= ref.size())) c.fail("room", "%s/%s: %zu bytes into %zu: status %d", k.name, k.trait, ref.size(), r, ec);
    for (int m : {E_SINK_CONTIG, E_SINK_ADAPT, E_SINK_CHUNK}) {
      Sink s; s.plan = {r}; s.tail = 0; s.advertised = m == E_SINK_ADAPT && c.pick(2) ? ref.size() : r;
      EncArgs b2; b2.mode = static_cast<EncMode>(m); b2.sink = &s;
      int e2 = k.encode(b.o.p, b2);
      if (e2 == 0 && r < ref.size()) c.fail("success-without-room", "%s/%s: mode %d: success with one chunk of %zu bytes for %zu", k.name, k.trait, m, r, ref.size());
      if (e2 != 0 && r >= ref.size() && ref.size()) c.fail("spurious-failure", "%s/%s: mode %d: failure %d with one chunk of %zu bytes for %zu", k.name, k.trait, m, e2, r, ref.size());
      if (e2 == 0 && s.written(ref.size()) != ref) c.fail("success-but-other-bytes", "%s/%s: mode %d room %zu", k.name, k.trait, m, r);
    }
    if (r < ref.size()) c.fault("buffer-too-small");
    c.step();
  }
  c.nontrivial();
}
} // namespace
SIM_SCENARIO("C03", "hostile-destinations", 6, dest)
SIM_SCENARIO("C03", "every-room", 2, all_rooms)
