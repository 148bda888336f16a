// C11: allocation failures at every instant of every codec operation.
#include "build.hpp"
using namespace hv;
namespace {
// Everything of one attempt: all its memory comes from these resources and from the armed heap, and all of it may fail.
struct World {
  TrackMR dflt, cache, arena{true};
  std::unique_ptr<DefaultMR> guard;
  World() { dflt.shared = cache.shared = arena.shared = true; guard = std::make_unique<DefaultMR>(&dflt); }
};
enum Op { DECODE, DECODE_USED, ENCODE, COPY, ASSIGN, MOVE_ASSIGN, MERGE, MERGE_MOVE, SETEXT, GETEXT, NOPS };
const char *const opn[] = {"decode", "decode into a used message", "encode", "copy construction", "copy assignment", "move assignment", "merge", "merge by move", "set_extension", "get_extension"};
struct Plan {
  const Codec *k; Op op; DecMode dm; EncMode em; const ExtOp *ext = nullptr;
  std::string a, b, wire; std::vector<std::size_t> fa; // encodings of target and source
  Msg ta, tb, want; // values of target, source, and of the target after the operation
  Msg held; std::string want_bytes;
};
struct Out { bool fired = false, failed = false; int ec = 0; std::uint64_t allocs = 0; };
int dec(const Codec &k, void *p, DecMode m, const std::vector<Guarded> &bufs, World &w) {
  std::vector<Bytes> spans;
  DecArgs a; a.mode = m; a.mr = &w.arena; a.cache = &w.cache;
  { sim::HeapPause hp; for (auto &g : bufs) spans.push_back(g.bytes()); }
  a.chunks = spans; a.in = spans[0];
  struct Fin { std::vector<Bytes> &s; ~Fin() { sim::HeapPause hp; s = {}; } } fin{spans};
  return k.decode(p, a);
}
bool chunked(DecMode m) { return m == D_CHUNK || m == D_CHUNK_CACHE; }
std::vector<Guarded> cut(const std::string &s, bool ch, const std::vector<std::size_t> &fr) {
  std::vector<Guarded> r;
  if (!ch) { r.emplace_back(s); return r; }
  std::size_t p = 0;
  for (auto n : fr) { r.emplace_back(std::string_view(s).substr(p, n)); p += n; }
  if (r.empty()) r.emplace_back(std::string_view());
  return r;
}
Msg tree_of(const Codec &k, const void *p) { sim::HeapPause hp; Msg m; m.t = k.s; k.tree(p, m); return m; }
// one attempt with `span` failing allocations from the n-th on (n < 0: none)
Out attempt(Ctx &c, const Plan &P, std::int64_t n, std::int64_t span) {
  const Codec &k = *P.k; Out o;
  World w;
  auto bd = cut(P.op == DECODE || P.op == DECODE_USED ? P.b : P.a, (P.op == DECODE || P.op == DECODE_USED) && chunked(P.dm), P.fa);
  auto ba = cut(P.a, false, {}), bb = cut(P.b, false, {}), bw = cut(P.wire, false, {});
  std::string where;
  auto ctx = [&] { return std::string(k.name) + "/" + k.trait + " " + opn[P.op] + " (allocation " + std::to_string(n) + (span > 1 ? " and following" : "") + " of " + std::to_string(o.allocs) + " fails)"; };
  auto bad = [&](const char *cls, const std::string &what) { c.fail(cls, "%s: %s; target %s, source %s", ctx().c_str(), what.c_str(), to_hex(P.a, 300).c_str(), to_hex(P.b, 300).c_str()); };
  {
    sim::HeapScope hs;
    void *x = nullptr, *y = nullptr, *z = nullptr; // target, source, copy
    x = k.create();
    if (P.op != DECODE && P.op != COPY) { if (dec(k, x, D_CONTIG, ba, w)) { hs.suspend(); c.fail("cannot-build", "decode of the target failed"); } }
    if (P.op == COPY || P.op == ASSIGN || P.op == MOVE_ASSIGN || P.op == MERGE || P.op == MERGE_MOVE) { y = k.create(); if (dec(k, y, D_CONTIG, bb, w)) { hs.suspend(); c.fail("cannot-build", "decode of the source failed"); } }
    std::string out; Sink sink; TrackMR emr(true); emr.shared = true; Msg got; got.t = k.s; Msg held; held.t = k.s;
    auto op = [&]() -> int {
      switch (P.op) {
      case DECODE: case DECODE_USED: return dec(k, x, P.dm, bd, w);
      case ENCODE: { out.clear(); EncArgs e; e.mode = P.em; e.out = &out; e.cache = &w.cache; e.mr = &emr; e.sink = &sink; { sim::HeapPause hp; sink = Sink{}; sink.tail = 7; } return k.encode(x, e); }
      case COPY: z = k.copy(y); return 0;
      case ASSIGN: k.assign(x, y); return 0;
      case MOVE_ASSIGN: k.move_assign(x, y); return 0;
      case MERGE: k.merge(x, y, &w.arena); return 0;
      case MERGE_MOVE: k.merge_move(x, y, &w.arena); return 0;
      case SETEXT: return P.ext->set(x, std::string_view(reinterpret_cast<const char *>(bw[0].p), bw[0].n), held, &w.arena);
      case GETEXT: { sim::HeapPause hp; got = Msg{}; got.t = k.s; } return P.ext->get(x, got, &w.arena);
      default: return 0;
      }
    };
    auto verify = [&](const char *when) { // the operation succeeded
      sim::HeapPause hp;
      std::string d;
      if (P.op == ENCODE) {
        std::string b = P.em == E_SINK_CHUNK ? (sink.msg_size == ~std::size_t{0} ? std::string("?") : sink.written(sink.msg_size)) : out;
        if (b != P.want_bytes) d = "bytes " + to_hex(b) + " instead of " + to_hex(P.want_bytes);
        else d = diff(P.ta, tree_of(k, x));
      } else if (P.op == COPY) d = diff(P.tb, tree_of(k, z));
      else if (P.op == GETEXT) { d = diff(P.want, got); if (d.empty()) d = diff(P.ta, tree_of(k, x)); }
      else d = diff(P.want, tree_of(k, x));
      if (!d.empty()) bad("wrong-result", std::string(when) + ": " + d);
    };
    auto src_same = [&](const char *when) {
      if (y && P.op != MOVE_ASSIGN && P.op != MERGE_MOVE) { auto d = diff(P.tb, tree_of(k, y)); sim::HeapPause hp; if (!d.empty()) bad("source-changed", std::string(when) + ": " + d); }
      if (P.op == ENCODE || P.op == GETEXT) { auto d = diff(P.ta, tree_of(k, x)); sim::HeapPause hp; if (!d.empty()) bad("source-changed", std::string(when) + ": " + d); }
    };
    auto c0 = hs.count();
    hs.fail_after(n, span);
    try { o.ec = op(); o.failed = o.ec != 0; }
    catch (const std::bad_alloc &) { o.failed = true; o.ec = -2; }
    hs.fail_after(-1);
    o.fired = n >= 0 && static_cast<std::uint64_t>(n) < hs.count() - c0 && hs.count() > c0;
    o.allocs = hs.count() - c0;
    hs.suspend();
    if (!o.failed) verify(o.fired ? "reported success although an allocation failed" : "without a failure");
    else if (n < 0) bad("fails-without-fault", "returned " + std::to_string(o.ec));
    else if (!o.fired) bad("fails-without-fault", "returned " + std::to_string(o.ec) + " before the failing allocation was reached");
    src_same("after the failure");
    if (o.failed) {
      // what is left of the target can be walked, compared, encoded, copied
      auto left = tree_of(k, x);
      c.state(hash(left));
      if (k.encode && P.op != ENCODE) { std::string b; EncArgs e; e.mode = E_VECTOR; e.out = &b; hs.resume(); int r = k.encode(x, e); hs.suspend(); (void)r; std::string().swap(b); }
      hs.resume();
      if (k.assign && c.pick(2)) { void *t = k.create(); k.assign(t, x); hs.suspend(); auto d = diff(left, tree_of(k, t)); if (!d.empty()) bad("broken-object", "a copy of the target differs: " + d); hs.resume(); k.destroy(t); }
      // retry: operations that accumulate restart from the target's old value
      if (P.op == MERGE || P.op == MERGE_MOVE || P.op == MOVE_ASSIGN) {
        hs.suspend();
        bool fresh = c.pick(2);
        hs.resume();
        if (fresh) { k.destroy(x); x = nullptr; x = k.create(); }
        if (dec(k, x, D_CONTIG, ba, w)) { hs.suspend(); bad("unusable-after-failure", "decoding into the target fails"); }
        if (P.op != MERGE && dec(k, y, D_CONTIG, bb, w)) { hs.suspend(); bad("unusable-after-failure", "decoding into the moved-from source fails"); }
      }
      if (P.op == SETEXT && c.pick(2)) { if (dec(k, x, D_CONTIG, ba, w)) { hs.suspend(); bad("unusable-after-failure", "decoding into the target fails"); } }
      int r = -2;
      try { r = op(); } catch (const std::bad_alloc &) {}
      hs.suspend();
      if (r != 0) bad("retry-fails", "the retry with memory available returned " + std::to_string(r));
      verify("retry");
      src_same("after the retry");
      hs.resume();
    } else hs.resume();
    if (z) k.destroy(z);
    if (y) k.destroy(y);
    if (x) k.destroy(x);
    hs.suspend();
    { std::string().swap(out); got = Msg{}; held = Msg{}; sink = Sink{}; }
    if (k.pmr) { if (!w.dflt.blocks.empty()) bad("leak", std::to_string(w.dflt.blocks.size()) + " blocks of the memory resource are never returned"); }
    if (!w.cache.blocks.empty()) bad("leak", "blocks of the cache resource are never returned");
    if (!k.pmr && !w.dflt.blocks.empty()) bad("leak", "scratch blocks are never returned");
    for (auto *m : {&w.dflt, &w.cache, &w.arena}) if (m->bad) bad("double-release", m->bad);
    if (hs.live() != 0) bad("leak", std::to_string(hs.live()) + " heap blocks are never released");
  }
  return o;
}
void run_op(Ctx &c, Op op, const Codec &k) {
  Plan P; P.k = &k; P.op = op;
  static const DecMode dms[] = {D_CONTIG, D_CHUNK, D_CONTIG_CACHE, D_CHUNK_CACHE};
  static const EncMode ems[] = {E_VECTOR, E_VECTOR_CACHE, E_NONOWN, E_SINK_CHUNK};
  P.dm = dms[c.pick(4)]; P.em = ems[c.pick(4)];
  auto mk = [&](Msg &t, std::string &wire) {
    auto v = gen_value(c, k.s, c.chance(1, 6) ? 0 : 2 + static_cast<int>(c.pick(20)));
    wire = encode_canonical(*v);
    if (c.chance(1, 3)) { PeerOpt po; po.swarm(c); po.no_known(); wire = encode_peer(c, *v, po); }
    Decoded d(k); d.decode(D_CONTIG, wire);
    if (d.ec) c.fail("cannot-build", "%s/%s: %d on %s", k.name, k.trait, d.ec, to_hex(wire).c_str());
    t = d.tree();
  };
  mk(P.ta, P.a); mk(P.tb, P.b);
  P.fa = fragments(c, P.b.size());
  P.want = *clone(P.tb);
  if (op == SETEXT || op == GETEXT) {
    P.ext = &k.exts[c.pick(static_cast<std::uint32_t>(k.exts.size()))];
    GenOpt g; int b = 6; Fld f; f.f = P.ext->f;
    for (std::uint32_t i = 0, m = P.ext->f->card == REP ? c.pick(4) : 1; i < m; ++i) f.v.push_back(gen_val(c, *P.ext->f, g, b, 0));
    Msg w; w.t = k.s; if (!f.v.empty()) w.f[P.ext->f->num] = f;
    P.wire = encode_canonical(w);
    if (op == GETEXT) P.a += P.wire;
    Decoded d(k); d.decode(D_CONTIG, P.a);
    P.ta = d.tree();
    TrackMR mr(true); Msg held; held.t = k.s;
    if (op == SETEXT) { Guarded gw(P.wire); if (P.ext->set(d.o.p, std::string_view(reinterpret_cast<const char *>(gw.p), gw.n), held, &mr)) c.fail("cannot-build", "set_extension"); P.want = d.tree(); }
    else { Msg got; got.t = k.s; if (P.ext->get(d.o.p, got, &mr)) return; P.want = *clone(got); }
  }
  if (op == MERGE || op == MERGE_MOVE) {
    Decoded x(k), y(k); x.decode(D_CONTIG, P.a); y.decode(D_CONTIG, P.b);
    k.merge(x.o.p, y.o.p, &x.mr);
    P.want = *clone(x.tree());
  }
  if (op == ENCODE) { Decoded x(k); x.decode(D_CONTIG, P.a); auto e = encode(x.o); if (e.ec) return; P.want_bytes = e.bytes; }
  auto base = attempt(c, P, -1, 1);
  c.ev("%s/%s %s: %llu allocations; target %s source %s", k.name, k.trait, opn[op], (unsigned long long)base.allocs, to_hex(P.a, 120).c_str(), to_hex(P.b, 120).c_str());
  if (base.allocs) c.nontrivial(); else c.probe("allocation-free");
  std::uint32_t N = static_cast<std::uint32_t>(base.allocs), fired = 0;
  bool all = N <= 24;
  for (std::uint32_t i = 0, m = all ? N : 24; i < m; ++i) {
    std::uint32_t n = all ? i : c.pick(N);
    std::int64_t span = c.weighted(3, 1, 1) == 0 ? 1 : 1 + c.pick(4);
    auto o = attempt(c, P, n, span);
    c.step();
    if (o.fired) { ++fired; c.fault(opn[op]); }
    if (o.fired && !o.failed) c.probe("failure-absorbed");
  }
  c.ev("%u failures", fired);
}
void decode_fail(Ctx &c) { auto &k = pick_codec(c); run_op(c, c.pick(2) ? DECODE_USED : DECODE, k); }
void encode_fail(Ctx &c) { run_op(c, ENCODE, pick_codec(c)); }
void copy_fail(Ctx &c) { run_op(c, static_cast<Op>(COPY + c.pick(3)), pick_codec_if(c, [](const Codec &k) { return k.copy != nullptr; })); }
void merge_fail(Ctx &c) { run_op(c, c.pick(2) ? MERGE_MOVE : MERGE, pick_codec_if(c, [](const Codec &k) { return k.merge != nullptr; })); }
void ext_fail(Ctx &c) { run_op(c, c.pick(2) ? GETEXT : SETEXT, pick_codec_if(c, [](const Codec &k) { return !k.exts.empty(); })); }
SIM_SCENARIO("C11", "decode", 3, decode_fail)
SIM_SCENARIO("C11", "encode", 2, encode_fail)
SIM_SCENARIO("C11", "copy", 2, copy_fail)
SIM_SCENARIO("C11", "merge", 2, merge_fail)
SIM_SCENARIO("C11", "extension", 2, ext_fail)
} // namespace
