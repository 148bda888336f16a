// C08: merging is decoding the concatenation.
#include "build.hpp"
using namespace hv;
namespace {
struct Cell { const Codec *k; std::unique_ptr<Decoded> d; std::string wire; };
Cell make(Ctx &c, const Codec &k, int budget) {
  Cell x; x.k = &k; x.d = std::make_unique<Decoded>(k);
  GenOpt g; g.exts = true; g.budget = budget; g.unknown = c.pick(2);
  auto t = gen(c, k.s, g);
  std::string in = encode_canonical(*t);
  if (c.pick(2)) { PeerOpt o; o.swarm(c); o.no_known(); in = encode_peer(c, *t, o); }
  auto fr = fragments(c, in.size());
  bool ch = c.pick(2);
  if (ch) c.fault("fragmentation");
  x.d->decode(ch ? D_CHUNK : D_CONTIG, in, &fr);
  if (x.d->ec != 0) c.fail("cannot-build", "%s/%s rejects %s with %d", k.name, k.trait, to_hex(in).c_str(), x.d->ec);
  auto e = encode(x.d->o);
  if (e.ec != 0) c.fail("cannot-encode", "%s/%s: %d", k.name, k.trait, e.ec);
  x.wire = e.bytes;
  return x;
}
void merges(Ctx &c) {
  auto &k = pick_codec_if(c, [](const Codec &x) { return x.merge != nullptr; });
  const Codec *kd = k.merge_x ? find_codec(k.s, "default") : nullptr;
  unsigned n = 2 + c.pick(4);
  int budget = 1 + static_cast<int>(c.pick(25));
  // objects are kept alive until the end: a merged non-owning message refers to its sources
  std::vector<Cell> cells, sources;
  for (unsigned i = 0; i < n; ++i) cells.push_back(make(c, k, c.chance(1, 8) ? 0 : budget));
  bool nontriv = false;
  for (unsigned s = 0, steps = 1 + c.pick(6); s < steps; ++s) {
    unsigned di = c.pick(n), si = c.pick(n);
    if (di == si) si = (si + 1) % n;
    auto how = c.weighted(4, 3, kd ? 3u : 0u, 1);
    auto &D = cells[di];
    bool ok; std::string sw; Msg before;
    auto &S0 = cells[si];
    if (how == 2) {
      sources.push_back(make(c, *kd, budget));
      sw = sources.back().wire;
    } else sw = S0.wire;
    std::string cat = D.wire + sw;
    Msg want = ref_tree(k, cat, &ok);
    if (!ok) c.fail("sim-harness", "reference rejects the concatenation %s", to_hex(cat).c_str());
    c.ev("%s/%s: dest %s, source %s (%s)", k.name, k.trait, to_hex(D.wire).c_str(), to_hex(sw).c_str(), how == 0 ? "const" : how == 1 ? "move" : how == 2 ? "other trait" : "copy of dest");
    const char *hn = "by const reference";
    if (how == 0 || how == 3) {
      before = S0.d->tree();
      k.merge(D.d->o.p, S0.d->o.p, &D.d->mr);
      auto df = diff(before, S0.d->tree());
      if (!df.empty()) c.fail("source-changed", "%s/%s: merging changed its source: %s", k.name, k.trait, df.c_str());
    } else if (how == 1) {
      hn = "by move";
      k.merge_move(D.d->o.p, S0.d->o.p, &D.d->mr);
      c.probe("moved");
    } else {
      hn = "from another storage trait";
      before = sources.back().d->tree();
      k.merge_x(D.d->o.p, sources.back().d->o.p, &D.d->mr);
      auto df = diff(before, sources.back().d->tree());
      if (!df.empty()) c.fail("source-changed", "%s/%s: merging changed its source: %s", k.name, k.trait, df.c_str());
      c.probe("cross-trait");
    }
    auto got = D.d->tree();
    auto w = clone(want); apply_keeps(*w, got);
    if (how == 2) { auto src = sources.back().d->tree(); (void)src; }
    auto df = diff(*w, got);
    if (!df.empty()) c.fail("merge-wrong", "%s/%s: merge %s: %s; dest %s source %s", k.name, k.trait, hn, df.c_str(), to_hex(D.wire).c_str(), to_hex(sw).c_str());
    if (!D.wire.empty() && !sw.empty()) nontriv = true;
    auto e = encode(D.d->o);
    if (e.ec != 0) c.fail("cannot-encode", "%s/%s: the merged message does not encode: %d", k.name, k.trait, e.ec);
    Msg m2 = ref_tree(k, e.bytes, &ok);
    df = ok ? diff(got, m2) : "rejected";
    if (!df.empty()) c.fail("merged-encodes-wrong", "%s/%s: encoding of the merged message: %s", k.name, k.trait, df.c_str());
    D.wire = e.bytes;
    if (how == 1) { // the moved-from source: destroy it or assign to it
      auto &S = cells[si];
      auto nd = make(c, k, budget);
      if (c.pick(2)) { k.assign(S.d->o.p, nd.d->o.p); auto d2 = diff(nd.d->tree(), S.d->tree()); if (!d2.empty()) c.fail("moved-from-unusable", "%s/%s: assignment to a moved-from source: %s", k.name, k.trait, d2.c_str()); S.wire = nd.wire; sources.push_back(std::move(nd)); }
      else { sources.push_back(std::move(S)); cells[si] = std::move(nd); }
    }
    // a non-owning destination may refer to its source's memory, and later merges must not write through it
    for (unsigned i = 0; i < n; ++i) {
      Msg ref = ref_tree(k, cells[i].wire, &ok);
      auto t = cells[i].d->tree();
      auto w3 = clone(ref); apply_keeps(*w3, t);
      df = diff(*w3, t);
      if (!df.empty()) c.fail("bystander-changed", "%s/%s: object %u changed although it was neither destination nor moved from: %s", k.name, k.trait, i, df.c_str());
    }
    c.state(hash(got));
    c.step();
  }
  if (nontriv) c.nontrivial();
}
} // namespace
SIM_SCENARIO("C08", "merge-sequences", 4, merges)
