// C10: every byte a message retains, and all designated scratch memory, comes from the resources the caller named.
#include "build.hpp"
using namespace hv;
namespace {
struct Where {
  const Codec &k; const void *obj; const std::vector<Guarded> *bufs; const std::vector<const TrackMR *> mrs;
  const char *find(const void *q, std::size_t n) const {
    auto in = [&](const void *b, std::size_t m) { return q >= b && static_cast<const char *>(q) + n <= static_cast<const char *>(b) + m; };
    if (in(obj, k.obj_size)) return "object";
    if (bufs) for (auto &g : *bufs) if (in(g.p, g.n)) return "input";
    for (auto *m : mrs) if (m->owns(q, n)) return "resource";
    return nullptr;
  }
};
void check_reach(Ctx &c, const Codec &k, const void *obj, const Where &w, const char *what) {
  std::size_t in = 0, res = 0, seen = 0;
  k.reach(obj, [&](const void *q, std::size_t n, const char *fld) {
    ++seen;
    auto *s = w.find(q, n);
    if (!s) c.fail("foreign-memory", "%s/%s: after %s, %zu bytes of field %s lie neither in the input nor in the resource the caller gave", k.name, k.trait, what, n, fld);
    if (*s == 'i') ++in; else if (*s == 'r') ++res;
  });
  if (in) c.probe("refers-to-input");
  if (res) c.probe("refers-to-resource");
  if (in && res) c.probe("refers-to-both");
}
const struct { DecMode m; const char *n; } dms[] = {{D_CONTIG, "contiguous"}, {D_CHUNK, "chunked"}, {D_PADDED, "padded"}, {D_CONTIG_CACHE, "contiguous, cache"}, {D_CHUNK_CACHE, "chunked, cache"}};
void mr_ok(Ctx &c, const Codec &k, const TrackMR &m, const char *name) {
  if (m.bad) c.fail("resource-protocol", "%s/%s: %s resource: %s", k.name, k.trait, name, m.bad);
}
// decode (several times into one object), use, destroy
void decode_own(Ctx &c) {
  auto &k = pick_codec(c);
  TrackMR dflt, cache;                       // the default resource (pmr storage, upstream of scratch) and the cache
  auto arena = std::make_unique<TrackMR>(true); // arena of non-owning messages
  std::vector<Guarded> bufs;
  DefaultMR guard(&dflt);
  void *obj = k.create();
  const int rounds = 1 + static_cast<int>(c.pick(3));
  std::string last; int ec = -1;
  struct Fin { const Codec &k; void *&o; ~Fin() { if (o) k.destroy(o); } } fin{k, obj};
  for (int r = 0; r < rounds; ++r) {
    auto in = gen_input(c, k.s, 1, 4, 2, 1, c.chance(1, 6));
    auto &dm = dms[c.pick(5)];
    bool chunked = dm.m == D_CHUNK || dm.m == D_CHUNK_CACHE, with_cache = dm.m == D_CONTIG_CACHE || dm.m == D_CHUNK_CACHE;
    std::vector<Bytes> spans; DecArgs a; a.mode = dm.m; a.mr = arena.get(); a.cache = &cache;
    if (chunked) {
      std::size_t p = 0, b0 = bufs.size();
      for (auto n : fragments(c, in.bytes.size())) { bufs.emplace_back(std::string_view(in.bytes).substr(p, n)); p += n; }
      for (auto i = b0; i < bufs.size(); ++i) spans.push_back(bufs[i].bytes());
      a.chunks = spans;
      c.fault("fragmented-input");
    } else { bufs.emplace_back(in.bytes, dm.m == D_PADDED ? 16 : 0, 0); a.in = bufs.back().bytes(); }
    auto d0 = dflt.count; auto db0 = dflt.blocks.size(); auto c0 = cache.count; auto cf0 = cache.freed;
    std::uint64_t heap_n, heap_live;
    {
      sim::HeapScope hs;
      ec = k.decode(obj, a);
      hs.suspend(); heap_n = hs.count(); heap_live = hs.live();
    }
    c.ev("%s/%s %s ec=%d heap=%llu arena=%llu dflt=%llu cache=%llu in=%s", k.name, k.trait, dm.n, ec, (unsigned long long)heap_n, (unsigned long long)arena->count, (unsigned long long)(dflt.count - d0), (unsigned long long)(cache.count - c0), to_hex(in.bytes, 200).c_str());
    if (ec) c.fault("failed-decode");
    if (heap_live) c.fail("heap-retained", "%s/%s (%s): %llu blocks of the global heap are held after decoding %s", k.name, k.trait, dm.n, (unsigned long long)heap_live, to_hex(in.bytes, 400).c_str());
    if (heap_n) c.fail("heap-used", "%s/%s (%s): the global heap was used %llu times while decoding %s", k.name, k.trait, dm.n, (unsigned long long)heap_n, to_hex(in.bytes, 400).c_str());
    if (!k.owning && dflt.blocks.size() != db0) c.fail("default-retained", "%s/%s (%s): blocks of the default resource are held although the arena was named; input %s", k.name, k.trait, dm.n, to_hex(in.bytes, 400).c_str());
    if (with_cache && !k.owning && dflt.count != d0) c.fail("cache-ignored", "%s/%s (%s): scratch memory came from the default resource, not from the cache resource; input %s", k.name, k.trait, dm.n, to_hex(in.bytes, 400).c_str());
    if (cache.freed - cf0 != cache.count - c0 || !cache.blocks.empty()) c.fail("cache-kept", "%s/%s (%s): scratch blocks were not returned to the cache resource; input %s", k.name, k.trait, dm.n, to_hex(in.bytes, 400).c_str());
    if (cache.count != c0) c.probe("cache-used");
    if (!with_cache && dflt.count != d0 && !k.owning) c.probe("scratch-upstream-used");
    mr_ok(c, k, *arena, "arena"); mr_ok(c, k, dflt, "default"); mr_ok(c, k, cache, "cache");
    Where w{k, obj, k.owning ? nullptr : &bufs, k.owning ? std::vector<const TrackMR *>{&dflt} : std::vector<const TrackMR *>{arena.get()}};
    check_reach(c, k, obj, w, dm.n);
    c.step();
    c.state(sim::mix(static_cast<std::uint64_t>(ec), sim::hash_bytes(in.bytes.data(), in.bytes.size())));
    if (in.bytes.size() > 2) c.nontrivial();
    last = std::move(in.bytes);
  }
  // the message is valid as long as arena and input live: use it
  if (ec == 0) {
    Msg t; t.t = k.s; k.tree(obj, t);
    std::string out; EncArgs e; TrackMR em(true); std::pair<const void *, std::size_t> view{};
    auto how = c.pick(3);
    e.mode = how == 0 ? E_VECTOR : how == 1 ? E_VECTOR_CACHE : E_NONOWN; e.out = &out; e.mr = &em; e.cache = &cache; e.view = &view;
    auto d0 = dflt.count; auto db0 = dflt.blocks.size(); auto c0 = cache.count; auto cf0 = cache.freed;
    std::uint64_t hn, hl; int er;
    { sim::HeapScope hs; er = k.encode(obj, e); hs.suspend(); hn = hs.count(); hl = hs.live(); }
    if (er != 0) { if (er == -2) c.fail("encode", "%s/%s: encoding the decoded message failed: %d", k.name, k.trait, er); }
    else {
      if (hl) c.fail("heap-retained", "%s/%s: encoding kept %llu heap blocks", k.name, k.trait, (unsigned long long)hl);
      if (how == 1 && dflt.count != d0) c.fail("cache-ignored", "%s/%s: encoding with a cache resource took scratch from the default resource; decoded from %s", k.name, k.trait, to_hex(last, 400).c_str());
      if (how == 2 && hn) c.fail("heap-used", "%s/%s: encoding into the caller's arena used the global heap %llu times", k.name, k.trait, (unsigned long long)hn);
      if (how == 2 && view.second && !em.owns(view.first, view.second)) c.fail("foreign-memory", "%s/%s: the encoded bytes do not lie in the caller's arena", k.name, k.trait);
      if (how == 2 && dflt.blocks.size() != db0) c.fail("default-retained", "%s/%s: encoding kept blocks of the default resource", k.name, k.trait);
      if (dflt.blocks.size() != db0) c.fail("default-retained", "%s/%s: encoding kept blocks of the default resource", k.name, k.trait);
      if (cache.freed - cf0 != cache.count - c0 || !cache.blocks.empty()) c.fail("cache-kept", "%s/%s: encoding did not return its scratch blocks to the cache resource", k.name, k.trait);
      if (how == 1 && cache.count != c0) c.probe("cache-used-encode");
      mr_ok(c, k, cache, "cache"); mr_ok(c, k, em, "output arena");
c.evh("encoded", out.data(), out.size()); // touches every byte
    }
  }
  k.destroy(obj); obj = nullptr;
  if (k.owning && !dflt.blocks.empty()) c.fail("not-returned", "%s/%s: %zu blocks were not returned to the resource when the message was destroyed", k.name, k.trait, dflt.blocks.size());
  mr_ok(c, k, dflt, "default"); mr_ok(c, k, *arena, "arena");
}
// copies and edits of polymorphic-allocator messages; merges and extension edits of non-owning ones
void operate(Ctx &c) {
  auto &k = pick_codec_if(c, [](const Codec &x) { return x.merge || x.copy || !x.exts.empty(); });
  TrackMR dflt; auto arena = std::make_unique<TrackMR>(true);
  std::vector<Guarded> bufs;
  DefaultMR guard(&dflt);
  std::vector<void *> objs; bool moved[2] = {};
  struct Fin { const Codec &k; std::vector<void *> &o; ~Fin() { for (auto *p : o) k.destroy(p); } } fin{k, objs};
  for (int i = 0; i < 2; ++i) {
    objs.push_back(k.create());
    auto v = gen_value(c, k.s, 3 + static_cast<int>(c.pick(25)));
    bufs.emplace_back(encode_canonical(*v));
    DecArgs a; a.mode = D_CONTIG; a.mr = arena.get(); a.in = bufs.back().bytes();
    if (k.decode(objs[i], a)) return;
  }
  for (int n = 1 + static_cast<int>(c.pick(6)); n > 0; --n) {
    auto a = c.pick(2);
    for (int i = 0; i < 2; ++i) if (moved[i]) { // a moved-from message is used again by decoding into it
      auto v = gen_value(c, k.s, 3 + static_cast<int>(c.pick(12)));
      bufs.emplace_back(encode_canonical(*v));
      DecArgs d; d.mode = D_CONTIG; d.mr = arena.get(); d.in = bufs.back().bytes();
      if (k.decode(objs[i], d)) c.fail("moved-from", "%s/%s: decoding into a moved-from message failed", k.name, k.trait);
      moved[i] = false; c.probe("moved-from-reused");
    }
    std::vector<int> ops;
    if (k.merge) { ops.push_back(0); if (k.owning) ops.push_back(1); }
    if (k.copy) ops.push_back(2), ops.push_back(3), ops.push_back(4);
    if (!k.exts.empty()) ops.push_back(5);
    int op = ops[c.pick(static_cast<std::uint32_t>(ops.size()))];
    const ExtOp *e = nullptr; std::string wire; Msg held; held.t = k.s;
    if (op == 5) {
      e = &k.exts[c.pick(static_cast<std::uint32_t>(k.exts.size()))];
      GenOpt g; int b = 4; Fld f; f.f = e->f;
      bool rep = e->f->card == REP;
      for (std::uint32_t i = 0, m = rep ? c.pick(4) : 1; i < m; ++i) f.v.push_back(gen_val(c, *e->f, g, b, 0));
      Msg w; w.t = k.s; if (!f.v.empty()) w.f[e->f->num] = f;
      wire = encode_canonical(w);
      bufs.emplace_back(wire); // non-owning extension objects view this
    }
    std::uint64_t hn, hl; auto db0 = dflt.blocks.size(); void *fresh = nullptr; int ec = 0;
    {
      sim::HeapScope hs;
      if (op == 0) k.merge(objs[a], objs[1 - a], arena.get());
      else if (op == 1) k.merge_move(objs[a], objs[1 - a], arena.get());
      else if (op == 2) { k.assign(objs[a], objs[1 - a]); }
      else if (op == 3) { k.move_assign(objs[a], objs[1 - a]); }
      else if (op == 4) { fresh = k.copy(objs[a]); }
      else ec = e->set(objs[a], std::string_view(reinterpret_cast<const char *>(bufs.back().p), bufs.back().n), held, arena.get());
      hs.suspend(); hn = hs.count(); hl = hs.live();
    }
    static const char *names[] = {"merge", "merge by move", "copy assignment", "move assignment", "copy construction", "set_extension"};
    if (op == 1 || op == 3) moved[1 - a] = true;
    c.ev("%s/%s %s heap=%llu", k.name, k.trait, names[op], (unsigned long long)hn);
    if (op != 4 && op != 5 && hn) c.fail("heap-used", "%s/%s: %s used the global heap %llu times", k.name, k.trait, names[op], (unsigned long long)hn);
    if (op == 4 && hn > 1) c.fail("heap-used", "%s/%s: %s used the global heap %llu times", k.name, k.trait, names[op], (unsigned long long)(hn - 1));
    if (op == 4) { k.destroy(objs[a]); objs[a] = fresh; hl -= 1; }
    if (hl && op != 4) c.fail("heap-retained", "%s/%s: %s left %llu heap blocks behind", k.name, k.trait, names[op], (unsigned long long)hl);
    if (!k.owning && dflt.blocks.size() != db0) c.fail("default-retained", "%s/%s: %s kept blocks of the default resource although an arena was named", k.name, k.trait, names[op]);
    Where w{k, objs[a], k.owning ? nullptr : &bufs, k.owning ? std::vector<const TrackMR *>{&dflt} : std::vector<const TrackMR *>{arena.get()}};
    check_reach(c, k, objs[a], w, names[op]);
    mr_ok(c, k, dflt, "default"); mr_ok(c, k, *arena, "arena");
    c.step(); c.nontrivial();
    c.state(sim::mix(static_cast<std::uint64_t>(op), arena->count * 31 + dflt.count));
  }
  for (auto *p : objs) k.destroy(p);
  objs.clear();
  if (k.owning && !dflt.blocks.empty()) c.fail("not-returned", "%s/%s: %zu blocks were not returned to the resource", k.name, k.trait, dflt.blocks.size());
  mr_ok(c, k, dflt, "default");
}
SIM_SCENARIO("C10", "decode", 3, decode_own)
SIM_SCENARIO("C10", "operate", 1, operate)
} // namespace
