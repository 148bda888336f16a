// Helpers shared by the codec scenarios.
#pragma once
#include "codec.hpp"
#include <algorithm>
#include <new>
#include <stdexcept>

namespace hv {
using sim::Ctx;
inline const std::vector<const Codec *> &all_codecs() { // deterministic order
  static const std::vector<const Codec *> v = [] {
    std::vector<const Codec *> r;
    for (auto &c : codecs()) r.push_back(&c);
    std::sort(r.begin(), r.end(), [](auto *a, auto *b) { int k = strcmp(a->name, b->name); return k ? k < 0 : strcmp(a->trait, b->trait) < 0; });
    return r;
  }();
  return v;
}
inline const Codec &pick_codec(Ctx &c) { auto &v = all_codecs(); return *v[c.pick(static_cast<std::uint32_t>(v.size()))]; }
template <class P> const Codec &pick_codec_if(Ctx &c, P pred) {
  std::vector<const Codec *> r;
  for (auto *x : all_codecs()) if (pred(*x)) r.push_back(x);
  return *r[c.pick(static_cast<std::uint32_t>(r.size()))];
}
// a decoded object with everything it may refer to
struct Decoded {
  Obj o;
  TrackMR mr, cache;
  std::vector<Guarded> bufs;
  std::vector<Bytes> spans;
  int ec = -1;
  explicit Decoded(const Codec &c) : o(&c) {}
  Decoded(const Decoded &) = delete;
  void decode(DecMode m, std::string_view in, const std::vector<std::size_t> *frag = nullptr, int padfill = 0) {
    DecArgs a; a.mode = m; a.mr = &mr; a.cache = &cache;
    std::size_t p = 0;
    spans.clear();
    std::size_t b0 = bufs.size();
    bool chunked = m == D_CHUNK || m == D_CHUNK_CACHE || m == D_LIM5_CHUNK || m == D_LIM0_CHUNK;
    if (chunked) {
      static const std::vector<std::size_t> whole;
      std::vector<std::size_t> fr = frag ? *frag : whole;
      if (!frag) fr.push_back(in.size());
      for (auto n : fr) { bufs.emplace_back(in.substr(p, n)); p += n; }
      for (std::size_t i = b0; i < bufs.size(); ++i) spans.push_back(bufs[i].bytes());
      a.chunks = spans;
    } else {
      bufs.emplace_back(in, m == D_PADDED || m == D_LIM5_PADDED ? 16 : 0, padfill);
      a.in = bufs.back().bytes();
    }
    try { ec = o.c->decode(o.p, a); }
    catch (const std::bad_alloc &) { ec = -2; }
  }
  Msg tree() const { return o.tree(); }
};
inline std::string frag_str(const std::vector<std::size_t> &f) {
  std::string s;
  for (std::size_t i = 0; i < f.size() && i < 40; ++i) s += (i ? "," : "") + std::to_string(f[i]);
  return s + (f.size() > 40 ? ",.." : "");
}
inline Msg ref_tree(const Codec &c, std::string_view in, bool *ok, RefOpt o = {}) {
  Msg m; m.t = c.s;
  *ok = ref_decode(in, m, o);
  return m;
}
struct EncRes { int ec = 0; std::string bytes; };
inline EncRes encode(const Obj &o, EncMode m = E_VECTOR, std::string dirty = {}) {
  EncRes r; r.bytes = std::move(dirty);
  TrackMR mr, cache; EncArgs a; a.mode = m; a.out = &r.bytes; a.mr = &mr; a.cache = &cache;
  r.ec = o.c->encode(o.p, a);
  return r;
}
enum InputKind { IN_CANON, IN_PEER, IN_DAMAGED, IN_GARBAGE };
struct Input { std::string bytes; InputKind kind; std::shared_ptr<Msg> tree; };
// a message on the wire as some peer (or some broken link) produces it
inline Input gen_input(Ctx &c, const MsgS *s, unsigned w_canon = 1, unsigned w_peer = 4, unsigned w_dam = 2, unsigned w_garb = 1, bool big = false) {
  Input r;
  r.kind = static_cast<InputKind>(c.weighted(w_canon, w_peer, w_dam, w_garb));
  if (r.kind == IN_GARBAGE) { r.bytes = gen_garbage(c, s); c.fault("garbage-input"); return r; }
  GenOpt g; g.exts = true; g.big = big; g.budget = 3 + static_cast<int>(c.pick(30)); g.unknown = c.chance(1, 3);
  r.tree = gen(c, s, g);
  if (r.kind == IN_CANON || (r.kind == IN_DAMAGED && c.pick(2))) r.bytes = encode_canonical(*r.tree);
  else { PeerOpt o; o.swarm(c); r.bytes = encode_peer(c, *r.tree, o); }
  if (r.kind == IN_DAMAGED) r.bytes = damage(c, std::move(r.bytes));
  return r;
}
} // namespace hv
