// Building real message objects from generated value trees.
#pragma once
#include "scn.hpp"
namespace hv {
// An object holding the given value: decoded from the canonical encoding (contiguous input).
// Encoding properties are judged against the tree read back from the object's own fields.
struct Built : Decoded {
  Msg t;
  Built(Ctx &c, const Codec &k, const Msg &want) : Decoded(k) {
    auto b = encode_canonical(want);
    decode(D_CONTIG, b);
    if (ec != 0) c.fail("cannot-build", "%s/%s: the canonical encoding was rejected with %d: %s", k.name, k.trait, ec, to_hex(b).c_str());
    t = tree();
  }
};
// forgets the unknown fields that the types seen in `like` do not retain
inline void apply_keeps(Msg &w, const Msg &like) {
  if (!like.keeps) w.unk.clear();
  for (auto &[n, f] : w.f) {
    auto it = like.f.find(n);
    if (it == like.f.end()) continue;
    for (std::size_t i = 0; i < f.v.size() && i < it->second.v.size(); ++i)
      if (f.v[i].m && it->second.v[i].m) apply_keeps(*f.v[i].m, *it->second.v[i].m);
    for (auto &[k, e] : f.kv) { auto j = it->second.kv.find(k); if (j != it->second.kv.end() && e.second.m && j->second.second.m) apply_keeps(*e.second.m, *j->second.second.m); }
  }
}
inline std::shared_ptr<Msg> gen_value(Ctx &c, const MsgS *s, int budget, bool big = false) {
  GenOpt g; g.exts = true; g.budget = budget; g.big = big; g.unknown = c.chance(1, 4);
  return gen(c, s, g);
}
} // namespace hv
