#include "codec.hpp"
#include <algorithm>
extern "C" bool is_utf8(const char *p, size_t n) { return hv::valid_utf8({p, n}); }
namespace hv {
std::vector<Codec> &codecs() { static std::vector<Codec> v; return v; }
std::vector<const Schema *> &schemas() { static std::vector<const Schema *> v; return v; }
const MsgS *find_msg(const char *name) {
  for (auto *s : schemas()) for (auto &m : s->msgs) if (!strcmp(m.name, name)) return &m;
  return nullptr;
}
const Codec *find_codec(const MsgS *s, const char *trait) {
  for (auto &c : codecs()) if (c.s == s && strcmp(c.trait, trait) == 0) return &c;
  return nullptr;
}
std::vector<const Codec *> codecs_of(const MsgS *s) {
  std::vector<const Codec *> r;
  for (auto &c : codecs()) if (c.s == s) r.push_back(&c);
  std::sort(r.begin(), r.end(), [](auto *a, auto *b) { return strcmp(a->trait, b->trait) < 0; });
  return r;
}
Guarded::Guarded(std::string_view s, std::size_t pad, int fill) : n(s.size()) {
  sim::HeapPause hp;
  p = static_cast<std::byte *>(malloc(n + pad ? n + pad : 1));
  if (n) memcpy(p, s.data(), n);
  if (pad) memset(p + n, fill, pad);
  if (pad) p[n] = std::byte{0};
}
Guarded::~Guarded() { free(p); }
std::span<std::byte> Sink::next_chunk() {
  sim::HeapPause hp;
  if (throw_at >= 0 && throw_at-- == 0) throw Fault{};
  std::size_t n = idx < plan.size() ? plan[idx] : tail;
  ++idx;
  if (exact_first && idx == 1) n = std::max(n, msg_size);
  if (n > limit - offered) { n = limit - offered; short_given = true; }
  if (n == 0) empty_given = true;
  offered += n;
  bufs.emplace_back(std::string_view(std::string(n, '\xa5')));
  if (bufs.size() > 200000) { fprintf(stderr, "sink: too many chunks\n"); abort(); }
  return {bufs.back().p, n};
}
std::string Sink::written(std::size_t n) const {
  std::string s;
  for (auto &b : bufs) { auto k = std::min(n, b.n); s.append(reinterpret_cast<char *>(b.p), k); n -= k; if (!n) break; }
  return s;
}
bool Sink::rest_untouched(std::size_t n) const {
  for (auto &b : bufs) {
    std::size_t k = std::min(n, b.n);
    n -= k;
    for (; k < b.n; ++k) if (b.p[k] != std::byte{0xa5}) return false;
  }
  return true;
}
std::string to_hex(std::string_view s, std::size_t max) {
  std::string o; char b[4];
  for (std::size_t i = 0; i < s.size() && i < max; ++i) { snprintf(b, sizeof b, "%02x", static_cast<unsigned char>(s[i])); o += b; }
  if (s.size() > max) o += "..";
  return o + "(" + std::to_string(s.size()) + ")";
}
} // namespace hv
namespace hv {
void split_unknown(Msg &o, std::string_view in) {
  // parse with an empty schema: every record is unknown
  static const MsgS none("none", 0, {}, {}, {});
  Msg m; m.t = &none;
  RefOpt r; r.limit = 10000;
  if (ref_decode(in, m, r)) o.unk = std::move(m.unk);
  else o.unk[0] = std::string(in);
}
} // namespace hv
