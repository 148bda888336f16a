// Encoding one object into a drawn destination and comparing every byte.
#pragma once
#include "scn.hpp"
namespace hv {
inline std::vector<std::size_t> plan_for(Ctx &c, std::size_t n) {
  std::vector<std::size_t> p;
  switch (c.pick(6)) {
  case 0: p.push_back(n); break;
  case 1: { std::size_t w = 1 + c.pick(24); for (std::size_t i = 0; i < n; i += w) p.push_back(w); break; }
  case 2: for (std::size_t i = 0; i < n;) { std::size_t w = 1 + c.pick(12); p.push_back(w); i += w; } break;
  case 3: for (std::size_t i = 0; i < n;) { std::size_t w = c.pick(4) ? 9 + c.pick(3) : 1 + c.pick(3); p.push_back(w); i += w; } break;
  case 4: { std::size_t cut = n ? c.pick(static_cast<std::uint32_t>(n)) : 0; if (cut) p.push_back(cut); p.push_back(n - cut ? n - cut : 1); break; }
  default: for (std::size_t i = 0; i < n;) { std::size_t w = 1 + c.pick(static_cast<std::uint32_t>(n)); p.push_back(w); i += w; }
  }
  return p;
}
inline const char *const sink_names[] = {"vector", "string", "returned", "append", "fixed", "array", "sink-contiguous", "sink-adaptive", "sink-chunked", "sink-default", "non-owning", "cache"};
inline void encode_into(Ctx &c, const Codec &k, const Obj &o, const std::string &want, int m) {
  c.step();
  std::string dirty;
  switch (m) {
  case E_VECTOR: case E_STRING: case E_RETURN: case E_APPEND: case E_NONOWN: case E_VECTOR_CACHE: {
    if (m == E_VECTOR || m == E_STRING || m == E_APPEND || m == E_VECTOR_CACHE) {
      static const std::uint32_t sizes[] = {0, 1, 7, 100, 3000};
      dirty = gen_string(c, false, static_cast<int>(sizes[c.pick(5)]));
    }
    auto e = encode(o, static_cast<EncMode>(m), dirty);
    c.ev("%s into %zu-byte buffer: ec=%d size=%zu", sink_names[m], dirty.size(), e.ec, e.bytes.size());
    std::string exp = m == E_APPEND ? dirty + want : want;
    if (e.ec != 0) c.fail("encode-failed", "%s/%s: %s encode failed with %d", k.name, k.trait, sink_names[m], e.ec);
    if (e.bytes != exp) {
      std::size_t i = 0; while (i < e.bytes.size() && i < exp.size() && e.bytes[i] == exp[i]) ++i;
      c.fail("other-bytes", "%s/%s: %s encode differs at byte %zu (sizes %zu, expected %zu; buffer held %zu bytes before); expected %s got %s", k.name, k.trait, sink_names[m], i, e.bytes.size(), exp.size(), dirty.size(), to_hex(exp).c_str(), to_hex(e.bytes).c_str());
    }
    break;
  }
  case E_SPAN: {
    std::size_t extra = c.pick(3) ? 0 : 1 + c.pick(50);
    Guarded g(std::string(want.size() + extra, '\xa5'));
    EncArgs a; a.mode = E_SPAN; a.fixed = {g.p, g.n};
    int ec = k.encode(o.p, a);
    c.ev("fixed buffer +%zu: ec=%d", extra, ec);
    std::string got(reinterpret_cast<char *>(g.p), g.n), exp = want + std::string(extra, '\xa5');
    if (ec != 0) c.fail("encode-failed", "%s/%s: encode into a fixed buffer of %zu bytes for %zu failed with %d", k.name, k.trait, g.n, want.size(), ec);
    if (got != exp) c.fail("other-bytes", "%s/%s: fixed-buffer encode differs; expected %s got %s", k.name, k.trait, to_hex(exp).c_str(), to_hex(got).c_str());
    break;
  }
  default: {
    Sink s;
    bool contig = m == E_SINK_CONTIG || m == E_SINK_DEFAULT;
    s.plan = plan_for(c, want.size());
    s.tail = 1 + c.pick(64);
    s.exact_first = contig;
    if (m == E_SINK_ADAPT) { s.advertised = s.plan.empty() ? 0 : s.plan[0]; if (c.pick(3) == 0) s.advertised = 0; }
    EncArgs a; a.mode = static_cast<EncMode>(m); a.sink = &s;
    int ec = k.encode(o.p, a);
    c.ev("%s plan %s: ec=%d announced=%zu chunks=%zu", sink_names[m], frag_str(s.plan).c_str(), ec, s.msg_size, s.bufs.size());
    if (!contig) c.fault("tiny-chunks");
    if (ec != 0) c.fail("encode-failed", "%s/%s: %s encode failed with %d (chunks %s)", k.name, k.trait, sink_names[m], ec, frag_str(s.plan).c_str());
    auto got = s.written(want.size());
    if (s.msg_size != want.size()) c.fail("wrong-size", "%s/%s: %s announced %zu bytes instead of %zu", k.name, k.trait, sink_names[m], s.msg_size, want.size());
    if (got != want) c.fail("other-bytes", "%s/%s: %s encode (chunks %s) differs; expected %s got %s", k.name, k.trait, sink_names[m], frag_str(s.plan).c_str(), to_hex(want).c_str(), to_hex(got).c_str());
    if (!s.rest_untouched(want.size())) c.fail("wrote-too-much", "%s/%s: %s encode wrote behind the end of the message", k.name, k.trait, sink_names[m]);
  }
  }
}
} // namespace hv
