// C02: the same bytes whatever buffer or sink receives them.
#include "build.hpp"
#include "sinks.hpp"
using namespace hv;
namespace {
void sinks(Ctx &c) {
  auto &k = pick_codec(c);
  auto want = gen_value(c, k.s, 2 + static_cast<int>(c.pick(30)), c.chance(1, 6));
  Built b(c, k, *want);
  auto ref = encode(b.o);
  if (ref.ec != 0) c.fail("encode-failed", "%s/%s: encoding failed with %d", k.name, k.trait, ref.ec);
  c.ev("message=%s trait=%s value %s", k.name, k.trait, show(b.t).c_str());
  bool ok; Msg peer = ref_tree(k, ref.bytes, &ok); // the yardstick itself must be the message
  peer.keeps = b.t.keeps;
  if (!ok || !diff(b.t, peer).empty()) c.probe("yardstick-differs");
  for (unsigned i = 0, n = 2 + c.pick(6); i < n; ++i) encode_into(c, k, b.o, ref.bytes, [&] { static const int ms[] = {E_VECTOR, E_STRING, E_RETURN, E_APPEND, E_SPAN, E_SINK_CONTIG, E_SINK_ADAPT, E_SINK_CHUNK, E_SINK_CHUNK, E_SINK_CHUNK, E_SINK_DEFAULT, E_NONOWN, E_VECTOR_CACHE, E_APPEND}; return ms[c.pick(14)]; }());
  c.state(hash(b.t));
  if (ref.bytes.size() > 2) c.nontrivial();
}
// a writer appends several messages to one buffer, interleaved with whole rewrites
void stream(Ctx &c) {
  std::string buf, model;
  for (unsigned i = 0, n = 2 + c.pick(6); i < n; ++i) {
    auto &k = pick_codec(c);
    auto want = gen_value(c, k.s, 1 + static_cast<int>(c.pick(10)));
    Built b(c, k, *want);
    auto ref = encode(b.o);
    bool rewrite = c.chance(1, 5);
    auto e = encode(b.o, rewrite ? (c.pick(2) ? E_VECTOR : E_STRING) : E_APPEND, buf);
    model = rewrite ? ref.bytes : model + ref.bytes;
    c.ev("%s %s/%s %zu bytes", rewrite ? "rewrite" : "append", k.name, k.trait, ref.bytes.size());
    if (e.ec != 0 || e.bytes != model) c.fail("stream-bytes", "%s of message %u (%s/%s): status %d, buffer %s, expected %s", rewrite ? "rewrite" : "append", i, k.name, k.trait, e.ec, to_hex(e.bytes).c_str(), to_hex(model).c_str());
    buf = e.bytes;
    c.step(); c.state(sim::hash_bytes(buf.data(), buf.size()));
  }
  c.nontrivial();
}
} // namespace
SIM_SCENARIO("C02", "buffers-and-sinks", 6, sinks)
SIM_SCENARIO("C02", "append-stream", 2, stream)
