// D02: a factory built from any descriptor set serves exactly the types of that set.
#include "dyn.hpp"
#include "build.hpp"
#include "descr_mut.hpp"
#include "ds_schema.hpp"
#include "plugin_common.hpp"
#include "p2.schema.hpp"
#include "p3.schema.hpp"
#include "pe.schema.hpp"
#include "pf.schema.hpp"
#include <optional>
using namespace hv;
using hpp_proto::dynamic_message_errc;
using hpp_proto::dynamic_message_factory;
namespace {
using Made = std::expected<dynamic_message_factory, dynamic_message_errc>;
std::string set_bytes(const std::vector<ProtoFile> &fs) { Wire w; for (auto &f : fs) w.str(1, f.bytes); return w.s; }
// the tables made at run time are those made from protoc's own view of the same files
void self_test() {
  static bool done = false;
  if (done) return;
  done = true;
  std::string dir = getenv("VP_GEN") ? getenv("VP_GEN") : "/verif/build/gen";
  { // whatever the library sets up once per process is set up before runs are counted
    std::string b;
    for (auto n : {"p2", "p3", "pe", "pf"}) { Wire x; for (auto &f : load_set(dir + "/" + n + ".ds")) x.str(1, f.bytes); b = x.s; (void)hpp_proto::dynamic_message_factory::create(std::as_bytes(std::span(b))); }
    (void)hpp_proto::dynamic_message_factory::create(std::as_bytes(std::span(b).first(b.size() - 1)));
  }
  for (auto [n, s] : {std::pair{"p2", &schema_p2()}, {"p3", &schema_p3()}, {"pe", &schema_pe()}, {"pf", &schema_pf()}}) {
    auto fs = load_set(dir + "/" + n + ".ds");
    DrawnSchema d; std::string why;
    auto bad = [&](const std::string &w) { fprintf(stderr, "harness: run-time schema of %s: %s\n", n, w.c_str()); abort(); };
    if (!d.build(fs, &why)) bad(why);
    for (auto &m : s->msgs) {
      auto *x = d.s.msg(m.name);
      if (x->fields.size() != m.fields.size() || x->exts.size() != m.exts.size() || x->map_entry != m.map_entry) bad(m.name);
      for (auto [a, b] : {std::pair{&x->fields, &m.fields}, {&x->exts, &m.exts}}) for (std::size_t i = 0; i < a->size(); ++i) {
        auto &f = (*a)[i]; auto &g = (*b)[i];
        bool entry = m.map_entry; // (presence of keys and values is not looked at)
        if (f.num != g.num || strcmp(f.name, g.name) || f.kind != g.kind || (f.card != g.card && !entry) || f.packed != g.packed || f.utf8 != g.utf8 || f.oneof != g.oneof || (f.m ? f.m->name : std::string()) != (g.m ? g.m->name : std::string()) || (f.e ? f.e->name : std::string()) != (g.e ? g.e->name : std::string()) || f.dflt != g.dflt || f.dflts != g.dflts)
          bad(std::string(m.name) + "." + g.name);
        if (f.e && (f.e->closed != g.e->closed || f.e->values != g.e->values)) bad(f.e->name);
      }
    }
  }
}
struct Upstream { TrackMR t; // what the factory is given to allocate from
  void expect_empty(Ctx &c, const char *when) {
    if (t.bad) c.fail("memory-resource", "%s: %s", when, t.bad);
    if (t.live_bytes) c.fail("memory-left", "%s: %llu bytes of the factory's resource are still in use", when, static_cast<unsigned long long>(t.live_bytes));
  }
};
Made make_array(const std::vector<std::string> &parts, Upstream &up) {
  std::vector<Guarded> gs;
  std::vector<hpp_proto::file_descriptor_pb> v;
  for (auto &p : parts) gs.emplace_back(p);
  for (auto &g : gs) v.push_back(hpp_proto::file_descriptor_pb{std::string_view(reinterpret_cast<const char *>(g.p), g.n)});
  auto arr = [&]<std::size_t N>() {
    auto a = [&]<std::size_t... I>(std::index_sequence<I...>) { return hpp_proto::distinct_file_descriptor_pb_array<N>{v[I]...}; }(std::make_index_sequence<N>{});
    return dynamic_message_factory::create(a, &up.t);
  };
  switch (v.size()) {
  case 1: return arr.template operator()<1>();
  case 2: return arr.template operator()<2>();
  case 3: return arr.template operator()<3>();
  case 4: return arr.template operator()<4>();
  case 5: return arr.template operator()<5>();
  case 6: return arr.template operator()<6>();
  default: abort();
  }
}
Made make_bytes(const std::string &b, Upstream &up) {
  Guarded g(b); // gone when create() has returned
  return dynamic_message_factory::create(std::span<const std::byte>(g.p, g.n), &up.t);
}
std::vector<ProtoFile> shuffled(Ctx &c, std::vector<ProtoFile> fs) {
  if (fs.size() > 1 && c.pick(2)) { c.fault("files-out-of-order"); for (std::size_t i = 0; i + 1 < fs.size(); ++i) std::swap(fs[i], fs[i + c.pick(static_cast<std::uint32_t>(fs.size() - i))]); }
  return fs;
}
struct World { // a schema, the reference's view of it, and what serves it
  std::vector<ProtoFile> fs;
  DrawnSchema ds;
  Upstream up;
  std::optional<dynamic_message_factory> f;
};
void describe(Ctx &c, const std::vector<ProtoFile> &fs) { for (auto &f : fs) c.ev("file %s: %s", f.name.c_str(), to_hex(f.bytes, 4000).c_str()); }
bool draw_world(Ctx &c, World &w, bool small) {
  self_test();
  w.fs = draw_schema(c, small);
  std::string why;
  if (!w.ds.build(w.fs, &why)) c.fail("sim-harness", "the drawn schema is not consistent: %s", why.c_str());
  return !w.ds.usable.empty();
}
const MsgS *some_msg(Ctx &c, const World &w) {
  std::vector<const MsgS *> full;
  for (auto *m : w.ds.usable) if (!m->fields.empty()) full.push_back(m);
  auto &v = full.empty() || c.chance(1, 10) ? w.ds.usable : full;
  return v[c.pick(static_cast<std::uint32_t>(v.size()))];
}
Made create(Ctx &c, World &w) {
  auto fs = shuffled(c, w.fs);
  describe(c, fs);
  if (fs.size() <= 6 && c.pick(3) == 0) { std::vector<std::string> p; for (auto &f : fs) p.push_back(f.bytes); c.probe("file-by-file"); return make_array(p, w.up); }
  return make_bytes(set_bytes(fs), w.up);
}
bool undisputed(const std::string &in, const MsgS *t, bool *ok, Msg *want) { // (see C05's known findings)
  want->t = t;
  *ok = ref_decode(in, *want, RefOpt{});
  for (int i = 1; i < 8; ++i) {
    RefOpt p; p.known_dialect = i & 1; p.lenient_closed_map = i & 2; p.u32_max5 = i & 4;
    Msg x; x.t = t;
    bool ok2 = ref_decode(in, x, p);
    if (ok2 != *ok || (*ok && !diff(*want, x).empty())) return false;
  }
  return true;
}
struct Held { ArenaMR mr; std::optional<hpp_proto::message_value_mref> m; const MsgS *t = nullptr; Msg want; std::string in; Guarded buf; };
Msg check_held(Ctx &c, const Held &h, const char *when) {
  Msg got;
  auto e = dyn_read(h.m->cref(), h.t, got);
  if (!e.empty()) c.fail("api-contradiction", "%s %s: %s", h.t->name, when, e.c_str());
  auto d = diff(h.want, got);
  if (!d.empty()) c.fail("content-differs", "%s %s: %s; bytes %s", h.t->name, when, d.c_str(), to_hex(h.in).c_str());
  e = dyn_read_mref(*h.m, h.t);
  if (!e.empty()) c.fail("api-contradiction", "%s %s, through mutable references: %s", h.t->name, when, e.c_str());
  return got;
}
void use(Ctx &c, dynamic_message_factory &f, const MsgS *t, Held &h) {
  h.t = t;
  auto m = f.get_message(t->name, h.mr);
  if (!m.has_value()) c.fail("type-missing", "get_message(%s) fails with %d although the set defines it", t->name, static_cast<int>(m.error()));
  h.m.emplace(*m);
  if (m->descriptor().full_name() != t->name) c.fail("wrong-type", "get_message(%s) gives a %s", t->name, std::string(m->descriptor().full_name()).c_str());
  h.want.t = t; h.want.keeps = false; fill_required(h.want);
  check_held(c, h, "new");
  GenOpt g; g.budget = 1 + static_cast<int>(c.pick(30)); g.max_depth = 4;
  auto v = gen(c, t, g);
  if (c.pick(3) == 0) h.in = encode_canonical(*v);
  else { PeerOpt o; o.swarm(c); o.no_known(); h.in = encode_peer(c, *v, o); }
  bool hurt = c.chance(1, 8);
  if (hurt) { h.in = damage(c, h.in); c.fault("damaged-message"); }
  bool ok; Msg want;
  bool und = undisputed(h.in, t, &ok, &want);
  h.buf = Guarded(h.in);
  auto st = hpp_proto::read_binpb(*h.m, h.buf.bytes());
  c.ev("%s: decode gives %d: %s", t->name, static_cast<int>(st.ec), to_hex(h.in, 200).c_str());
  if (und && !hurt && st.ok() != ok) c.fail("acceptance-differs", "%s: decoding gives %d, the reference says %s: %s", t->name, static_cast<int>(st.ec), ok ? "valid" : "invalid", to_hex(h.in).c_str());
  if (!st.ok() || !und || !ok) { // (what becomes of a damaged message is C03's and D01's matter)
    h.m->reset(); h.want = Msg{}; h.want.t = t; h.want.keeps = false; fill_required(h.want); if (!und) c.probe("disputed-encoding"); return; }
  h.want = want; h.want.keeps = false;
  Msg got = check_held(c, h, "decoded");
  std::vector<std::byte> out;
  st = hpp_proto::write_binpb(h.m->cref(), out);
  std::string enc(reinterpret_cast<const char *>(out.data()), out.size());
  if (!st.ok()) c.fail("encode-failed", "%s: encoding fails with %d", t->name, static_cast<int>(st.ec));
  Msg peer; peer.t = t; RefOpt rd; rd.as_declared = true; RefErr why;
  if (!ref_decode(enc, peer, rd, &why)) c.fail("encode-invalid", "%s: the encoding is not what the schema asks for (%s): %s", t->name, why.what ? why.what : "?", to_hex(enc).c_str());
  auto d = diff(peer, got);
  if (!d.empty()) c.fail("encode-differs", "%s: a peer decodes the encoding differently: %s; bytes %s", t->name, d.c_str(), to_hex(enc).c_str());
  c.state(hash(h.want));
}
void absent(Ctx &c, const dynamic_message_factory &f, const World &w) {
  std::vector<std::string> bad = {"", ".", "x.Nope", std::string("\0", 1)};
  auto *m = w.ds.msgs[c.pick(static_cast<std::uint32_t>(w.ds.msgs.size()))];
  std::string n = m->name;
  bad.push_back("." + n); bad.push_back(n + "."); bad.push_back(n.substr(0, n.size() - 1)); bad.push_back(n + "x");
  if (n.find('.') != n.npos) { bad.push_back(n.substr(n.find('.') + 1)); bad.push_back(n.substr(0, n.rfind('.'))); }
  if (!w.ds.s.enums.empty()) bad.push_back(w.ds.s.enums[c.pick(static_cast<std::uint32_t>(w.ds.s.enums.size()))].name);
  for (auto &b : bad) {
    bool known = false;
    for (auto &x : w.ds.s.msgs) known |= b == x.name;
    if (known) continue;
    ArenaMR mr;
    auto r = f.get_message(b, mr);
    if (r.has_value() || r.error() != dynamic_message_errc::unknown_message_name) c.fail("phantom-type", "get_message(\"%s\") does not report an unknown name", b.c_str());
  }
}
void build_and_use(Ctx &c) {
  World w;
  if (!draw_world(c, w, c.pick(2))) return;
  {
    auto r = create(c, w);
    if (!r.has_value()) c.fail("refused", "the factory refuses a valid descriptor set with %d", static_cast<int>(r.error()));
    w.f.emplace(std::move(*r));
  }
  if (w.up.t.bad) c.fail("memory-resource", "create: %s", w.up.t.bad);
  for (auto *m : w.ds.msgs) {
    ArenaMR mr;
    auto x = w.f->get_message(m->name, mr);
    if (!x.has_value()) c.fail("type-missing", "get_message(%s) fails with %d although the set defines it", m->name, static_cast<int>(x.error()));
    if (x->descriptor().full_name() != m->name) c.fail("wrong-type", "get_message(%s) gives a %s", m->name, std::string(x->descriptor().full_name()).c_str());
  }
  absent(c, *w.f, w);
  std::vector<std::unique_ptr<Held>> hs;
  for (unsigned i = 0, n = 1 + c.pick(4); i < n; ++i) { hs.push_back(std::make_unique<Held>()); use(c, *w.f, some_msg(c, w), *hs.back()); c.step(); }
  if (c.pick(2)) { // the factory moves; what it made stays usable
    auto other = std::make_unique<dynamic_message_factory>(std::move(*w.f));
    ArenaMR mr;
    auto r = w.f->get_message(w.ds.msgs[0]->name, mr);
    if (r.has_value() || r.error() != dynamic_message_errc::unknown_message_name) c.fail("moved-from", "a moved-from factory still gives out messages");
    if (c.pick(2)) { *w.f = std::move(*other); } else w.f.emplace(std::move(*other));
    other.reset();
    c.probe("moved");
    for (auto &h : hs) check_held(c, *h, "after the factory was moved");
    hs.push_back(std::make_unique<Held>()); use(c, *w.f, some_msg(c, w), *hs.back());
  }
  if (c.chance(1, 3)) { // another factory for the same set does not disturb this one
    Upstream up2; World w2; w2.fs = w.fs;
    { auto r = make_bytes(set_bytes(shuffled(c, w.fs)), up2); if (!r.has_value()) c.fail("refused", "the factory refuses a valid descriptor set the second time"); Held h; use(c, *r, some_msg(c, w), h); }
    up2.expect_empty(c, "after the second factory");
  }
  for (auto &h : hs) check_held(c, *h, "at the end");
  hs.clear();
  w.f.reset();
  w.up.expect_empty(c, "after the factory");
  c.nontrivial();
}
void damaged(Ctx &c) {
  World w;
  if (!draw_world(c, w, true)) return;
  auto b = set_bytes(w.fs);
  for (unsigned i = 0, n = 1 + c.pick(3); i < n; ++i) b = damage(c, b);
  auto *t = descriptor_type("google.protobuf.FileDescriptorSet");
  RefOpt lenient; Msg m; m.t = t;
  bool valid = ref_decode(b, m, lenient);
  if (valid) { c.probe("still-decodable"); return; } // the content of decodable descriptors is trusted
  c.fault("undecodable-set");
  auto r = make_bytes(b, w.up);
  c.ev("create gives %d for %s", r.has_value() ? 0 : static_cast<int>(r.error()), to_hex(b, 400).c_str());
  if (r.has_value()) c.fail("accepts-garbage", "create() succeeds for bytes that are no FileDescriptorSet: %s", to_hex(b).c_str());
  if (r.error() != dynamic_message_errc::descriptor_deserialization_error) c.fail("wrong-error", "create() reports %d for bytes that are no FileDescriptorSet: %s", static_cast<int>(r.error()), to_hex(b).c_str());
  w.up.expect_empty(c, "after a refused set");
  c.nontrivial();
}
void meaningless(Ctx &c) { // sets whose structure is broken are refused, and leave nothing behind
  World w;
  if (!draw_world(c, w, c.pick(2))) return;
  auto good = set_bytes(w.fs);
  for (unsigned i = 0, n = 1 + c.pick(5); i < n; ++i) {
    std::string what, b = break_structure(c, good, &what);
    if (b.empty()) continue;
    c.ev("%s: %s", what.c_str(), to_hex(b, 6000).c_str());
    auto r = make_bytes(b, w.up);
    if (r.has_value()) c.fail("accepts-broken", "create() accepts a descriptor set with this fault: %s", what.c_str());
    if (r.error() != dynamic_message_errc::schema_validation_error) c.fail("wrong-error", "create() reports %d for a descriptor set with this fault: %s", static_cast<int>(r.error()), what.c_str());
    w.up.expect_empty(c, "after a refused set");
    c.step();
    c.nontrivial();
  }
  if (c.pick(2)) { auto r = make_bytes(good, w.up); if (!r.has_value()) c.fail("refused", "the factory refuses a valid descriptor set with %d", static_cast<int>(r.error())); Held h; use(c, *r, some_msg(c, w), h); }
  w.up.expect_empty(c, "at the end");
}
void inconsistent(Ctx &c) {
  World w;
  if (!draw_world(c, w, true)) return;
  auto b = set_bytes(w.fs);
  std::string what;
  b = mutate_descriptors(c, descriptor_type("google.protobuf.FileDescriptorSet"), b, 1 + c.pick(3), &what);
  c.ev("%s", what.c_str());
  c.ev("%s", to_hex(b, 6000).c_str());
  { auto r = make_bytes(b, w.up); c.probe(r.has_value() ? "accepted" : "refused"); }
  w.up.expect_empty(c, "after an inconsistent set");
  c.nontrivial();
}
void starved(Ctx &c) { // an allocation fails at a drawn instant of create() or get_message()
  World w;
  if (!draw_world(c, w, c.pick(2))) return;
  auto bytes = set_bytes(w.fs);
  bool broken = c.chance(1, 5);
  auto given = broken ? damage(c, bytes) : bytes;
  auto attempt = [&](std::int64_t up_fail, std::int64_t heap_fail, std::int64_t span, std::uint64_t *ups, std::uint64_t *heaps, bool *fired) {
    w.up.t.fail_in = up_fail; w.up.t.fired = false;
    auto up0 = w.up.t.count;
    int res = 0; // 0 made, 1 refused, 2 bad_alloc
    {
      sim::HeapScope hs;
      if (heap_fail >= 0) hs.fail_after(heap_fail, span);
      try { auto r = [&] { Guarded g; { sim::HeapPause hp; g = Guarded(given); } return dynamic_message_factory::create(std::span<const std::byte>(g.p, g.n), &w.up.t); }(); sim::HeapPause hp; if (!r.has_value()) res = 1; else w.f.emplace(std::move(*r)); }
      catch (const std::bad_alloc &) { res = 2; }
      *ups = w.up.t.count - up0; *heaps = hs.count(); *fired = w.up.t.fired || hs.fired();
      if (res && hs.live()) c.fail("memory-left", "create() failed and left %llu heap blocks", static_cast<unsigned long long>(hs.live()));
    }
    w.up.t.fail_in = -1;
    return res;
  };
  std::uint64_t ups, heaps; bool fired;
  int clean = attempt(-1, -1, 1, &ups, &heaps, &fired);
  if (clean == 2) c.fail("bad-alloc", "create() throws bad_alloc although no allocation failed");
  w.f.reset();
  w.up.expect_empty(c, "after an undisturbed attempt");
  for (unsigned i = 0, n = 1 + c.pick(4); i < n; ++i) {
    if (ups + heaps == 0) break;
    auto k = c.range(0, ups + heaps - 1);
    bool up = k < ups;
    c.fault(up ? "upstream-allocation-fails" : "heap-allocation-fails");
    std::uint64_t u2, h2;
    int r = attempt(up ? static_cast<std::int64_t>(k) : -1, up ? -1 : static_cast<std::int64_t>(k - ups), 1 + static_cast<std::int64_t>(c.pick(3)), &u2, &h2, &fired);
    c.ev("allocation %llu of %llu+%llu fails: %d", static_cast<unsigned long long>(k), static_cast<unsigned long long>(ups), static_cast<unsigned long long>(heaps), r);
    if (r == 2 && !fired) c.fail("bad-alloc", "create() throws bad_alloc although no allocation failed");
    if (r != 2 && !fired && r != clean) c.fail("result-differs", "create() gives %d, and %d for the same bytes before", r, clean);
    if (clean == 1 && r == 0) c.fail("accepts-garbage", "create() succeeds after a failed allocation for bytes it refused before");
    if (clean == 0 && r == 1) c.fail("refused", "create() reports a bad descriptor set when an allocation fails");
    if (r == 0) { Held h; if (!broken) use(c, *w.f, some_msg(c, w), h); w.f.reset(); }
    w.up.expect_empty(c, "after a starved attempt");
    c.step();
  }
  if (clean == 0 && !broken) { // the next attempt is as good as the first
    auto r = make_bytes(bytes, w.up);
    if (!r.has_value()) c.fail("refused", "the factory refuses a valid descriptor set after failed attempts");
    { Held h;
      auto *t = some_msg(c, w);
      h.mr.t.fail_in = static_cast<std::int64_t>(c.pick(2));
      try { auto m = r->get_message(t->name, h.mr); (void)m; } catch (const std::bad_alloc &) { c.fault("message-allocation-fails"); }
      h.mr.t.fail_in = -1;
      use(c, *r, t, h); }
  }
  w.f.reset();
  w.up.expect_empty(c, "at the end");
  c.nontrivial();
}
} // namespace
SIM_SCENARIO("D02", "starved", 4, starved)
SIM_SCENARIO("D02", "build-and-use", 6, build_and_use)
SIM_SCENARIO("D02", "meaningless", 3, meaningless)
SIM_SCENARIO("D02", "damaged-bytes", 2, damaged)
SIM_SCENARIO("D02", "inconsistent", 2, inconsistent)
