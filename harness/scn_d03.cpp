// D03: factories and messages that nobody changes can be used by any number of threads at once.
#include "mt.hpp"
#include "dyn.hpp"
#include "build.hpp"
#include "sinks.hpp"
#include "ds_schema.hpp"
#include "plugin_common.hpp"
#include <optional>
using namespace hv;
using hpp_proto::dynamic_message_errc;
using hpp_proto::dynamic_message_factory;
namespace {
enum Op { FRESH, UNKNOWN, DYN_READ, DYN_ENCODE, DYN_CLONE, GEN_ENCODE, GEN_READ, GEN_COPY, GEN_MERGE, GEN_DECODE, OTHER_FACTORY, ALL_TYPES, NOPS };
const char *op_names[] = {"fresh message", "unknown name", "read shared dynamic message", "encode shared dynamic message", "clone shared dynamic message", "encode shared generated message", "read shared generated message", "copy and compare shared generated message", "merge from shared generated message", "decode own generated message", "another factory", "all types"};
struct Item {
  Op op;
  const MsgS *t = nullptr;
  const Codec *k = nullptr;
  std::size_t at = 0;     // which shared message
  std::string in, name;
  bool sure = false;      // `want` is what everybody agrees on
  Msg want;
  std::vector<std::size_t> plan;
  EncMode mode = E_VECTOR;
};
struct SharedDyn { ArenaMR mr; std::optional<hpp_proto::message_value_mref> m; const MsgS *t = nullptr; std::string in; Guarded buf; };
struct Env {
  std::vector<ProtoFile> fs;
  DrawnSchema ds;
  std::string set;
  TrackMR up;
  std::optional<dynamic_message_factory> f;
  std::vector<std::unique_ptr<SharedDyn>> dyn;
  std::vector<std::unique_ptr<Decoded>> gen;
};
std::string text(const Msg &m) { char b[32]; snprintf(b, sizeof b, "%016llx", static_cast<unsigned long long>(hash(m))); return b; }
std::string dyn_text(const hpp_proto::message_value_cref &m, const MsgS *t, Msg *out = nullptr) {
  Msg got;
  auto e = dyn_read(m, t, got);
  if (out) *out = got;
  return e.empty() ? text(got) : "contradiction: " + e;
}
std::string dyn_encode(const hpp_proto::message_value_cref &m, const Item &i) {
  if (i.plan.empty()) {
    std::vector<std::byte> out;
    auto st = hpp_proto::write_binpb(m, out);
    return st.ok() ? to_hex({reinterpret_cast<const char *>(out.data()), out.size()}, 1 << 20) : "error " + std::to_string(static_cast<int>(st.ec));
  }
  Sink s; s.plan = i.plan; s.tail = 16;
  auto st = hpp_proto::write_binpb(m, s, hpp_proto::chunked_mode);
  return st.ok() ? to_hex(s.written(s.msg_size), 1 << 20) : "error " + std::to_string(static_cast<int>(st.ec));
}
std::string expected_differs(const Item &i, const Msg &got) { if (!i.sure) return {}; auto d = diff(i.want, got); return d.empty() ? d : " WRONG: " + d; }
std::string gen_encode(const Codec &k, const void *p, const Item &i) {
  std::string out; TrackMR mr, cache;
  EncArgs a; a.mode = i.mode; a.out = &out; a.mr = &mr; a.cache = &cache;
  Sink s; s.plan = i.plan; s.tail = 16; s.exact_first = i.mode == E_SINK_CONTIG || i.mode == E_SINK_DEFAULT;
  a.sink = &s;
  int ec = k.encode(p, a);
  if (ec) return "error " + std::to_string(ec);
  if (i.mode == E_SINK_CHUNK || i.mode == E_SINK_CONTIG || i.mode == E_SINK_ADAPT || i.mode == E_SINK_DEFAULT) out = s.written(s.msg_size);
  return to_hex(out, 1 << 20);
}
std::string from_dyn(dynamic_message_factory &f, const Item &i) {
  ArenaMR mr;
  auto m = f.get_message(i.t->name, mr);
  if (!m.has_value()) return "no such type";
  Guarded b(i.in);
  hpp_proto::status st = hpp_proto::read_binpb(*m, b.bytes());
  if (!st.ok()) return "error " + std::to_string(static_cast<int>(st.ec)) + (i.sure ? " WRONG" : "");
  Msg got;
  auto s = dyn_text(m->cref(), i.t, &got);
  return s + expected_differs(i, got) + " " + dyn_encode(m->cref(), i);
}
std::string exec(Env &e, const Item &i) {
  switch (i.op) {
  case FRESH: return from_dyn(*e.f, i);
  case UNKNOWN: { ArenaMR mr; auto m = e.f->get_message(i.name, mr); return m.has_value() ? "WRONG: a message" : "error " + std::to_string(static_cast<int>(m.error())); }
  case DYN_READ: { auto &d = *e.dyn[i.at]; return dyn_text(d.m->cref(), d.t); }
  case DYN_ENCODE: return dyn_encode(e.dyn[i.at]->m->cref(), i);
  case DYN_CLONE: {
    auto &d = *e.dyn[i.at];
    ArenaMR mr;
    auto m = e.f->get_message(d.t->name, mr);
    if (!m.has_value()) return "no such type";
    m->clone_from(d.m->cref());
    return dyn_text(m->cref(), d.t) + " " + dyn_encode(m->cref(), i);
  }
  case GEN_ENCODE: { auto &o = e.gen[i.at]->o; return gen_encode(*o.c, o.p, i); }
  case GEN_READ: return text(e.gen[i.at]->tree());
  case GEN_COPY: { auto &o = e.gen[i.at]->o; Obj x(o.c, o.c->copy(o.p)); auto s = std::string(o.c->equal(x.p, o.p) && o.c->equal(o.p, x.p) ? "equal " : "unequal "); return s + text(x.tree()); }
  case GEN_MERGE: { auto &o = e.gen[i.at]->o; Decoded x(*o.c); x.decode(D_CONTIG, i.in); o.c->merge(x.o.p, o.p, &x.mr); return text(x.tree()); }
  case GEN_DECODE: { Decoded x(*i.k); x.decode(D_CONTIG, i.in); if (x.ec) return "error " + std::to_string(x.ec); auto t = x.tree(); return text(t) + " " + gen_encode(*i.k, x.o.p, i); }
  case OTHER_FACTORY: {
    TrackMR up;
    std::string s;
    { auto f = dynamic_message_factory::create(std::as_bytes(std::span(e.set)), &up); s = f.has_value() ? from_dyn(*f, i) : "refused"; }
    return s + (up.live_bytes ? " WRONG: memory left" : "");
  }
  case ALL_TYPES: {
    std::string s;
    ArenaMR mr;
    for (auto *m : e.ds.msgs) { auto x = e.f->get_message(m->name, mr); s += x.has_value() && x->descriptor().full_name() == m->name ? "+" : "-"; if (x.has_value()) s += std::to_string(x->descriptor().fields().size()); }
    return s;
  }
  default: abort();
  }
}
std::string peer_bytes(Ctx &c, const MsgS *t, int budget, bool exts) {
  GenOpt g; g.budget = 1 + static_cast<int>(c.pick(static_cast<std::uint32_t>(budget))); g.max_depth = 4; g.exts = exts;
  auto v = gen(c, t, g);
  if (c.pick(2)) return encode_canonical(*v);
  PeerOpt o; o.swarm(c);
  if (!exts) o.no_known();
  return encode_peer(c, *v, o);
}
void draw_item(Ctx &c, Env &e, Item &i) {
  for (;;) {
    i.op = static_cast<Op>(c.weighted(5, 1, 4, 5, 3, 4, 2, 3, 2, 2, 1, 1));
    if (i.op == DYN_READ || i.op == DYN_ENCODE || i.op == DYN_CLONE) { if (e.dyn.empty()) continue; i.at = c.pick(static_cast<std::uint32_t>(e.dyn.size())); }
    if (i.op >= GEN_ENCODE && i.op <= GEN_MERGE) { if (e.gen.empty()) continue; i.at = c.pick(static_cast<std::uint32_t>(e.gen.size())); if (i.op == GEN_MERGE && !e.gen[i.at]->o.c->merge) continue; }
    break;
  }
  auto plan = [&] { if (c.pick(2)) for (unsigned k = 1 + c.pick(6); k--;) i.plan.push_back(1 + c.pick(40)); };
  auto mode = [&] { static const EncMode m[] = {E_VECTOR, E_SINK_CHUNK, E_SINK_ADAPT, E_SINK_CONTIG, E_STRING, E_NONOWN}; i.mode = m[c.pick(6)]; };
  switch (i.op) {
  case FRESH: case OTHER_FACTORY: {
    i.t = e.ds.usable[c.pick(static_cast<std::uint32_t>(e.ds.usable.size()))];
    i.in = peer_bytes(c, i.t, 20, false);
    bool ok; i.want.t = i.t; ok = ref_decode(i.in, i.want, RefOpt{}); i.want.keeps = false;
    i.sure = ok;
    for (int k = 1; k < 8 && i.sure; ++k) { RefOpt p; p.known_dialect = k & 1; p.lenient_closed_map = k & 2; p.u32_max5 = k & 4; Msg x; x.t = i.t; i.sure = ref_decode(i.in, x, p) && diff(i.want, x).empty(); }
    plan(); break;
  }
  case UNKNOWN: i.name = std::string(e.ds.msgs[0]->name) + "x"; for (bool hit = true; hit;) { hit = false; for (auto &m : e.ds.s.msgs) if (i.name == m.name) { hit = true; i.name += "x"; } } break;
  case DYN_ENCODE: case DYN_CLONE: plan(); break;
  case GEN_ENCODE: mode(); plan(); break;
  case GEN_MERGE: i.in = peer_bytes(c, e.gen[i.at]->o.c->s, 12, true); break;
  case GEN_DECODE: i.k = &pick_codec_if(c, [](const Codec &k) { return strcmp(k.trait, "dynamic") != 0; }); i.in = peer_bytes(c, i.k->s, 20, true); mode(); plan(); break;
  default:;
  }
}
void shared(Ctx &c) {
  Env e;
  e.fs = draw_schema(c, true);
  if (!e.ds.build(e.fs)) c.fail("sim-harness", "the drawn schema is not consistent");
  if (e.ds.usable.empty()) return;
  { Wire w; for (auto &f : e.fs) w.str(1, f.bytes); e.set = w.s; }
  auto r = dynamic_message_factory::create(std::as_bytes(std::span(e.set)), &e.up);
  if (!r.has_value()) c.fail("refused", "the factory refuses a valid descriptor set");
  e.f.emplace(std::move(*r));
  for (unsigned n = c.pick(3); n--;) {
    auto d = std::make_unique<SharedDyn>();
    d->t = e.ds.usable[c.pick(static_cast<std::uint32_t>(e.ds.usable.size()))];
    d->m.emplace(*e.f->get_message(d->t->name, d->mr));
    d->in = peer_bytes(c, d->t, 30, false);
    d->buf = Guarded(d->in);
    if (!hpp_proto::read_binpb(*d->m, d->buf.bytes()).ok()) d->m->reset();
    e.dyn.push_back(std::move(d));
  }
  for (unsigned n = c.pick(3); n--;) {
    auto &k = pick_codec_if(c, [](const Codec &x) { return strcmp(x.trait, "dynamic") != 0; });
    auto d = std::make_unique<Decoded>(k);
    d->decode(D_CONTIG, peer_bytes(c, k.s, 30, true));
    if (d->ec == 0) e.gen.push_back(std::move(d));
  }
  auto n = 2 + c.pick(3);
  std::vector<std::vector<Item>> prog(n);
  std::vector<std::vector<std::string>> res(n);
  for (std::size_t i = 0; i < n; ++i) {
    prog[i].resize(1 + c.pick(4));
    for (auto &x : prog[i]) draw_item(c, e, x);
    if (i && c.chance(1, 3)) prog[i] = prog[0]; // the same at the same time
    res[i].resize(prog[i].size());
  }
  std::vector<std::function<void()>> bodies;
  for (std::size_t i = 0; i < n; ++i) bodies.push_back([&, i] { for (std::size_t k = 0; k < prog[i].size(); ++k) res[i][k] = exec(e, prog[i][k]); });
  static const unsigned gaps[] = {2000, 500, 100, 20, 5, 10000};
  mt::run(c, bodies, gaps[c.pick(6)]);
  auto st = mt::last();
  c.sim_time += st.accesses; c.steps += st.switches;
  c.ev("%u threads, %llu accesses, %llu switches, %llu locks, %llu atomic operations", n, static_cast<unsigned long long>(st.accesses), static_cast<unsigned long long>(st.switches), static_cast<unsigned long long>(st.locks), static_cast<unsigned long long>(st.atomics));
  if (st.switches) c.fault("thread-preempted");
  if (st.locks) c.probe("locks-used");
  if (st.atomics) c.probe("atomics-used");
  for (std::size_t i = 0; i < n; ++i) for (std::size_t k = 0; k < prog[i].size(); ++k) {
    auto &x = prog[i][k];
    auto alone = exec(e, x);
    c.ev("thread %zu: %s%s%s: %s", i, op_names[x.op], x.t ? " " : "", x.t ? x.t->name : "", res[i][k].substr(0, 200).c_str());
    if (res[i][k] != alone) c.fail("outcome-differs", "%s: concurrently %s, alone %s", op_names[x.op], res[i][k].substr(0, 500).c_str(), alone.substr(0, 500).c_str());
    if (alone.find("WRONG") != alone.npos || alone.find("contradiction") != alone.npos) c.fail("wrong-outcome", "%s: %s", op_names[x.op], alone.substr(0, 800).c_str());
    c.state(sim::hash_bytes(alone.data(), alone.size(), st.switches));
    c.probe(op_names[x.op]);
  }
  e.dyn.clear();
  e.f.reset();
  if (e.up.live_bytes || e.up.bad) c.fail("memory-left", "the factory's resource: %s", e.up.bad ? e.up.bad : "memory is left");
  if (st.switches) c.nontrivial();
}
} // namespace
SIM_SCENARIO("D03", "shared", 1, [](Ctx &c) { (void)compiled_sets(); sim::isolated(c, shared); })
