// D04: histories of edits through the runtime field API, against a plain record.
#include "dyn.hpp"
#include "build.hpp"
#include <deque>
#include <list>
using namespace hv;
using namespace hpp_proto;
namespace {
const Codec &pick_dyn(Ctx &c) { return pick_codec_if(c, [](const Codec &k) { return !strcmp(k.trait, "dynamic"); }); }
struct map_wrong;
using Path = std::vector<std::pair<std::uint32_t, std::size_t>>;
struct Root {
  DynObj o;
  Msg m; // the record: map fields are lists of entries
  explicit Root(const MsgS *s) : o(s) { m.t = s; m.keeps = false; }
};
struct Lent { // memory the messages may refer to but must never write to
  std::list<std::string> now, then;
  std::string &emplace_back(const std::string &s) { then.push_back(s); return now.emplace_back(s); }
};
struct Given { DynObj o; Msg t; bool shared = false; explicit Given(const MsgS *s) : o(s) { t.t = nullptr; } };
struct World {
  Ctx &c;
  const Codec &k;
  std::vector<std::unique_ptr<Root>> roots;
  std::list<Given> donors;                     // other messages, kept alive but no longer edited (shared: what was taken from them can be edited)
  Lent texts;
  std::map<const MsgS *, const FieldS *> last; // the field edited last in messages of a type
  std::list<std::vector<std::byte>> blobs;
  std::deque<std::function<void()>> free_later; // arrays lent to the messages
  World(Ctx &cc, const Codec &kk) : c(cc), k(kk) {}
  ~World() { for (auto &f : free_later) f(); }
  template <class T> std::span<T> lend(const std::vector<T> &v) {
    auto *p = new T[v.size() ? v.size() : 1];
    std::copy(v.begin(), v.end(), p);
    free_later.push_back([p] { delete[] p; });
    return {p, v.size()};
  }
};
struct Cur { // the message being edited
  World &w;
  message_value_mref m;
  Msg &t;
  Root &r;
  Path path;
  bool entry() const { return t.t->map_entry; }
};
Msg raw(World &w, const message_value_cref &m, const MsgS *s, const char *when) {
  Msg o;
  auto e = dyn_read(m, s, o, false, true);
  if (!e.empty()) w.c.fail("api-contradiction", "%s after %s: %s", s->name, when, e.c_str());
  return o;
}
void drop_oneof(Msg &t, const FieldS &f) {
  if (f.oneof < 0) return;
  for (auto &g : t.t->fields) if (g.oneof == f.oneof && g.num != f.num) t.f.erase(g.num);
}
void put(Cur &u, const FieldS &f, Val v) {
  drop_oneof(u.t, f);
  if (f.card == IMP && !u.entry() && is_default(f, v)) { u.t.f.erase(f.num); return; }
  auto &fl = u.t.f[f.num];
  fl.f = &f; fl.v.clear(); fl.kv.clear(); fl.v.push_back(std::move(v));
}
Fld &list(Cur &u, const FieldS &f) { auto &fl = u.t.f[f.num]; fl.f = &f; return fl; }
void tidy(Cur &u, const FieldS &f) { auto it = u.t.f.find(f.num); if (it != u.t.f.end() && it->second.v.empty()) u.t.f.erase(it); }
std::size_t count(const Cur &u, const FieldS &f) { auto it = u.t.f.find(f.num); return it == u.t.f.end() ? 0 : it->second.v.size(); }
void gone(Cur &u, const FieldS &f) { u.t.f.erase(f.num); }
Val copy(const Val &v) { Val r = v; if (v.m) r.m = clone(*v.m); return r; }
template <class T> T scalar(std::uint64_t u) {
  T t;
  if constexpr (std::same_as<T, float>) { auto x = static_cast<std::uint32_t>(u); std::memcpy(&t, &x, 4); }
  else if constexpr (std::same_as<T, double>) std::memcpy(&t, &u, 8);
  else if constexpr (std::same_as<T, bool>) t = u != 0;
  else t = static_cast<T>(u);
  return t;
}
Val some(Cur &u, const FieldS &f) {
  GenOpt g; int b = 6; g.max_len = u.w.c.chance(1, 10) ? 300 : 20;
  return gen_val(u.w.c, f, g, b, 8);
}
bytes_view bytes_of(const std::string &s) { return {reinterpret_cast<const std::byte *>(s.data()), s.size()}; }
std::vector<std::byte> blob_of(const std::string &s) { auto *p = reinterpret_cast<const std::byte *>(s.data()); return {p, p + s.size()}; }
// a message of the given type that someone else filled in
struct Donor { message_value_mref m; Msg t; Given *g; };
Donor donor(Cur &u, const MsgS *s, int budget = 8) {
  auto &w = u.w;
  if (s->map_entry) { // entries exist only inside a map
    std::string pn(s->name);
    auto *ps = dyn_schema(pn.substr(0, pn.rfind('.')));
    Msg pm; pm.t = ps;
    for (auto &f : ps->fields) if (f.card == MAP && f.m == s) {
      GenOpt g; g.max_len = 20;
      Val k = gen_val(w.c, s->fields[0], g, budget, 8), v = gen_val(w.c, s->fields[1], g, budget, 8);
      auto &fl = pm.f[f.num]; fl.f = &f;
      fl.kv[key_of(s->fields[0].kind, k)] = {k, v};
      auto &gv = w.donors.emplace_back(ps); auto &d = gv.o;
      auto in = bytes_of(w.texts.emplace_back(encode_canonical(pm)));
      if (!read_binpb(d.m, std::span<const std::byte>(in.data(), in.size())).ok()) w.c.fail("cannot-build", "%s: a canonical encoding was rejected", ps->name);
      auto e = (*d.m.field_by_number(f.num)->to<repeated_message_field_mref>())[0];
      return {e, raw(w, e.cref(), s, "decoding"), &gv};
    }
    w.c.fail("cannot-build", "no map for %s", s->name);
  }
  auto tr = gen_value(w.c, s, budget);
  auto by = encode_canonical(*tr);
  auto &g = w.donors.emplace_back(s); auto &d = g.o;
  std::span<const std::byte> in{reinterpret_cast<const std::byte *>(w.texts.emplace_back(by).data()), by.size()};
  if (!read_binpb(d.m, in).ok()) w.c.fail("cannot-build", "%s: a canonical encoding was rejected", s->name);
  Msg got = raw(w, d.m.cref(), s, "decoding");
  g.t = *clone(got);
  return {d.m, std::move(got), &g};
}
const MsgS *other_type(Cur &u, const MsgS *s) { // another type of the same schema
  auto &v = u.w.k.s->name; (void)v;
  std::vector<const MsgS *> r;
  for (auto *k : all_codecs()) if (!strcmp(k->trait, "dynamic") && k->s != s && !strncmp(k->s->name, s->name, 2)) r.push_back(k->s);
  return r[u.w.c.pick(static_cast<std::uint32_t>(r.size()))];
}
[[noreturn]] void bad(Cur &u, const FieldS &f, const char *cls, const char *what) { u.w.c.fail(cls, "%s.%s: %s", u.t.t->name, f.name, what); }
template <class E> void must(Cur &u, const FieldS &f, const E &e, const char *what) { if (!e.has_value()) { std::string s = std::string(what) + " was refused with " + std::to_string(static_cast<int>(e.error())); bad(u, f, "refused", s.c_str()); } }
template <class E> void must_not(Cur &u, const FieldS &f, const E &e, dynamic_message_errc want, const char *what) {
  u.w.c.fault("misuse");
  if (e.has_value()) bad(u, f, "accepted", what);
  if (e.error() != want) { std::string s = std::string(what) + " reported error " + std::to_string(static_cast<int>(e.error())); bad(u, f, "wrong-error", s.c_str()); }
}
// sets through one of the untyped ways
template <class T> void set_untyped(Cur &u, const FieldS &f, field_mref fr, const T &v) {
  switch (u.w.c.pick(6)) {
  case 0: must(u, f, fr.set(v), "set()"); break;
  case 1: must(u, f, u.m.set_field_by_name(f.name, v), "set_field_by_name()"); break;
  case 2: must(u, f, u.m.set_field_by_number(f.num, v), "set_field_by_number()"); break;
  case 3: must(u, f, expected_message_mref{u.m}.set_field_by_name(f.name, v).done(), "fluent set_field_by_name()"); break;
  case 4: must(u, f, expected_message_mref{u.m}.set_field_by_number(f.num, v).done(), "fluent set_field_by_number()"); break;
  default: must(u, f, u.m.field_by_number(f.num)->set(v), "set() of a looked-up field");
  }
}
// whatever clears a field, whichever way it is asked to
template <class R> void clear_any(Cur &u, const FieldS &f, field_mref fr, R r) {
  switch (u.w.c.pick(5)) {
  case 0: r.reset(); break;
  case 1: fr.reset(); break;
  case 2: u.m.clear_field(fr.descriptor()); break;
  case 3: fr.set_null(); break;
  default: (void)u.m.modify_field_by_number(f.num, [](R x) -> std::expected<void, dynamic_message_errc> { x.reset(); return {}; }); break;
  }
  gone(u, f);
}
template <class R> void wrong_type(Cur &u, const FieldS &f, field_mref fr, R) {
  constexpr auto E = dynamic_message_errc::invalid_field_type;
  auto &c = u.w.c;
  switch (c.pick(5)) {
  case 0: if (f.kind == STR || f.card >= REP) must_not(u, f, fr.set(std::int32_t{5}), E, "set(int32_t)"); else must_not(u, f, fr.set(std::string_view("x")), E, "set(string_view)"); break;
  case 1: if (f.kind == STR || f.card >= REP) must_not(u, f, u.m.set_field_by_name(f.name, true), f.kind == BOOL && f.card < REP ? dynamic_message_errc{} : E, "set_field_by_name(bool)"); else must_not(u, f, u.m.set_field_by_number(f.num, "text"), E, "set_field_by_number(text)"); break;
  case 2: if (f.is_len() && f.card < REP) must_not(u, f, fr.adopt(3.5), E, "adopt(double)"); else must_not(u, f, fr.adopt(std::string_view("x")), E, "adopt(string_view)"); break;
  case 3: { bool ran = false; auto e = fr.modify([&](map_wrong *) { ran = true; return std::expected<void, dynamic_message_errc>{}; }); if (ran) bad(u, f, "accepted", "modify() ran a mutator of another type"); must_not(u, f, e, E, "modify() with a mutator of another type"); break; }
  default: {
    must_not(u, f, u.m.set_field_by_name("no such field", std::int32_t{1}), dynamic_message_errc::no_such_field, "set_field_by_name(unknown name)");
    must_not(u, f, u.m.set_field_by_number(19001, std::int32_t{1}), dynamic_message_errc::no_such_field, "set_field_by_number(unknown number)");
    must_not(u, f, expected_message_mref{u.m}.set_field_by_number(19001, std::int32_t{1}).set_field_by_name(f.name, std::int32_t{1}).done(), dynamic_message_errc::no_such_field, "a fluent chain behind an unknown number");
  }
  }
}
template <class R> void edit_scalar(Cur &u, const FieldS &f, field_mref fr, R r) {
  using V = typename R::value_type;
  auto &c = u.w.c;
  auto one = [&] { return some(u, f); };
  Val v;
  Val d; d.u = f.dflt; d.s = f.dflts;
  switch (c.pick(10)) {
  case 0: case 1: v = one(); r.set(scalar<V>(v.u)); put(u, f, v); break;
  case 2: case 3: v = one(); set_untyped(u, f, fr, scalar<V>(v.u)); put(u, f, v); break;
  case 4: clear_any(u, f, fr, r); break;
  case 5: r.set_as_default(); put(u, f, d); break;
  case 6: v = one(); r.emplace() = scalar<V>(v.u); put(u, f, v); break;
  case 7: v = one(); must(u, f, u.m.modify_field_by_name(f.name, [&](R x) -> std::expected<void, dynamic_message_errc> { x.set(scalar<V>(v.u)); return {}; }), "modify_field_by_name()"); put(u, f, v); break;
  case 8: { auto dn = donor(u, u.t.t); auto df = *dn.m.field_by_number(f.num); auto it = dn.t.f.find(f.num);
    bool has = df.has_value();
    if (c.pick(2)) r.clone_from(typename R::cref_type(*df.template to<R>())); else r.alias_from(typename R::cref_type(*df.template to<R>()));
    if (it != dn.t.f.end()) put(u, f, it->second.v[0]); else { (void)has; gone(u, f); }
    break; }
  default: wrong_type(u, f, fr, r);
  }
}
template <class R> void edit_text(Cur &u, const FieldS &f, field_mref fr, R r) {
  constexpr bool str = std::same_as<R, string_field_mref>;
  auto &c = u.w.c;
  auto val = [](const std::string &s) { if constexpr (str) return std::string_view(s); else return bytes_of(s); };
  Val v;
  Val d; d.u = f.dflt; d.s = f.dflts;
  switch (c.pick(10)) {
  case 0: case 1: v = some(u, f); r.set(val(v.s)); put(u, f, v); break;
  case 2: v = some(u, f); set_untyped(u, f, fr, val(v.s)); put(u, f, v); break;
  case 3: v = some(u, f); if constexpr (str) set_untyped(u, f, fr, std::string(v.s)); else set_untyped(u, f, fr, blob_of(v.s)); put(u, f, v); break;
  case 4: v = some(u, f); { auto &t = u.w.texts.emplace_back(v.s); r.adopt(val(t)); if (r.value().data() != val(t).data()) bad(u, f, "adopt-copies", "adopt() does not refer to the given memory"); } put(u, f, v); break;
  case 5: v = some(u, f); must(u, f, fr.adopt(val(u.w.texts.emplace_back(v.s))), "adopt()"); put(u, f, v); break;
  case 6: clear_any(u, f, fr, r); break;
  case 7: r.set_as_default(); put(u, f, d); break;
  case 8: { auto dn = donor(u, u.t.t); auto df = *dn.m.field_by_number(f.num); auto it = dn.t.f.find(f.num);
    switch (c.pick(3)) {
    case 0: r.clone_from(df.template to<R>()->cref()); break;
    case 1: r.alias_from(df.template to<R>()->cref()); break;
    default: fr.clone_from(df.cref());
    }
    if (it != dn.t.f.end()) put(u, f, it->second.v[0]); else gone(u, f);
    break; }
  default: wrong_type(u, f, fr, r);
  }
}
void edit_enum(Cur &u, const FieldS &f, field_mref fr, enum_field_mref r) {
  auto &c = u.w.c;
  Val v, d; d.u = f.dflt;
  auto num = [&] { return static_cast<std::int32_t>(v.u); };
  switch (c.pick(10)) {
  case 0: v = some(u, f); r.set(enum_number{num()}); put(u, f, v); break;
  case 1: v = some(u, f); set_untyped(u, f, fr, enum_number{num()}); put(u, f, v); break;
  case 2: case 3: {
    auto &vs = f.e->values; v.u = static_cast<std::uint64_t>(static_cast<std::int64_t>(vs[c.pick(static_cast<std::uint32_t>(vs.size()))]));
    auto n = r.enum_descriptor().name_of(num());
    if (c.pick(2)) must(u, f, r.set(enum_name{n}), "set(enum_name)"); else set_untyped(u, f, fr, enum_name{n});
    put(u, f, v); break; }
  case 4: {
    static const char *ns[] = {"", "NO_SUCH_NAME", "red", "1"};
    enum_name n{ns[c.pick(4)]};
    if (c.pick(2)) must_not(u, f, r.set(n), dynamic_message_errc::invalid_enum_name, "set(unknown name)"); else must_not(u, f, fr.set(n), dynamic_message_errc::invalid_enum_name, "set(unknown name)");
    break; }
  case 5: clear_any(u, f, fr, r); break;
  case 6: r.set_as_default(); put(u, f, d); break;
  case 7: v = some(u, f); r.emplace().set(num()); put(u, f, v); break;
  case 8: { auto dn = donor(u, u.t.t); auto df = *dn.m.field_by_number(f.num); auto it = dn.t.f.find(f.num);
    if (c.pick(2)) r.clone_from(df.to<enum_field_mref>()->cref()); else r.alias_from(df.to<enum_field_mref>()->cref());
    if (it != dn.t.f.end()) put(u, f, it->second.v[0]); else gone(u, f);
    break; }
  default: wrong_type(u, f, fr, r);
  }
}
Val boxed(const Msg &m) { Val v; v.m = clone(m); return v; }
void edit_message(Cur &u, const FieldS &f, field_mref fr, message_field_mref r) {
  auto &c = u.w.c;
  Msg empty; empty.t = f.m; empty.keeps = false;
  switch (c.pick(9)) {
  case 0: r.emplace(); put(u, f, boxed(empty)); break;
  case 1: r.set_as_default(); put(u, f, boxed(empty)); break;
  case 2: case 3: { auto d = donor(u, f.m); if (c.pick(2)) must(u, f, r.set(d.m.cref()), "set()"); else set_untyped(u, f, fr, d.m.cref()); put(u, f, boxed(d.t)); break; }
  case 4: { auto d = donor(u, other_type(u, f.m), 2); if (c.pick(2)) must_not(u, f, r.set(d.m.cref()), dynamic_message_errc::wrong_message_type, "set(message of another type)"); else must_not(u, f, fr.set(d.m.cref()), dynamic_message_errc::wrong_message_type, "set(message of another type)"); break; }
  case 5: clear_any(u, f, fr, r); break;
  case 6: { auto d = donor(u, u.t.t); auto df = *d.m.field_by_number(f.num); auto it = d.t.f.find(f.num);
    auto how = c.pick(3); d.g->shared |= how > 0;
    switch (how) {
    case 0: r.clone_from(df.to<message_field_mref>()->cref()); break;
    case 1: r.alias_from(*df.to<message_field_mref>()); break;
    default: fr.alias_from(df);
    }
    if (it != d.t.f.end()) put(u, f, copy(it->second.v[0])); else gone(u, f);
    break; }
  case 7: if (r.has_value()) { // within, without going through the walk
    auto x = r.value(); x.reset(); u.t.f[f.num].v[0] = boxed(empty);
  } else { bool threw = false; try { (void)r.value(); } catch (const std::bad_optional_access &) { threw = true; } if (!threw) bad(u, f, "accepted", "value() of an absent message"); }
    break;
  default: wrong_type(u, f, fr, r);
  }
}
// operations all repeated fields share; false: not handled
template <class R> bool edit_list(Cur &u, const FieldS &f, field_mref fr, R r) {
  auto &c = u.w.c;
  auto &fl = list(u, f);
  switch (c.pick(8)) {
  case 0: { auto n = count(u, f) + c.pick(12); r.reserve(n); if (r.capacity() < n) bad(u, f, "capacity", "reserve() did not reserve"); break; }
  case 1: { auto n = c.pick(static_cast<std::uint32_t>(fl.v.size() + 1)); r.resize(n); fl.v.resize(n); break; }
  case 2: if (c.pick(3) == 0) { r.clear(); fl.v.clear(); break; } return false;
  case 3: if (c.pick(3) == 0) { clear_any(u, f, fr, r); break; } return false;
  case 4: { auto d = donor(u, u.t.t, 14); auto df = *d.m.field_by_number(f.num); auto it = d.t.f.find(f.num);
    auto how = c.pick(4); d.g->shared |= how == 1 || how == 3;
    switch (how) {
    case 0: r.clone_from(df.template to<R>()->cref()); break;
    case 1: r.alias_from(*df.template to<R>()); break;
    case 2: fr.clone_from(df.cref()); break;
    default: fr.alias_from(df);
    }
    fl.v.clear();
    if (it != d.t.f.end()) for (auto &v : it->second.v) fl.v.push_back(copy(v));
    break; }
  case 5: if (c.pick(2)) { wrong_type(u, f, fr, r); break; } return false;
  case 6: { bool threw = false; try { (void)r.at(r.size() + c.pick(3)); } catch (const std::out_of_range &) { threw = true; } c.fault("misuse"); if (!threw) bad(u, f, "accepted", "at() beyond the end"); break; }
  default: return false;
  }
  tidy(u, f);
  return true;
}
std::vector<Val> some_values(Cur &u, const FieldS &f) {
  std::vector<Val> v;
  for (unsigned i = 0, n = u.w.c.pick(6); i < n; ++i) v.push_back(some(u, f));
  return v;
}
template <class R> void edit_scalars(Cur &u, const FieldS &f, field_mref fr, R r) {
  using V = typename R::value_type;
  auto &c = u.w.c;
  if (edit_list(u, f, fr, r)) return;
  auto &fl = list(u, f);
  auto conv = [&](const std::vector<Val> &v) { std::vector<V> o; for (auto &x : v) o.push_back(scalar<V>(x.u)); return o; };
  switch (c.pick(7)) {
  case 0: case 1: { auto v = some(u, f); r.push_back(scalar<V>(v.u)); fl.v.push_back(v); break; }
  case 2: { auto v = some_values(u, f); if constexpr (std::same_as<V, bool>) { auto s = u.w.lend(conv(v)); r.set(s); } else r.set(conv(v)); fl.v = v; break; }
  case 3: { auto v = some_values(u, f); auto s = u.w.lend(conv(v)); if (c.pick(2)) set_untyped(u, f, fr, std::span<const V>(s)); else set_untyped(u, f, fr, s); fl.v = v; break; }
  case 4: { auto v = some_values(u, f); auto s = u.w.lend(conv(v)); if (c.pick(2)) r.adopt(s); else must(u, f, fr.adopt(s), "adopt()"); fl.v = v; break; }
  case 5: if (!fl.v.empty()) { auto i = c.pick(static_cast<std::uint32_t>(fl.v.size())); auto v = some(u, f); if (c.pick(2)) r[i] = scalar<V>(v.u); else r.at(i) = scalar<V>(v.u); fl.v[i] = v; } break;
  default: { auto old = fl.v.size(), n = old + 1 + c.pick(5); r.resize(n); for (auto i = old; i < n; ++i) { auto v = some(u, f); r[i] = scalar<V>(v.u); fl.v.push_back(v); } }
  }
  tidy(u, f);
}
template <class R> void edit_texts(Cur &u, const FieldS &f, field_mref fr, R r) {
  constexpr bool str = std::same_as<R, repeated_string_field_mref>;
  using V = typename R::value_type;
  auto &c = u.w.c;
  if (edit_list(u, f, fr, r)) return;
  auto &fl = list(u, f);
  auto val = [](const std::string &s) { if constexpr (str) return std::string_view(s); else return bytes_of(s); };
  auto views = [&](const std::vector<Val> &v) { std::vector<V> o; for (auto &x : v) o.push_back(val(u.w.texts.emplace_back(x.s))); return o; };
  switch (c.pick(8)) {
  case 0: case 1: { auto v = some(u, f); r.push_back(val(v.s)); fl.v.push_back(v); break; }
  case 2: { auto v = some_values(u, f); r.set(views(v)); fl.v = v; break; }
  case 3: { auto v = some_values(u, f); if constexpr (str) { std::vector<std::string> o; for (auto &x : v) o.push_back(x.s); if (c.pick(2)) r.set(o); else set_untyped(u, f, fr, o); } else { std::vector<std::vector<std::byte>> o; for (auto &x : v) o.push_back(blob_of(x.s)); if (c.pick(2)) r.set(o); else set_untyped(u, f, fr, o); } fl.v = v; break; }
  case 4: { auto v = some_values(u, f); auto s = u.w.lend(views(v)); if (c.pick(2)) r.adopt(s); else must(u, f, fr.adopt(s), "adopt()"); fl.v = v; break; }
  case 5: if (!fl.v.empty()) { auto i = c.pick(static_cast<std::uint32_t>(fl.v.size())); auto v = some(u, f);
    switch (c.pick(4)) { case 0: r[i].set(val(v.s)); break; case 1: r.at(i).set(val(v.s)); break; case 2: r[i].clone_from(val(v.s)); break; default: r[i].adopt(val(u.w.texts.emplace_back(v.s))); }
    fl.v[i] = v; } break;
  case 6: { auto old = fl.v.size(), n = old + 1 + c.pick(5); r.resize(n); for (auto i = old; i < n; ++i) fl.v.emplace_back(); break; }
  default: { auto v = some_values(u, f); set_untyped(u, f, fr, u.w.lend(views(v))); fl.v = v; }
  }
  tidy(u, f);
}
void edit_enums(Cur &u, const FieldS &f, field_mref fr, repeated_enum_field_mref r) {
  auto &c = u.w.c;
  if (edit_list(u, f, fr, r)) return;
  auto &fl = list(u, f);
  auto nums = [&](const std::vector<Val> &v) { std::vector<std::int32_t> o; for (auto &x : v) o.push_back(static_cast<std::int32_t>(x.u)); return o; };
  auto listed = [&] { Val v; auto &vs = f.e->values; v.u = static_cast<std::uint64_t>(static_cast<std::int64_t>(vs[c.pick(static_cast<std::uint32_t>(vs.size()))])); return v; };
  auto name = [&](const Val &v) { return r.enum_descriptor().name_of(static_cast<std::int32_t>(v.u)); };
  switch (c.pick(9)) {
  case 0: { auto v = some(u, f); r.push_back(enum_number{static_cast<std::int32_t>(v.u)}); fl.v.push_back(v); break; }
  case 1: { auto v = listed(); must(u, f, r.push_back(enum_name{name(v)}), "push_back(name)"); fl.v.push_back(v); break; }
  case 2: must_not(u, f, r.push_back(enum_name{"NOPE"}), dynamic_message_errc::invalid_enum_name, "push_back(unknown name)"); break;
  case 3: { auto v = some_values(u, f); auto n = nums(v); if (c.pick(2)) r.set(n); else r.set(enum_numbers_range{n}); fl.v = v; break; }
  case 4: { std::vector<Val> v; std::vector<std::string_view> n; for (unsigned i = 0, e = c.pick(5); i < e; ++i) { v.push_back(listed()); n.push_back(name(v.back())); }
    if (!n.empty() && c.chance(1, 3)) { n[c.pick(static_cast<std::uint32_t>(n.size()))] = "NOPE"; 
      if (c.pick(2)) must_not(u, f, r.set(enum_names_range{n}), dynamic_message_errc::invalid_enum_name, "set(names with an unknown one)"); else must_not(u, f, fr.set(enum_names_range{n}), dynamic_message_errc::invalid_enum_name, "set(names with an unknown one)");
    } else { if (c.pick(2)) must(u, f, r.set(enum_names_range{n}), "set(names)"); else set_untyped(u, f, fr, enum_names_range{n}); fl.v = v; }
    break; }
  case 5: { auto v = some_values(u, f); auto n = nums(v); set_untyped(u, f, fr, enum_numbers_range{n}); fl.v = v; break; }
  case 6: { auto v = some_values(u, f); auto s = u.w.lend(nums(v)); if (c.pick(2)) r.adopt(s); else must(u, f, fr.adopt(s), "adopt()"); fl.v = v; break; }
  case 7: if (!fl.v.empty()) { auto i = c.pick(static_cast<std::uint32_t>(fl.v.size())); auto v = some(u, f); if (c.pick(2)) r[i].set(static_cast<std::int32_t>(v.u)); else r.at(i).set(static_cast<std::int32_t>(v.u)); fl.v[i] = v; } break;
  default: { auto old = fl.v.size(), n = old + 1 + c.pick(4); r.resize(n); for (auto i = old; i < n; ++i) { auto v = some(u, f); r.data()[i] = static_cast<std::int32_t>(v.u); fl.v.push_back(v); } }
  }
  tidy(u, f);
}
void edit_messages(Cur &u, const FieldS &f, field_mref fr, repeated_message_field_mref r) {
  auto &c = u.w.c;
  if (edit_list(u, f, fr, r)) return;
  auto &fl = list(u, f);
  Msg empty; empty.t = f.m; empty.keeps = false;
  const MsgS *mt = f.m;
  auto donors = [&](bool spoil) {
    std::vector<message_value_cref> v; std::vector<Val> t;
    unsigned n = c.pick(4), s = spoil ? c.pick(n + 1) : 99;
    for (unsigned i = 0; i < n + (spoil ? 1 : 0); ++i) {
      if (i == s) { v.push_back(donor(u, other_type(u, mt), 2).m.cref()); continue; }
      auto d = donor(u, mt, 5); v.push_back(d.m.cref()); t.push_back(boxed(d.t));
    }
    return std::pair(v, t);
  };
  switch (c.pick(6)) {
  case 0: case 1: { auto d = r.emplace_back(); if (d.descriptor().full_name() != mt->name) bad(u, f, "wrong-type", "emplace_back() gave another type"); fl.v.push_back(boxed(empty)); break; }
  case 2: { auto n = fl.v.size() + c.pick(4); r.resize(n); while (fl.v.size() < n) fl.v.push_back(boxed(empty)); break; }
  case 3: { auto [v, t] = donors(false); if (c.pick(2)) must(u, f, r.set(v), "set()"); else set_untyped(u, f, fr, v); fl.v = t; break; }
  case 4: { auto [v, t] = donors(true); if (c.pick(2)) must_not(u, f, r.set(v), dynamic_message_errc::wrong_message_type, "set(a message of another type)"); else must_not(u, f, fr.set(v), dynamic_message_errc::wrong_message_type, "set(a message of another type)"); break; }
  default: if (!fl.v.empty()) { auto i = c.pick(static_cast<std::uint32_t>(fl.v.size())); auto d = donor(u, mt, 5); r.at(i).clone_from(d.m.cref()); fl.v[i] = boxed(d.t); }
  }
  tidy(u, f);
}
void edit_field(Cur &u, const FieldS &f) {
  auto fr = *u.m.field_by_number(f.num);
  fr.visit([&](auto r) {
    using R = decltype(r);
    if constexpr (std::same_as<R, enum_field_mref>) edit_enum(u, f, fr, r);
    else if constexpr (std::same_as<R, message_field_mref>) edit_message(u, f, fr, r);
    else if constexpr (std::same_as<R, string_field_mref> || std::same_as<R, bytes_field_mref>) edit_text(u, f, fr, r);
    else if constexpr (std::same_as<R, repeated_enum_field_mref>) edit_enums(u, f, fr, r);
    else if constexpr (std::same_as<R, repeated_message_field_mref>) edit_messages(u, f, fr, r);
    else if constexpr (std::same_as<R, repeated_string_field_mref> || std::same_as<R, repeated_bytes_field_mref>) edit_texts(u, f, fr, r);
    else if constexpr (R::is_repeated) edit_scalars(u, f, fr, r);
    else edit_scalar(u, f, fr, r);
  });
}
// the message where the next edit happens: the root or something inside it
template <class F> void at_cursor(World &w, Root &r, F fn) {
  message_value_mref m = r.o.m;
  Msg *t = &r.m;
  Path path;
  for (int d = 0; d < 4 && w.c.chance(1, 2); ++d) {
    std::vector<std::pair<const FieldS *, std::size_t>> in;
    for (auto &[n, fl] : t->f) if (fl.f->is_msg() || fl.f->card == MAP) for (std::size_t i = 0; i < fl.v.size(); ++i) in.emplace_back(fl.f, i);
    if (in.empty()) break;
    auto [f, i] = in[w.c.pick(static_cast<std::uint32_t>(in.size()))];
    auto fr = *m.field_by_number(f->num);
    m = f->card >= REP ? (*fr.to<repeated_message_field_mref>())[i] : *(*fr.to<message_field_mref>());
    t = t->f[f->num].v[i].m.get();
    path.emplace_back(f->num, i);
  }
  Cur u{w, m, *t, r, path};
  fn(u);
}
Msg *walk(Msg &m, const Path &p) {
  Msg *t = &m;
  for (auto [n, i] : p) { auto it = t->f.find(n); if (it == t->f.end() || it->second.v.size() <= i) return nullptr; t = it->second.v[i].m.get(); }
  return t;
}
// what the wire must say: maps by key, the last entry of a key counts
std::shared_ptr<Msg> meaning(const Msg &m) {
  auto o = clone(m);
  std::function<void(Msg &)> go = [&](Msg &t) {
    for (auto &[n, fl] : t.f) {
      if (fl.f->card == MAP) {
        for (auto &e : fl.v) {
          auto get = [&](int j) { auto &kf = fl.f->m->fields[static_cast<std::size_t>(j)]; auto it = e.m->f.find(kf.num); if (it != e.m->f.end()) return it->second.v[0]; Val v; if (kf.is_msg()) { v.m = std::make_shared<Msg>(); v.m->t = kf.m; v.m->keeps = false; } else v.u = kf.kind == ENUM ? kf.dflt : 0; return v; };
          Val k = get(0), v = get(1);
          if (v.m) go(*v.m);
          fl.kv[key_of(fl.f->m->fields[0].kind, k)] = {k, v};
        }
        fl.v.clear();
      } else for (auto &v : fl.v) if (v.m) go(*v.m);
    }
  };
  go(*o);
  fill_required(*o);
  return o;
}
void check(World &w, const char *when) {
  int i = 0;
  for (auto &r : w.roots) {
    Msg got = raw(w, r->o.m.cref(), r->m.t, when);
    auto df = diff(r->m, got);
    if (!df.empty()) w.c.fail("wrong-content", "%s: message %d after %s: %s", r->m.t->name, i, when, df.c_str());
    ++i;
  }
}
void untouched(World &w) { // what the edited messages were given still says what it said
  for (auto a = w.texts.now.begin(), b = w.texts.then.begin(); a != w.texts.now.end(); ++a, ++b)
    if (*a != *b) w.c.fail("wrote-elsewhere", "read-only memory lent to a message changed from %s to %s", to_hex(*b).c_str(), to_hex(*a).c_str());
  for (auto &g : w.donors) if (g.t.t && !g.shared) {
    Msg got = raw(w, g.o.m.cref(), g.t.t, "edits of other messages");
    auto df = diff(g.t, got);
    if (!df.empty()) w.c.fail("wrote-elsewhere", "%s: a message that was only copied from changed: %s", g.t.t->name, df.c_str());
  }
}
void send(World &w, Root &r, bool back) {
  std::vector<std::byte> v;
  if (!write_binpb(r.o.m.cref(), v).ok()) w.c.fail("encode-failed", "%s: encoding failed: %s", r.m.t->name, show(r.m).c_str());
  std::string by(reinterpret_cast<const char *>(v.data()), v.size());
  Msg peer; peer.t = r.m.t;
  if (!ref_decode(by, peer, RefOpt{})) w.c.fail("encode-invalid", "%s: the encoding is not valid: %s", r.m.t->name, to_hex(by).c_str());
  auto want = meaning(r.m);
  auto df = diff(*want, peer);
  if (!df.empty()) w.c.fail("wrong-encoding", "%s: a peer understands something else: %s; bytes %s", r.m.t->name, df.c_str(), to_hex(by).c_str());
  w.c.state(hash(*want));
  RefOpt dialect; dialect.known_dialect = dialect.lenient_closed_map = true;
  Msg tmp; tmp.t = r.m.t;
  if (back && ref_decode(by, tmp, dialect)) { // (entries without a key are a known finding of C05) and the message is filled from the wire again
    auto in = bytes_of(w.texts.emplace_back(by));
    if (!read_binpb(r.o.m, std::span<const std::byte>(in.data(), in.size())).ok()) w.c.fail("encode-invalid", "%s: its own encoding is rejected: %s", r.m.t->name, to_hex(by).c_str());
    r.m = raw(w, r.o.m.cref(), r.m.t, "decoding its own encoding");
    auto again = meaning(r.m);
    df = diff(*want, *again);
    if (!df.empty()) w.c.fail("wrong-content", "%s: its own encoding decodes to something else: %s", r.m.t->name, df.c_str());
  }
}
void history(Ctx &c, bool faults) {
  auto &k = pick_dyn(c);
  World w(c, k);
  for (int i = 0; i < 2; ++i) w.roots.push_back(std::make_unique<Root>(k.s));
  for (unsigned i = 0, n = 6 + c.pick(40); i < n; ++i) {
    auto &r = *w.roots[c.pick(2)];
    auto &other = *w.roots[&r == w.roots[0].get()];
    c.step();
    switch (c.weighted(14, 1, 1, 1, 1)) {
    case 0: at_cursor(w, r, [&](Cur &u) {
      if (u.t.t->fields.empty()) return;
      auto &la = w.last[u.t.t];
      if (!la || c.pick(3)) la = &u.t.t->fields[c.pick(static_cast<std::uint32_t>(u.t.t->fields.size()))]; // the same field again, now and then
      auto &f = *la;
      c.ev("edit %s.%s (depth %zu)", u.t.t->name, f.name, u.path.size());
      if (f.oneof >= 0 && c.chance(1, 8)) { // the whole oneof
        auto d = u.m.field_by_number(f.num)->descriptor().proto().oneof_index;
        u.m.clear_field(u.m.descriptor().oneofs()[static_cast<std::size_t>(*d)]);
        drop_oneof(u.t, f); gone(u, f);
        return;
      }
      if (!faults || !c.chance(1, 3)) { edit_field(u, f); return; }
      auto &a = r.o.mr.t;
      a.fired = false; a.fail_in = c.pick(4);
      Msg before = *clone(r.m);
      try { edit_field(u, f); a.fail_in = -1; }
      catch (const std::bad_alloc &) {
        a.fail_in = -1; c.fault("allocation-failure");
        if (!a.fired) c.fail("bad-alloc", "%s.%s: bad_alloc although no allocation failed", u.t.t->name, f.name);
        Msg now = raw(w, r.o.m.cref(), r.m.t, "an edit that ran out of memory");
        Msg *x = walk(before, u.path), *y = walk(now, u.path);
        if (!x || !y) c.fail("fault-damage", "%s.%s: an edit that ran out of memory removed the message around it", k.name, f.name);
        r.m = *clone(now);
        for (auto *m : {x, y}) { drop_oneof(*m, f); m->f.erase(f.num); }
        auto df = diff(before, now);
        if (!df.empty()) c.fail("fault-damage", "%s.%s: an edit that ran out of memory changed something else: %s", k.name, f.name, df.c_str());
      }
    }); break;
    case 1: at_cursor(w, r, [&](Cur &u) { c.ev("reset %s", u.t.t->name); u.m.reset(); u.t.f.clear(); }); break;
    case 2: at_cursor(w, r, [&](Cur &u) { // a whole message at once
      auto d = donor(u, u.t.t, 20);
      bool al = c.pick(2);
      d.g->shared |= al;
      c.ev("%s %s", al ? "alias" : "clone", u.t.t->name);
      if (al) u.m.alias_from(d.m); else u.m.clone_from(d.m.cref());
      u.t = *clone(d.t);
    }); break;
    case 3: c.ev("clone the other message"); r.o.m.clone_from(other.o.m.cref()); r.m = *clone(other.m); break;
    default: c.ev("encode"); send(w, r, c.pick(2)); check(w, "encoding"); continue;
    }
    check(w, "the edit");
    if (c.chance(1, 6)) {
      auto e = dyn_read_mref(r.o.m, r.m.t);
      if (!e.empty()) c.fail("api-contradiction", "%s read through mutable references: %s", k.name, e.c_str());
      check(w, "reading through mutable references");
    }
  }
  for (auto &r : w.roots) send(w, *r, false);
  untouched(w);
  c.nontrivial();
}
void edits(Ctx &c) { history(c, false); }
void edits_faults(Ctx &c) { history(c, true); }
} // namespace
SIM_SCENARIO("D04", "edits", 4, edits)
SIM_SCENARIO("D04", "edits-out-of-memory", 3, edits_faults)
