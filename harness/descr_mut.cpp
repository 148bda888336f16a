#include "descr_mut.hpp"
#include "plugin.schema.hpp"
#include <algorithm>
namespace hv {
const MsgS *descriptor_type(const char *n) { return schema_plugin().msg(n); }
namespace {
struct Place { Msg *m; Msg *up; std::uint32_t num; std::size_t idx; int depth; };
void collect(Msg &m, Msg *up, std::uint32_t num, std::size_t idx, int depth, std::vector<Place> &out) {
  out.push_back({&m, up, num, idx, depth});
  for (auto &[k, f] : m.f) for (std::size_t i = 0; i < f.v.size(); ++i) if (f.v[i].m) collect(*f.v[i].m, &m, k, i, depth + 1, out);
}
struct Mut {
  sim::Ctx &c;
  std::vector<Place> places;
  std::vector<std::string> strings; // that occur in the tree
  std::string log;
  std::uint32_t n(std::size_t k) { return c.pick(static_cast<std::uint32_t>(k)); }
  std::string some_string() {
    static const char *s[] = {"", ".", "..", "...", ".a", "a.", "a..b", "a/b", "../x", "/", "\"", "\\", "\n", "*/", "x y", "\x00z", "\xff\xfe", "%s", "{}", "{", "int", "class", "google.protobuf.Any", ".google.protobuf.MessageOptions", "key", "value", "-1", "1e999", "nan", "0x", "99999999999999999999", "true", "\\x", "\\400", "\\u12", "proto2", "proto3", "editions", "a.proto", "noext", ".proto"};
    switch (n(6)) {
    case 0: return std::string(s[n(std::size(s))]);
    case 1: return std::string(1 + n(3000), "ab./\\\""[n(6)]);
    case 2: { std::string r = strings.empty() ? "" : strings[n(strings.size())]; if (!r.empty()) r.erase(n(r.size()), 1 + n(3)); return r; }
    case 3: { std::string r = strings.empty() ? "" : strings[n(strings.size())]; r.insert(n(r.size() + 1), s[n(std::size(s))]); return r; }
    default: return strings.empty() ? "x" : strings[n(strings.size())];
    }
  }
  std::uint64_t some_number(const FieldS &f, std::uint64_t old) {
    switch (f.kind) {
    case BOOL: return !old;
    case ENUM: if (f.e && n(4)) return static_cast<std::uint64_t>(static_cast<std::int64_t>(f.e->values[n(f.e->values.size())])); return norm(f.kind, c.pick(2) ? n(40) : 0ull - n(5));
    default:;
    }
    static const std::int64_t v[] = {0, -1, 1, 2, 7, 18, 19, 999, 1000, 19500, 536870911, 536870912, 2147483647, -2147483648ll};
    return norm(f.kind, c.pick(3) ? static_cast<std::uint64_t>(v[n(14)]) : old + n(5) - 2);
  }
  void again(Msg &root) { places.clear(); collect(root, nullptr, 0, 0, 0, places); }
  void edit(Msg &root) {
    again(root);
    // places near the leaves are many; half of the draws are made among those near the root
    Place p;
    if (c.pick(2)) { std::vector<std::size_t> top; for (std::size_t i = 0; i < places.size(); ++i) if (places[i].depth <= 3) top.push_back(i); p = places[top[n(top.size())]]; }
    else p = places[n(places.size())];
    Msg &m = *p.m;
    std::vector<std::uint32_t> have; for (auto &[k, f] : m.f) have.push_back(k);
    auto note = [&](const char *w, const char *field = "") { log += std::string(log.empty() ? "" : "; ") + w + " " + m.t->name + "." + field; };
    switch (n(10)) {
    case 0: { // a field is lost
      if (have.empty()) return;
      auto k = have[n(have.size())]; note("drop", m.f[k].f->name);
      auto &v = m.f[k].v;
      if (v.size() > 1 && c.pick(3)) v.erase(v.begin() + n(v.size())); else m.f.erase(k);
      c.fault("field-lost"); break;
    }
    case 1: { // an element occurs twice
      std::vector<std::uint32_t> rep; for (auto k : have) if (m.f[k].f->card == REP && !m.f[k].v.empty()) rep.push_back(k);
      if (rep.empty()) return;
      auto &f = m.f[rep[n(rep.size())]]; auto i = n(f.v.size());
      Val v = f.v[i]; if (v.m) v.m = clone(*v.m);
      for (unsigned k = c.chance(1, 8) ? 30 : 1; k--;) { Val w = v; if (w.m) w.m = clone(*w.m); f.v.insert(f.v.begin() + n(f.v.size() + 1), w); }
      note("duplicate", f.f->name); c.fault("element-duplicated"); break;
    }
    case 2: case 3: case 4: { // another value for a scalar or a string
      std::vector<std::uint32_t> sc; for (auto k : have) if (!m.f[k].f->is_msg() && m.f[k].f->card != MAP && !m.f[k].v.empty()) sc.push_back(k);
      if (sc.empty()) return;
      auto &f = m.f[sc[n(sc.size())]]; auto &v = f.v[n(f.v.size())];
      note("change", f.f->name);
      if (f.f->is_len()) { v.s = some_string(); if (f.f->kind == STR && f.f->utf8 && !valid_utf8(v.s)) v.s = "x"; } else v.u = some_number(*f.f, v.u);
      c.fault("value-changed"); break;
    }
    case 5: case 6: { // a field that was not there
      auto &fs = m.t->fields; if (fs.empty()) return;
      auto &f = fs[n(fs.size())]; if (f.card == MAP) return;
      auto &d = m.f[f.num]; d.f = &f;
      Val v;
      if (f.is_msg()) {
        std::vector<Msg *> same; for (auto &q : places) if (q.m->t == f.m) same.push_back(q.m);
        if (same.empty() || c.pick(4) == 0) { v.m = std::make_shared<Msg>(); v.m->t = f.m; } else v.m = clone(*same[n(same.size())]);
      } else if (f.is_len()) { v.s = some_string(); if (f.kind == STR && f.utf8 && !valid_utf8(v.s)) v.s = "x"; }
      else v.u = some_number(f, 0);
      if (f.card == REP) d.v.push_back(v); else d.v = {v};
      note("add", f.name); c.fault("field-added"); break;
    }
    case 7: { // a part comes from elsewhere
      std::vector<Place> same; for (auto &q : places) if (q.m->t == m.t && q.m != &m) same.push_back(q);
      if (same.empty()) return;
      auto other = clone(*same[n(same.size())].m); m = *other;
      note("replace"); c.fault("part-replaced"); break;
    }
    case 8: { // elements in another order
      std::vector<std::uint32_t> rep; for (auto k : have) if (m.f[k].v.size() > 1) rep.push_back(k);
      if (rep.empty()) return;
      auto &f = m.f[rep[n(rep.size())]];
      for (std::size_t i = 0; i + 1 < f.v.size(); ++i) std::swap(f.v[i], f.v[i + n(f.v.size() - i)]);
      note("reorder", f.f->name); c.fault("elements-reordered"); break;
    }
    default: { // deeper: a message type moves into one of its own nested types, or into a chain of them
      std::vector<Place> ms; for (auto &q : places) if (!strcmp(q.m->t->name, "google.protobuf.DescriptorProto")) ms.push_back(q);
      if (ms.empty()) return;
      auto *d = ms[n(ms.size())].m; auto *f = d->t->find(3, false); if (!f) return;
      auto copy = clone(*d);
      for (unsigned k = 1 + n(c.chance(1, 6) ? 60 : 4); k--;) { auto up = std::make_shared<Msg>(); up->t = d->t; if (copy->f.contains(1)) up->f[1] = copy->f[1]; auto &x = up->f[3]; x.f = f; Val v; v.m = copy; x.v.push_back(v); copy = up; }
      auto &x = d->f[3]; x.f = f; Val v; v.m = copy; x.v.push_back(v);
      note("nest"); c.fault("types-nested-deeper");
    }
    }
  }
};
void gather(const Msg &m, std::vector<std::string> &out) {
  for (auto &[k, f] : m.f) for (auto &v : f.v) { if (v.m) gather(*v.m, out); else if (f.f->is_len() && out.size() < 2000) out.push_back(v.s); }
}
} // namespace
std::string mutate_descriptors(sim::Ctx &c, const MsgS *type, const std::string &bytes, unsigned edits, std::string *what) {
  Msg root; root.t = type;
  if (!ref_decode(bytes, root, RefOpt{})) return bytes;
  Mut m{c, {}, {}, {}};
  gather(root, m.strings);
  for (unsigned i = 0; i < edits; ++i) m.edit(root);
  if (what) *what = m.log;
  return encode_canonical(root);
}
std::string break_structure(sim::Ctx &c, const std::string &set, std::string *what) {
  Msg root; root.t = descriptor_type("google.protobuf.FileDescriptorSet");
  if (!ref_decode(set, root, RefOpt{})) return {};
  auto n = [&](std::size_t k) { return c.pick(static_cast<std::uint32_t>(k)); };
  auto str = [](Msg *m, std::uint32_t k) { auto i = m->f.find(k); return i == m->f.end() || i->second.v.empty() ? std::string() : i->second.v[0].s; };
  auto has = [](Msg *m, std::uint32_t k) { return m->f.contains(k) && !m->f.at(k).v.empty(); };
  auto count = [](Msg *m, std::uint32_t k) { auto i = m->f.find(k); return i == m->f.end() ? std::size_t{0} : i->second.v.size(); };
  auto field = [](Msg *m, std::uint32_t k) -> Fld & { auto &f = m->f[k]; f.f = m->t->find(k, false); return f; };
  auto put_s = [&](Msg *m, std::uint32_t k, std::string v) { Val x; x.s = std::move(v); field(m, k).v = {x}; };
  auto put_u = [&](Msg *m, std::uint32_t k, std::int64_t v) { Val x; x.u = static_cast<std::uint64_t>(v); field(m, k).v = {x}; };
  std::vector<Msg *> files, msgs, enums, fields, exts, scopes; // scopes: what messages and enums are declared in
  std::vector<std::string> strings; gather(root, strings);
  for (auto &v : root.f[1].v) files.push_back(v.m.get());
  {
    std::vector<Place> ps; collect(root, nullptr, 0, 0, 0, ps);
    for (auto &p : ps) {
      std::string_view t = p.m->t->name;
      if (t == "google.protobuf.DescriptorProto") { msgs.push_back(p.m); scopes.push_back(p.m); }
      else if (t == "google.protobuf.FileDescriptorProto") scopes.push_back(p.m);
      else if (t == "google.protobuf.EnumDescriptorProto") enums.push_back(p.m);
      else if (t == "google.protobuf.FieldDescriptorProto") (std::string_view(p.up->t->name) == "google.protobuf.DescriptorProto" && p.num == 2 ? fields : exts).push_back(p.m);
    }
  }
  auto is_file = [](Msg *m) { return !strcmp(m->t->name, "google.protobuf.FileDescriptorProto"); };
  auto nowhere = [&] { std::string s = ".no.such.Type"; if (n(2) && !strings.empty()) { s = strings[n(strings.size())]; if (s.empty() || s[0] != '.') s = "." + s; s += "_x"; } while (std::find(strings.begin(), strings.end(), s) != strings.end() || std::find(strings.begin(), strings.end(), s.substr(1)) != strings.end()) s += "x"; return s; };
  auto any = [&](auto &v, auto ok) -> Msg * { std::vector<Msg *> r; for (auto *m : v) if (ok(m)) r.push_back(m); return r.empty() ? nullptr : r[n(r.size())]; };
  auto siblings = [&](Msg *scope, std::uint32_t k, auto f) { auto &v = scope->f[k].v; auto i = n(v.size()), j = n(v.size() - 1); if (j >= i) ++j; f(v[i].m.get(), v[j].m.get()); };
  auto type_of = [](Msg *f) { auto i = f->f.find(5); return i == f->f.end() || i->second.v.empty() ? std::uint64_t{0} : i->second.v[0].u; };
  auto twice = [&](Msg *m, std::uint32_t k) { auto &v = field(m, k).v; Val x = v[n(v.size())]; x.m = clone(*x.m); v.insert(v.begin() + n(v.size() + 1), x); };
  Msg *m = nullptr; const char *w = "";
  switch (n(17)) {
  case 0: w = "file-without-name"; m = any(files, [](Msg *) { return true; }); m->f.erase(1); break;
  case 1: w = "file-twice"; m = files[0]; twice(&root, 1); break;
  case 2: {
    w = "import-missing";
    std::vector<std::size_t> v;
    for (std::size_t i = 0; i < files.size(); ++i) for (auto *g : files) { bool dep = false; if (g->f.contains(3)) for (auto &d : g->f[3].v) dep |= d.s == str(files[i], 1); if (dep && g != files[i]) { v.push_back(i); break; } }
    if (v.empty()) { m = files[0]; Val x; x.s = "no/such.proto"; field(any(files, [](Msg *) { return true; }), 3).v.push_back(x); break; }
    m = files[0]; auto &fv = root.f[1].v; fv.erase(fv.begin() + v[n(v.size())]); break;
  }
  case 3: {
    w = "imports-in-a-circle"; m = files[n(files.size())]; // some file that it (indirectly) imports, or it itself, imports it
    Msg *at = m;
    for (unsigned k = n(4); k--;) { if (!count(at, 3)) break; auto name = field(at, 3).v[n(count(at, 3))].s; for (auto *g : files) if (str(g, 1) == name) { at = g; break; } }
    Val x; x.s = str(m, 1); field(at, 3).v.push_back(x); break;
  }
  case 4: w = "message-twice"; if ((m = any(scopes, [&](Msg *s) { return count(s, is_file(s) ? 4 : 3) > 0; }))) twice(m, is_file(m) ? 4 : 3); break;
  case 5: w = "enum-twice"; if ((m = any(scopes, [&](Msg *s) { return count(s, is_file(s) ? 5 : 4) > 0; }))) twice(m, is_file(m) ? 5 : 4); break;
  case 6: w = "field-number"; if ((m = any(fields, [](Msg *) { return true; }))) { static const std::int64_t bad[] = {0, -1, 19000, 19999, 19500, 536870912, 2147483647, -2147483648ll}; put_u(m, 3, bad[n(8)]); } break;
  case 7: w = "field-number-twice"; if ((m = any(msgs, [&](Msg *s) { return count(s, 2) > 1; }))) siblings(m, 2, [&](Msg *a, Msg *b) { a->f[3] = b->f[3]; }); break;
  case 8: w = "field-name-twice"; if ((m = any(msgs, [&](Msg *s) { return count(s, 2) > 1; }))) siblings(m, 2, [&](Msg *a, Msg *b) { a->f[1] = b->f[1]; }); break;
  case 9: w = "type-nowhere"; if ((m = any(n(3) ? fields : exts, [&](Msg *f) { return has(f, 6); }))) put_s(m, 6, nowhere()); break;
  case 10: w = "extendee-nowhere"; if ((m = any(exts, [&](Msg *f) { return has(f, 2); }))) put_s(m, 2, nowhere()); break;
  case 11: w = "oneof-index"; if ((m = any(fields, [&](Msg *f) { return has(f, 9); }))) { static const std::int64_t bad[] = {-1, 60, 2147483647, -2147483648ll}; put_u(m, 9, bad[n(4)]); } break;
  case 12: w = "oneof-empty"; if ((m = any(msgs, [](Msg *) { return true; }))) { auto o = std::make_shared<Msg>(); o->t = m->t->find(8, false)->m; put_s(o.get(), 1, "no_member"); Val x; x.m = o;
    auto &os = field(m, 8).v; auto at = n(static_cast<std::uint32_t>(os.size() + 1)); os.insert(os.begin() + at, x); // anywhere among the others
    if (has(m, 2)) for (auto &fv : field(m, 2).v) if (has(fv.m.get(), 9) && field(fv.m.get(), 9).v[0].u >= at) ++field(fv.m.get(), 9).v[0].u;
    } break;
  case 13: {
    w = "enum-empty";
    auto f = [&](Msg *x) { return type_of(x) == 14; };
    if ((m = any(fields, f))) for (auto *e : enums) e->f.erase(2);
    break;
  }
  case 14: w = "default-nowhere"; if ((m = any(fields, [&](Msg *x) { return type_of(x) == 14; }))) put_s(m, 7, "NO_SUCH_VALUE_"); break;
  case 15: { // something else between two members of a oneof
    w = "oneof-split";
    auto group = [&](const Val &v) { return has(v.m.get(), 9) ? static_cast<std::int64_t>(v.m->f.at(9).v[0].u) : -1; };
    auto pairs = [&](Msg *s) { std::vector<std::size_t> r; if (count(s, 2) > 2) { auto &v = s->f[2].v; for (std::size_t i = 1; i < v.size(); ++i) if (group(v[i]) >= 0 && group(v[i]) == group(v[i - 1])) r.push_back(i); } return r; };
    auto others = [&](Msg *s, std::int64_t g) { std::vector<std::size_t> r; auto &v = s->f[2].v; for (std::size_t i = 0; i < v.size(); ++i) if (group(v[i]) != g) r.push_back(i); return r; };
    m = any(msgs, [&](Msg *s) { for (auto i : pairs(s)) if (!others(s, group(s->f[2].v[i])).empty()) return true; return false; });
    if (!m) break;
    auto ps = pairs(m); auto &v = m->f[2].v;
    std::erase_if(ps, [&](std::size_t i) { return others(m, group(v[i])).empty(); });
    auto at = ps[n(ps.size())]; auto os = others(m, group(v[at])); auto from = os[n(os.size())];
    Val x = v[from]; v.erase(v.begin() + from); if (from < at) --at;
    v.insert(v.begin() + at, x); break;
  }
  default: w = "message-without-name"; if ((m = any(msgs, [](Msg *) { return true; }))) m->f.erase(1); break;
  }
  if (!m) return {};
  c.fault(w);
  *what = w;
  return encode_canonical(root);
}
} // namespace hv
