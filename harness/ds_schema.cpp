#include "ds_schema.hpp"
#include "descr_mut.hpp"
#include <algorithm>
namespace hv {
namespace {
struct Feat { int presence = 1, enum_type = 1, rep = 1, utf8 = 2, enc = 1; };
const Fld *fld(const Msg &m, std::uint32_t n) { auto it = m.f.find(n); return it == m.f.end() || it->second.v.empty() ? nullptr : &it->second; }
std::string str(const Msg &m, std::uint32_t n) { auto *f = fld(m, n); return f ? f->v[0].s : std::string(); }
std::uint64_t num(const Msg &m, std::uint32_t n, std::uint64_t d = 0) { auto *f = fld(m, n); return f ? f->v[0].u : d; }
const Msg *sub(const Msg &m, std::uint32_t n) { auto *f = fld(m, n); return f ? f->v[0].m.get() : nullptr; }
template <class F> void each(const Msg &m, std::uint32_t n, F fn) { if (auto *f = fld(m, n)) for (auto &v : f->v) fn(*v.m); }
Feat merged(Feat f, const Msg *options, std::uint32_t features_field) {
  const Msg *o = options ? sub(*options, features_field) : nullptr;
  if (!o) return f;
  int *p[] = {&f.presence, &f.enum_type, &f.rep, &f.utf8, &f.enc};
  for (std::uint32_t i = 0; i < 5; ++i) if (fld(*o, i + 1)) *p[i] = static_cast<int>(num(*o, i + 1));
  return f;
}
std::string unescaped(const std::string &s) {
  std::string r;
  for (std::size_t i = 0; i < s.size(); ++i) {
    if (s[i] != '\\' || i + 1 >= s.size()) { r += s[i]; continue; }
    char ch = s[++i];
    switch (ch) {
    case 'a': r += '\a'; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break;
    case 'r': r += '\r'; break; case 't': r += '\t'; break; case 'v': r += '\v'; break;
    case 'x': case 'X': { int v = 0; for (int k = 0; k < 2 && i + 1 < s.size() && isxdigit(static_cast<unsigned char>(s[i + 1])); ++k) v = v * 16 + (isdigit(static_cast<unsigned char>(s[++i])) ? s[i] - '0' : (s[i] | 32) - 'a' + 10); r += static_cast<char>(v); break; }
    case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7': { int v = ch - '0'; for (int k = 0; k < 2 && i + 1 < s.size() && s[i + 1] >= '0' && s[i + 1] <= '7'; ++k) v = v * 8 + (s[++i] - '0'); r += static_cast<char>(v); break; }
    default: r += ch;
    }
  }
  return r;
}
struct B {
  DrawnSchema &d;
  std::string err;
  struct Pend { std::size_t msg; const Msg *m; Feat f; };
  std::vector<Pend> pend;
  std::map<std::string, int> mi, ei;
  std::map<std::string, const Msg *> edesc;
  const char *intern(std::string s) { d.names.push_back(std::move(s)); return d.names.back().c_str(); }
  void enm(const Msg &e, const std::string &scope, Feat f) {
    auto full = scope.empty() ? str(e, 1) : scope + "." + str(e, 1);
    f = merged(f, sub(e, 3), 7);
    std::vector<int> vs;
    each(e, 2, [&](const Msg &v) { vs.push_back(static_cast<int>(num(v, 2))); });
    if (vs.empty()) err = "empty enum " + full;
    ei[full] = static_cast<int>(d.s.enums.size()); edesc[full] = &e;
    d.s.enums.emplace_back(intern(full), f.enum_type == 2, vs);
  }
  void message(const Msg &m, const std::string &scope, Feat f) {
    auto full = scope.empty() ? str(m, 1) : scope + "." + str(m, 1);
    auto *o = sub(m, 7);
    f = merged(f, o, 12);
    mi[full] = static_cast<int>(d.s.msgs.size());
    pend.push_back({d.s.msgs.size(), &m, f});
    std::vector<std::pair<int, int>> ranges;
    each(m, 5, [&](const Msg &r) { ranges.emplace_back(static_cast<int>(num(r, 1)), static_cast<int>(num(r, 2))); });
    d.s.msgs.emplace_back(intern(full), o && num(*o, 7), std::vector<FieldS>{}, std::vector<FieldS>{}, ranges);
    each(m, 3, [&](const Msg &n) { message(n, full, f); });
    each(m, 4, [&](const Msg &n) { enm(n, full, f); });
  }
  int look(const std::map<std::string, int> &t, const std::string &n) {
    if (n.empty() || n[0] != '.') { err = "name " + n; return -1; }
    auto it = t.find(n.substr(1));
    if (it == t.end()) { err = "no type " + n; return -1; }
    return it->second;
  }
  FieldS field(const Msg &p, Feat f, bool ext, bool in_entry) {
    static const Kind kinds[] = {I32, DBL, FLT, I64, U64, I32, F64, F32, BOOL, STR, GRP, MSG, BYT, U32, ENUM, SF32, SF64, S32, S64};
    auto *o = sub(p, 8);
    f = merged(f, o, 21);
    auto type = num(p, 5), label = num(p, 4, 1);
    if (type < 1 || type > 18) { err = "type"; type = 5; }
    Kind k = kinds[type];
    int m = -1, e = -1;
    bool is_map = false;
    if (k == MSG || k == GRP) { m = look(mi, str(p, 6)); if (m >= 0) is_map = d.s.msgs[static_cast<std::size_t>(m)].map_entry; }
    if (k == ENUM) e = look(ei, str(p, 6));
    if (k == MSG && f.enc == 2 && !is_map && !in_entry) k = GRP;
    bool synthetic = num(p, 17);
    int oneof = fld(p, 9) && !synthetic ? static_cast<int>(num(p, 9)) : -1;
    Card card;
    if (label == 3) card = is_map ? MAP : REP;
    else if (label == 2 || (f.presence == 3 && !ext && oneof < 0)) card = REQ;
    else if (k == MSG || k == GRP || fld(p, 9) || ext || f.presence != 2) card = EXP;
    else card = IMP;
    bool packed = card == REP && k != MSG && k != GRP && k != STR && k != BYT && (o && fld(*o, 2) ? num(*o, 2) != 0 : f.rep == 1);
    std::uint64_t dv = 0; std::string ds;
    if (label != 3) {
      auto t = str(p, 7);
      bool has = fld(p, 7);
      if (k == ENUM && e >= 0) {
        auto &ev = d.s.enums[static_cast<std::size_t>(e)];
        dv = norm(ENUM, static_cast<std::uint64_t>(static_cast<std::int64_t>(ev.values.empty() ? 0 : ev.values[0])));
        if (has) { bool found = false; each(*edesc[ev.name], 2, [&](const Msg &v) { if (str(v, 1) == t) { dv = norm(ENUM, num(v, 2)); found = true; } }); if (!found) err = "default " + t; }
      } else if (has) switch (k) {
        case STR: ds = t; break;
        case BYT: ds = unescaped(t); break;
        case BOOL: dv = t == "true"; break;
        case FLT: { float x = strtof(t.c_str(), nullptr); std::uint32_t u; memcpy(&u, &x, 4); dv = u; break; }
        case DBL: { double x = strtod(t.c_str(), nullptr); memcpy(&dv, &x, 8); break; }
        case U64: case F64: dv = strtoull(t.c_str(), nullptr, 0); break;
        default: dv = norm(k, static_cast<std::uint64_t>(strtoll(t.c_str(), nullptr, 0)));
      }
    }
    FieldS r(static_cast<std::uint32_t>(num(p, 3)), intern(str(p, 1)), k, card, packed, k == STR && f.utf8 == 2, oneof, m, e, dv, ds);
    return r;
  }
};
} // namespace
bool DrawnSchema::build(const std::vector<ProtoFile> &fs, std::string *why) {
  auto *ft = descriptor_type("google.protobuf.FileDescriptorProto");
  std::vector<std::shared_ptr<Msg>> trees;
  B b{*this, {}, {}, {}, {}, {}};
  s.enums.reserve(4096); s.msgs.reserve(8192);
  std::vector<Feat> ff;
  for (auto &f : fs) {
    auto t = std::make_shared<Msg>(); t->t = ft;
    if (!ref_decode(f.bytes, *t, RefOpt{})) { if (why) *why = "undecodable " + f.name; return false; }
    trees.push_back(t);
    Feat x;
    auto syn = str(*t, 12);
    if (syn.empty() || syn == "proto2") x = {1, 2, 2, 3, 1};
    else if (syn == "proto3") x = {2, 1, 1, 2, 1};
    x = merged(x, sub(*t, 8), 50);
    ff.push_back(x);
    each(*t, 4, [&](const Msg &m) { b.message(m, str(*t, 2), x); });
    each(*t, 5, [&](const Msg &m) { b.enm(m, str(*t, 2), x); });
  }
  for (auto &p : b.pend) {
    auto &ms = s.msgs[p.msg];
    each(*p.m, 2, [&](const Msg &f) { ms.fields.push_back(b.field(f, p.f, false, ms.map_entry)); });
    std::stable_sort(ms.fields.begin(), ms.fields.end(), [](auto &a, auto &c) { return a.num < c.num; });
    each(*p.m, 6, [&](const Msg &f) { int e = b.look(b.mi, str(f, 2)); if (e >= 0) s.msgs[static_cast<std::size_t>(e)].exts.push_back(b.field(f, p.f, true, false)); });
  }
  for (std::size_t i = 0; i < trees.size(); ++i) each(*trees[i], 7, [&](const Msg &f) { int e = b.look(b.mi, str(f, 2)); if (e >= 0) s.msgs[static_cast<std::size_t>(e)].exts.push_back(b.field(f, ff[i], true, false)); });
  for (auto &m : s.msgs) std::stable_sort(m.exts.begin(), m.exts.end(), [](auto &a, auto &c) { return a.num < c.num; });
  s.link();
  // a type that requires itself has no finite value: neither it nor what may hold it can be used
  std::map<const MsgS *, bool> finite;
  for (bool more = true; more;) {
    more = false;
    for (auto &m : s.msgs) if (!finite[&m]) { bool ok = true; for (auto &f : m.fields) ok &= f.card != REQ || !f.m || finite[f.m]; if (ok) finite[&m] = more = true; }
  }
  std::map<const MsgS *, bool> bad;
  for (bool more = true; more;) {
    more = false;
    for (auto &m : s.msgs) if (!bad[&m]) { bool x = !finite[&m]; for (auto &f : m.fields) x |= f.m && bad[f.m]; if (x) bad[&m] = more = true; }
  }
  for (auto &m : s.msgs) if (!m.map_entry) { msgs.push_back(&m); if (!bad[&m]) usable.push_back(&m); }
  if (why) *why = b.err;
  return b.err.empty();
}
} // namespace hv
