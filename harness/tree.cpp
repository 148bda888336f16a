#include "tree.hpp"
#include <algorithm>
#include <set>
using sim::Ctx;
namespace hv {
// ---------------------------------------------------------------- schema
Schema::Schema(const Schema &o) : enums(o.enums), msgs(o.msgs) { link(); }
void Schema::link() {
  for (auto &m : msgs) {
    m.by_num.clear(); m.by_num_ext.clear(); m.noneof = 0;
    auto fix = [&](FieldS &f) {
      f.m = f.msg >= 0 ? &msgs[static_cast<std::size_t>(f.msg)] : nullptr;
      f.e = f.enm >= 0 ? &enums[static_cast<std::size_t>(f.enm)] : nullptr;
      m.noneof = std::max(m.noneof, f.oneof + 1);
    };
    for (auto &f : m.fields) { fix(f); m.by_num[f.num] = &f; }
    for (auto &f : m.exts) { fix(f); f.ext = true; m.by_num_ext[f.num] = &f; }
  }
}
const MsgS *Schema::msg(const char *n) const {
  for (auto &m : msgs) if (strcmp(m.name, n) == 0) return &m;
  fprintf(stderr, "no message %s\n", n); abort();
}
const FieldS *MsgS::find(std::uint32_t n, bool x) const {
  auto it = by_num.find(n);
  if (it != by_num.end()) return it->second;
  if (x) { it = by_num_ext.find(n); if (it != by_num_ext.end()) return it->second; }
  return nullptr;
}
// ---------------------------------------------------------------- values
std::uint64_t norm(Kind k, std::uint64_t u) {
  switch (k) {
  case I32: case S32: case SF32: case ENUM: return static_cast<std::uint64_t>(static_cast<std::int64_t>(static_cast<std::int32_t>(u)));
  case U32: case F32: case FLT: return u & 0xffffffffu;
  case BOOL: return u != 0;
  default: return u;
  }
}
std::string key_of(Kind k, const Val &v) {
  if (k == STR || k == BYT) return v.s;
  std::string s(8, 0);
  std::uint64_t u = v.u;
  if (k != U32 && k != U64 && k != F32 && k != F64 && k != BOOL) u ^= 1ull << 63;
  for (int i = 0; i < 8; ++i) s[static_cast<std::size_t>(i)] = static_cast<char>(u >> (56 - 8 * i));
  return s;
}
bool is_default(const FieldS &f, const Val &v) { // implicit presence default
  if (f.is_len()) return v.s.empty();
  return v.u == 0;
}
bool valid_utf8(std::string_view s) {
  const auto *p = reinterpret_cast<const unsigned char *>(s.data()), *e = p + s.size();
  while (p < e) {
    if (*p < 0x80) { ++p; continue; }
    int n; std::uint32_t c;
    if ((*p & 0xe0) == 0xc0) { n = 1; c = *p & 0x1fu; }
    else if ((*p & 0xf0) == 0xe0) { n = 2; c = *p & 0x0fu; }
    else if ((*p & 0xf8) == 0xf0) { n = 3; c = *p & 0x07u; }
    else return false;
    if (e - p <= n) return false;
    for (int i = 1; i <= n; ++i) { if ((p[i] & 0xc0) != 0x80) return false; c = (c << 6) | (p[i] & 0x3fu); }
    if ((n == 1 && c < 0x80) || (n == 2 && (c < 0x800 || (c >= 0xd800 && c < 0xe000))) || (n == 3 && (c < 0x10000 || c > 0x10ffff))) return false;
    p += n + 1;
  }
  return true;
}
static std::string hex(std::string_view s, std::size_t max = 24) {
  std::string o; char b[4];
  for (std::size_t i = 0; i < s.size() && i < max; ++i) { snprintf(b, sizeof b, "%02x", static_cast<unsigned char>(s[i])); o += b; }
  if (s.size() > max) o += "..(" + std::to_string(s.size()) + ")";
  return o;
}
static std::string sval(const FieldS &f, const Val &v, int d) {
  if (f.is_msg()) return v.m ? "{" + show(*v.m, d + 1) + "}" : "{}";
  if (f.is_len()) return "x'" + hex(v.s) + "'";
  char b[40];
  if (f.kind == FLT) { float x; auto u = static_cast<std::uint32_t>(v.u); memcpy(&x, &u, 4); snprintf(b, sizeof b, "%g/0x%x", static_cast<double>(x), u); return b; }
  if (f.kind == DBL) { double x; memcpy(&x, &v.u, 8); snprintf(b, sizeof b, "%g/0x%llx", x, static_cast<unsigned long long>(v.u)); return b; }
  snprintf(b, sizeof b, "%lld", static_cast<long long>(v.u));
  return b;
}
std::string show(const Msg &m, int d) {
  if (d > 12) return "...";
  std::string o;
  for (auto &[n, f] : m.f) {
    if (f.f->card == MAP) {
      for (auto &[k, kv] : f.kv) o += std::string(f.f->name) + "[" + sval(f.f->m->fields[0], kv.first, d) + "]=" + sval(f.f->m->fields[1], kv.second, d) + " ";
    } else {
      std::size_t i = 0;
      for (auto &v : f.v) { if (i++ >= 12) { o += ".."; break; } o += std::string(f.f->name) + "=" + sval(*f.f, v, d) + " "; }
    }
  }
  for (auto &[n, s] : m.unk) o += "?" + std::to_string(n) + "=" + hex(s) + " ";
  if (o.size() > 1500) o = o.substr(0, 1500) + "...";
  return o;
}
static std::string vdiff(const FieldS &f, const Val &a, const Val &b, const std::string &p) {
  if (f.is_msg()) {
    static const Msg none;
    return diff(a.m ? *a.m : none, b.m ? *b.m : none, p);
  }
  if (f.is_len()) return a.s == b.s ? "" : p + ": expected x'" + hex(a.s, 60) + "' got x'" + hex(b.s, 60) + "'";
  return a.u == b.u ? "" : p + ": expected " + sval(f, a, 0) + " got " + sval(f, b, 0);
}
bool same_records(const std::string &a, const std::string &b);
std::string diff(const Msg &a, const Msg &b, const std::string &path) {
  auto i = a.f.begin(), j = b.f.begin();
  while (i != a.f.end() || j != b.f.end()) {
    if (j == b.f.end() || (i != a.f.end() && i->first < j->first)) return path + "." + i->second.f->name + ": expected present, got absent";
    if (i == a.f.end() || j->first < i->first) return path + "." + j->second.f->name + ": expected absent, got present (" + (j->second.v.empty() ? std::string("map/empty") : sval(*j->second.f, j->second.v[0], 0)) + ")";
    auto &x = i->second; auto &y = j->second;
    std::string p = path + "." + x.f->name;
    if (x.f->card == MAP) {
      auto k = x.kv.begin(); auto l = y.kv.begin();
      while (k != x.kv.end() || l != y.kv.end()) {
        if (l == y.kv.end() || (k != x.kv.end() && k->first < l->first)) return p + ": missing key " + sval(x.f->m->fields[0], k->second.first, 0);
        if (k == x.kv.end() || l->first < k->first) return p + ": extra key " + sval(x.f->m->fields[0], l->second.first, 0);
        auto r = vdiff(x.f->m->fields[1], k->second.second, l->second.second, p + "[" + sval(x.f->m->fields[0], k->second.first, 0) + "]");
        if (!r.empty()) return r;
        ++k; ++l;
      }
    }
    {
      if (x.v.size() != y.v.size()) return p + ": expected " + std::to_string(x.v.size()) + " elements, got " + std::to_string(y.v.size());
      for (std::size_t n = 0; n < x.v.size(); ++n) {
        auto r = vdiff(*x.f, x.v[n], y.v[n], x.f->card == REP ? p + "[" + std::to_string(n) + "]" : p);
        if (!r.empty()) return r;
      }
    }
    ++i; ++j;
  }
  if (b.keeps && a.keeps && a.unk != b.unk) {
    for (auto &[n, s] : a.unk) {
      auto it = b.unk.find(n);
      if (it == b.unk.end()) return path + ": unknown field " + std::to_string(n) + " lost (" + hex(s, 60) + ")";
      if (!same_records(it->second, s)) return path + ": unknown field " + std::to_string(n) + " expected " + hex(s, 60) + " got " + hex(it->second, 60);
    }
    for (auto &[n, s] : b.unk) if (!a.unk.count(n)) return path + ": unexpected unknown field " + std::to_string(n) + " " + hex(s, 60);
  }
  return "";
}
static Val cval(const Val &v) { Val r; r.u = v.u; r.s = v.s; if (v.m) r.m = clone(*v.m); return r; }
std::shared_ptr<Msg> clone(const Msg &m) {
  auto r = std::make_shared<Msg>();
  r->t = m.t; r->unk = m.unk; r->keeps = m.keeps;
  for (auto &[n, f] : m.f) {
    auto &g = r->f[n]; g.f = f.f;
    for (auto &v : f.v) g.v.push_back(cval(v));
    for (auto &[k, kv] : f.kv) g.kv[k] = {cval(kv.first), cval(kv.second)};
  }
  return r;
}
static std::uint64_t vhash(const Val &v) { std::uint64_t h = sim::mix(v.u, sim::hash_bytes(v.s.data(), v.s.size())); return v.m ? sim::mix(h, hash(*v.m)) : h; }
std::uint64_t hash(const Msg &m) {
  std::uint64_t h = 99;
  for (auto &[n, f] : m.f) { h = sim::mix(h, n); for (auto &v : f.v) h = sim::mix(h, vhash(v)); for (auto &[k, kv] : f.kv) { h = sim::mix(h, sim::hash_bytes(k.data(), k.size())); h = sim::mix(h, vhash(kv.second)); } }
  for (auto &[n, s] : m.unk) { h = sim::mix(h, n); h = sim::mix(h, sim::hash_bytes(s.data(), s.size())); }
  return h;
}
std::size_t node_count(const Msg &m) {
  std::size_t n = 1;
  for (auto &[k, f] : m.f) { for (auto &v : f.v) n += v.m ? node_count(*v.m) : 1; for (auto &[kk, kv] : f.kv) n += 1 + (kv.second.m ? node_count(*kv.second.m) : 1); }
  return n;
}
// ---------------------------------------------------------------- wire helpers
void put_varint(std::string &o, std::uint64_t v, int extra) {
  do {
    unsigned char b = v & 0x7f; v >>= 7;
    if (v || extra > 0) o += static_cast<char>(b | 0x80); else { o += static_cast<char>(b); return; }
    if (!v && extra > 0) { while (--extra > 0) o += static_cast<char>(0x80); o += '\0'; return; }
  } while (true);
}
static bool get_varint(std::string_view in, std::size_t &p, std::uint64_t &v, unsigned max = 10) {
  v = 0;
  for (unsigned i = 0; i < max; ++i) {
    if (p >= in.size()) return false;
    auto b = static_cast<unsigned char>(in[p++]);
    if (i < 10) v |= static_cast<std::uint64_t>(b & 0x7f) << (7 * i);
    if (!(b & 0x80)) return true;
  }
  return false;
}
unsigned wt_of(Kind k) {
  switch (k) {
  case F64: case SF64: case DBL: return 1;
  case F32: case SF32: case FLT: return 5;
  case STR: case BYT: case MSG: return 2;
  case GRP: return 3;
  default: return 0;
  }
}
static std::uint64_t zz(std::uint64_t u) { return (u << 1) ^ static_cast<std::uint64_t>(static_cast<std::int64_t>(u) >> 63); }
static std::uint64_t unzz(std::uint64_t u) { return (u >> 1) ^ (~(u & 1) + 1); }
static void put_scalar(std::string &o, Kind k, const Val &v, int extra = 0) {
  auto fixed = [&](unsigned n) { for (unsigned i = 0; i < n; ++i) o += static_cast<char>(v.u >> (8 * i)); };
  switch (k) {
  case F64: case SF64: case DBL: fixed(8); break;
  case F32: case SF32: case FLT: fixed(4); break;
  case S32: put_varint(o, zz(v.u) & 0xffffffffu, extra); break;
  case S64: put_varint(o, zz(v.u), extra); break;
  default: put_varint(o, v.u, extra);
  }
}
static bool get_scalar(std::string_view in, std::size_t &p, Kind k, Val &v) {
  auto fixed = [&](unsigned n) {
    if (in.size() - p < n) return false;
    v.u = 0;
    for (unsigned i = 0; i < n; ++i) v.u |= static_cast<std::uint64_t>(static_cast<unsigned char>(in[p + i])) << (8 * i);
    p += n; return true;
  };
  bool ok;
  switch (k) {
  case F64: case SF64: case DBL: ok = fixed(8); break;
  case F32: case SF32: case FLT: ok = fixed(4); break;
  default: { std::uint64_t u; ok = get_varint(in, p, u); if (k == S32) u = unzz(u & 0xffffffffu); if (k == S64) u = unzz(u); v.u = u; }
  }
  v.u = norm(k, v.u);
  return ok;
}
// skips one field value; returns false when malformed
static bool skip(std::string_view in, std::size_t &p, std::uint32_t num, unsigned wt, int depth, int limit) {
  std::uint64_t u;
  switch (wt) {
  case 0: return get_varint(in, p, u);
  case 1: if (in.size() - p < 8) return false; p += 8; return true;
  case 5: if (in.size() - p < 4) return false; p += 4; return true;
  case 2: if (!get_varint(in, p, u, 5) || u > in.size() - p) return false; p += u; return true;
  case 3:
    if (depth + 1 > limit) return false;
    for (;;) {
      if (!get_varint(in, p, u, 5)) return false;
      u &= 0xffffffffu;
      if ((u >> 3) == 0) return false;
      if ((u & 7) == 4) return (u >> 3) == num;
      if (!skip(in, p, static_cast<std::uint32_t>(u >> 3), u & 7, depth + 1, limit)) return false;
    }
  default: return false;
  }
}
// the same records with every tag, length and varint in its shortest form (false: malformed)
static bool canon_records(std::string_view in, std::size_t &p, std::string &o, std::uint32_t group) {
  while (p < in.size()) {
    std::uint64_t t, u;
    if (!get_varint(in, p, t, 5)) return false;
    t &= 0xffffffffu;
    if ((t & 7) == 4) { put_varint(o, t); return group == (t >> 3); }
    put_varint(o, t);
    std::size_t q = p;
    switch (t & 7) {
    case 0: if (!get_varint(in, p, u)) return false; put_varint(o, u); break;
    case 1: case 5: q = (t & 7) == 1 ? 8 : 4; if (in.size() - p < q) return false; o.append(in.substr(p, q)); p += q; break;
    case 2: if (!get_varint(in, p, u, 5) || u > in.size() - p) return false; put_varint(o, u); o.append(in.substr(p, u)); p += u; break;
    case 3: if (!canon_records(in, p, o, static_cast<std::uint32_t>(t >> 3))) return false; break;
    default: return false;
    }
  }
  return group == 0;
}
bool same_records(const std::string &a, const std::string &b) {
  if (a == b) return true;
  std::string x, y; std::size_t p = 0, q = 0;
  return canon_records(a, p, x, 0) && canon_records(b, q, y, 0) && x == y;
}
namespace {
struct Dec {
  const RefOpt &o; RefErr *err;
  bool bad(const char *w) { if (err && !err->what) err->what = w; return false; }
  void clear_oneof(Msg &m, const FieldS &f) {
    if (f.oneof < 0) return;
    for (auto &g : m.t->fields) if (g.oneof == f.oneof && g.num != f.num) m.f.erase(g.num);
  }
  // parses until end of input (group==0) or the end-group tag
  bool run(std::string_view in, std::size_t &p, Msg &m, int depth, std::uint32_t group) {
    if (depth > o.limit) return bad("recursion");
    while (p < in.size()) {
      std::size_t start = p;
      std::uint64_t tag;
      if (!get_varint(in, p, tag, 5)) return bad("tag");
      if (tag > 0xffffffffu) return bad("tag range");
      auto num = static_cast<std::uint32_t>(tag >> 3); unsigned wt = tag & 7;
      if (num == 0) return bad("field number 0");
      if (wt == 4) { if (group && num == group) return true; return bad("end group"); }
      const FieldS *f = m.t->find(num, o.exts);
      if (!f) {
        if (!skip(in, p, num, wt, depth, o.limit)) return bad("unknown field");
        std::string rec; put_varint(rec, tag);
        // canonical tag followed by the raw payload
        std::size_t q = start; std::uint64_t t2; get_varint(in, q, t2, 5);
        rec.append(in.substr(q, p - q));
        m.unk[num] += rec;
        continue;
      }
      if (o.as_declared) {
        if (f->packable() && f->packed != (wt == 2)) return bad(f->packed ? "a packed field sent element by element" : "an expanded field sent packed");
        if ((f->packed || (f->card != REP && f->card != MAP)) && m.f.count(num)) return bad("a field sent twice");
      }
      if (f->card == REP && f->packable() && wt == 2) {
        std::uint64_t len;
        if (!get_varint(in, p, len, 5) || len > in.size() - p) return bad("packed length");
        std::string_view sub = in.substr(p, len); std::size_t q = 0; p += len;
        while (q < sub.size()) { Val v; if (std::size_t q0 = q; !get_scalar(sub, q, f->kind, v) || (o.u32_max5 && f->kind == U32 && q - q0 > 5)) return bad("packed element"); add(m, *f, std::move(v)); }
        continue;
      }
      if (wt != wt_of(f->kind)) return bad("wire type");
      if (f->kind == GRP) {
        Val tmp; Msg *sub;
        if (f->card == REP) { tmp.m = std::make_shared<Msg>(); tmp.m->t = f->m; sub = tmp.m.get(); }
        else sub = mut(m, *f);
        if (!run(in, p, *sub, depth + 1, num)) return bad("group");
        if (f->card == REP) add(m, *f, std::move(tmp));
        continue;
      }
      if (wt == 2) {
        std::uint64_t len;
        if (!get_varint(in, p, len, 5) || len > in.size() - p) return bad("length");
        std::string_view sub = in.substr(p, len); p += len;
        if (f->is_len()) {
          if (f->utf8 && o.validate_utf8 && !valid_utf8(sub)) return bad("utf8");
          Val v; v.s = std::string(sub);
          if (o.as_declared && f->card == IMP && !m.t->map_entry && is_default(*f, v)) return bad("a default value sent");
          add(m, *f, std::move(v));
        } else if (f->card == MAP) {
          if (!map_entry(m, *f, sub, depth + 1)) return false;
        } else {
          Val tmp; Msg *s;
          if (f->card == REP) { tmp.m = std::make_shared<Msg>(); tmp.m->t = f->m; s = tmp.m.get(); } else s = mut(m, *f);
          std::size_t q = 0;
          if (!run(sub, q, *s, depth + 1, 0)) return bad("submessage");
          if (f->card == REP) add(m, *f, std::move(tmp));
        }
        continue;
      }
      Val v;
      if (std::size_t p0 = p; !get_scalar(in, p, f->kind, v) || (o.u32_max5 && f->kind == U32 && p - p0 > 5)) return bad("scalar");
      if (o.as_declared && f->card == IMP && !m.t->map_entry && is_default(*f, v)) return bad("a default value sent");
      add(m, *f, std::move(v));
    }
    return group == 0 ? true : bad("missing end group");
  }
  Msg *mut(Msg &m, const FieldS &f) {
    clear_oneof(m, f);
    auto &fl = m.f[f.num]; fl.f = &f;
    if (fl.v.empty()) { fl.v.emplace_back(); fl.v[0].m = std::make_shared<Msg>(); fl.v[0].m->t = f.m; }
    return fl.v[0].m.get();
  }
  void add(Msg &m, const FieldS &f, Val v) {
    if (f.kind == ENUM && f.e->closed && !f.e->valid(static_cast<std::int64_t>(v.u)) && !(o.lenient_closed_map && m.t->map_entry)) {
      std::string rec; put_varint(rec, f.num << 3); put_varint(rec, v.u); m.unk[f.num] += rec; return;
    }
    clear_oneof(m, f);
    if (f.card == REP) { auto &fl = m.f[f.num]; fl.f = &f; fl.v.push_back(std::move(v)); return; }
    if (f.card == IMP && is_default(f, v)) { m.f.erase(f.num); return; }
    auto &fl = m.f[f.num]; fl.f = &f;
    fl.v.clear(); fl.v.push_back(std::move(v));
  }
  bool map_entry(Msg &m, const FieldS &f, std::string_view sub, int depth) {
    Msg e; e.t = f.m;
    if (o.known_dialect) { // hpp-proto: entries must be non-empty and start with the key
      if (!sub.empty() && (static_cast<unsigned char>(sub[0]) >> 3) != 1) return bad("map entry dialect");
      if (sub.empty()) return bad("map entry dialect");
    }
    std::size_t q = 0;
    if (!run(sub, q, e, depth, 0)) return bad("map entry");
    const FieldS &kf = f.m->fields[0], &vf = f.m->fields[1];
    Val k, v;
    if (auto it = e.f.find(1); it != e.f.end()) k = it->second.v[0];
    if (auto it = e.f.find(2); it != e.f.end()) v = it->second.v[0];
    else if (e.unk.count(2) && vf.kind == ENUM && !o.lenient_closed_map) { // closed enum, unlisted value: the whole entry is unknown
      std::string rec; put_varint(rec, f.num << 3 | 2); put_varint(rec, sub.size()); rec.append(sub); m.unk[f.num] += rec; return true;
    } else if (vf.is_msg()) { v.m = std::make_shared<Msg>(); v.m->t = vf.m; }
    else if (vf.kind == ENUM && vf.e->closed) v.u = norm(ENUM, static_cast<std::uint64_t>(static_cast<std::int64_t>(vf.e->values[0])));
    auto &fl = m.f[f.num]; fl.f = &f;
    auto ks = key_of(kf.kind, k);
    fl.kv[ks] = {std::move(k), std::move(v)};
    return true;
  }
};
} // namespace
void fill_required(Msg &m) { // this library does not track presence of required fields: they always hold a value
  for (auto &f : m.t->fields) {
    if (f.card != REQ || m.f.count(f.num)) continue;
    auto &g = m.f[f.num]; g.f = &f; g.v.emplace_back();
    if (f.is_msg()) { g.v[0].m = std::make_shared<Msg>(); g.v[0].m->t = f.m; g.v[0].m->keeps = m.keeps; }
    else { g.v[0].u = f.dflt; g.v[0].s = f.dflts; }
  }
  for (auto &[n, fl] : m.f) {
    if (!fl.f->is_msg() && fl.f->card != MAP) continue;
    for (auto &v : fl.v) if (v.m) fill_required(*v.m);
    for (auto &[k, kv] : fl.kv) if (kv.second.m) fill_required(*kv.second.m);
  }
}
bool ref_decode(std::string_view in, Msg &m, const RefOpt &o, RefErr *err, int depth) {
  Dec d{o, err};
  std::size_t p = 0;
  if (!d.run(in, p, m, depth, 0)) return false;
  if (depth == 0) fill_required(m);
  return true;
}
// ---------------------------------------------------------------- encoding
void PeerOpt::swarm(Ctx &c) {
  shuffle = c.chance(1, 2); interleave = c.chance(1, 2); overlong_val = c.chance(1, 3); overlong_len = c.chance(1, 4); overlong_tag = c.chance(1, 6);
  packing = c.chance(1, 2); split_sub = c.chance(1, 3); dup = c.chance(1, 3); other_oneof = c.chance(1, 3); unknown = c.chance(1, 3);
  map_missing_value = c.chance(1, 3); map_dup = c.chance(1, 3); map_unknown = c.chance(1, 4); map_reorder = c.chance(1, 12); map_unlisted = c.chance(1, 12); wide = c.chance(1, 8); explicit_default = c.chance(1, 3); unknown_enum = c.chance(1, 3);
}
namespace {
using Recs = std::vector<std::pair<std::int64_t, std::string>>; // (ordering stream, record)
struct Enc {
  Ctx *c; const PeerOpt &o; bool plain_tag = false;
  bool ch(bool flag, unsigned n, unsigned d) { return c && flag && c->chance(n, d); }
  int extra(std::uint64_t v, int max) { // extra continuation bytes keeping the varint within max bytes
    int len = 1; while (v >>= 7) ++len;
    return len >= max ? 0 : static_cast<int>(c->range(1, static_cast<std::uint32_t>(max - len)));
  }
  void tag(std::string &s, std::uint32_t num, unsigned wt) {
    std::uint64_t t = static_cast<std::uint64_t>(num) << 3 | wt;
    put_varint(s, t, !plain_tag && ch(o.overlong_tag, 1, 3) ? extra(t, 5) : 0);
  }
  void len(std::string &s, std::uint64_t n) { put_varint(s, n, ch(o.overlong_len, 1, 3) ? extra(n, 5) : 0); }
  void scalar(std::string &s, const FieldS &f, const Val &v) {
    int ex = 0;
    if (wt_of(f.kind) == 0 && ch(o.overlong_val, 1, 3)) {
      std::uint64_t w = v.u;
      if (f.kind == S32) w = zz(v.u) & 0xffffffffu; else if (f.kind == S64) w = zz(v.u);
      ex = extra(w, f.kind == U32 ? 5 : 10);
    }
    if (ch(o.wide, 1, 6)) { // the sender declares the field with a wider compatible type: extra high bits that the receiver drops
      std::uint64_t hi = c->pick(3) ? static_cast<std::uint64_t>(1 + c->pick(7)) << 32 : c->bits64() << 32;
      std::uint64_t w;
      switch (f.kind) {
      case I32: case U32: w = (v.u & 0xffffffffu) | hi; break;
      case ENUM: if (f.e->closed) { put_scalar(s, f.kind, v, ex); return; } w = (v.u & 0xffffffffu) | hi; break;
      case S32: w = (zz(v.u) & 0xffffffffu) | hi; break;
      case BOOL: w = v.u ? hi | 2 : 0; break;
      default: put_scalar(s, f.kind, v, ex); return;
      }
      put_varint(s, w); return;
    }
    put_scalar(s, f.kind, v, ex);
  }
  std::string one(const FieldS &f, const Val &v) {
    std::string s;
    tag(s, f.num, wt_of(f.kind));
    if (f.is_msg()) {
      std::string body = v.m ? msg(*v.m, false) : std::string();
      if (f.kind == GRP) { s += body; tag(s, f.num, 4); } else { len(s, body.size()); s += body; }
    } else if (f.is_len()) { len(s, v.s.size()); s += v.s; }
    else scalar(s, f, v);
    return s;
  }
  std::string wrap(const FieldS &f, const std::string &body) {
    std::string s;
    tag(s, f.num, wt_of(f.kind));
    if (f.kind == GRP) { s += body; tag(s, f.num, 4); } else { len(s, body.size()); s += body; }
    return s;
  }
  void field(Recs &r, const Fld &fl) {
    const FieldS &f = *fl.f;
    std::int64_t key = f.oneof >= 0 ? -(f.oneof + 1) : static_cast<std::int64_t>(f.num);
    auto add = [&](std::string s) { r.emplace_back(key, std::move(s)); };
    if (f.card == MAP) {
      for (auto &[ks, kv] : fl.kv) {
        if (ch(o.map_dup, 1, 4)) { GenOpt g; int b = 2; Val v2 = gen_val(*c, f.m->fields[1], g, b, 9); add(wrap(f, entry(f, kv.first, v2))); }
        if (f.m->fields[1].kind == ENUM && f.m->fields[1].e->closed && ch(o.map_unlisted, 1, 2)) { Val v2; v2.u = 987654; add(wrap(f, one(f.m->fields[0], kv.first) + one(f.m->fields[1], v2))); }
        add(wrap(f, entry(f, kv.first, kv.second)));
      }
      return;
    }
    auto bad_enum = [&] {
      if (f.kind == ENUM && f.e->closed && ch(o.unknown_enum, 1, 2)) {
        Val v; v.u = norm(ENUM, c->pick(4) == 1 ? 1000000 : c->pick(3) ? 77 + c->pick(3) : static_cast<std::uint64_t>(-77ll));
        if (f.e->valid(static_cast<std::int64_t>(v.u))) v.u = 123456;
        return v;
      }
      return Val{};
    };
    if (f.card == REP) {
      if (!f.packable()) {
        for (auto &v : fl.v) add(one(f, v));
        return;
      }
      std::vector<Val> vs;
      for (auto &v : fl.v) { Val b = bad_enum(); if (b.u) vs.push_back(b); vs.push_back(v); }
      bool packed = f.packed;
      std::size_t i = 0;
      while (i < vs.size()) {
        std::size_t n = vs.size() - i;
        if (c && o.packing) { packed = c->chance(1, 2); n = 1 + c->pick(static_cast<std::uint32_t>(n)); }
        if (packed) {
          std::string b;
          for (std::size_t k = 0; k < n; ++k) scalar(b, f, vs[i + k]);
          std::string s; tag(s, f.num, 2); len(s, b.size()); s += b; add(s);
          if (ch(o.packing, 1, 6)) { std::string z; tag(z, f.num, 2); len(z, 0); add(z); } // empty packed run
        } else
          for (std::size_t k = 0; k < n; ++k) add(one(f, vs[i + k]));
        i += n;
      }
      return;
    }
    // singular
    if (f.oneof >= 0 && ch(o.other_oneof, 1, 2)) {
      // earlier members of the same oneof: replaced
      GenOpt g; int b = 2;
      auto k = c->range(1, 2);
      for (std::uint32_t i = 0; i < k; ++i) {
        std::vector<const FieldS *> alts;
        for (auto &x : owner->fields) if (x.oneof == f.oneof && x.num != f.num) alts.push_back(&x);
        if (alts.empty()) break;
        auto *x = alts[c->pick(static_cast<std::uint32_t>(alts.size()))];
        Val v = gen_val(*c, *x, g, b, 9);
        add(one(*x, v));
      }
    }
    if (f.is_msg()) {
      const Msg *sub = fl.v[0].m.get();
      if (ch(o.dup, 1, 4)) { GenOpt g; g.budget = 3; int b = 3; Val v = gen_val(*c, f, g, b, 8); add(one(f, v)); }
      if (ch(o.split_sub, 1, 2) && sub) {
        auto recs = order(*sub, false);
        std::size_t i = 0;
        do {
          std::size_t n = recs.size() - i; if (n) n = c->pick(static_cast<std::uint32_t>(n) + 1);
          std::string b; for (std::size_t k = 0; k < n; ++k) b += recs[i + k].second;
          add(wrap(f, b)); i += n;
          if (c->chance(1, 3)) { std::string rest; for (; i < recs.size(); ++i) rest += recs[i].second; add(wrap(f, rest)); break; }
          if (n == 0 && c->chance(1, 2)) { std::string rest; for (; i < recs.size(); ++i) rest += recs[i].second; add(wrap(f, rest)); break; }
        } while (i < recs.size());
      } else add(one(f, fl.v[0]));
    } else {
      if (ch(o.dup, 1, 4)) { GenOpt g; int b = 1; Val v = gen_val(*c, f, g, b, 9); add(one(f, v)); }
      { Val b = bad_enum(); if (b.u) add(one(f, b)); }
      add(one(f, fl.v[0]));
      { Val b = bad_enum(); if (b.u) add(one(f, b)); }
    }
  }
  std::string entry(const FieldS &f, const Val &k, const Val &v) {
    const FieldS &kf = f.m->fields[0], &vf = f.m->fields[1];
    plain_tag = !o.map_reorder; // the key's tag in an unusual form only together with the other unusual entry forms
    std::string s = one(kf, k);
    plain_tag = false;
    bool kdef = kf.is_len() ? k.s.empty() : k.u == 0;
    if (ch(o.map_reorder, 1, 5)) { // value before key, or no key at all
      std::string r = ch(true, 1, 3) && (v.m ? v.m->empty() : v.u == 0 && v.s.empty()) && !(vf.kind == ENUM && vf.e->closed) ? std::string() : one(vf, v);
      if (!kdef || ch(true, 1, 2)) r += s;
      return r;
    }
    bool dflt = vf.is_len() ? v.s.empty() : vf.is_msg() ? (!v.m || v.m->empty()) : v.u == 0;
    if (vf.kind == ENUM && vf.e->closed) dflt = static_cast<std::int64_t>(v.u) == vf.e->values[0];
    if (ch(o.map_unknown, 1, 4)) put_unknown(*c, s, f.m, 1, false);
    if (dflt && ch(o.map_missing_value, 1, 2)) return s;
    if (ch(o.map_dup, 1, 5)) { GenOpt g; int b = 1; s += one(vf, gen_val(*c, vf, g, b, 9)); if (vf.is_msg()) { s.clear(); plain_tag = !o.map_reorder; s = one(kf, k); plain_tag = false; } }
    s += one(vf, v);
    if (ch(o.map_dup, 1, 6)) s += one(kf, k);
    return s;
  }
  const MsgS *owner = nullptr;
  Recs order(const Msg &m, bool) {
    const MsgS *save = owner; owner = m.t;
    Recs r;
    for (auto &[n, fl] : m.f) field(r, fl);
    for (auto &[n, s] : m.unk) r.emplace_back(n, s);
    if (c) {
      if (o.explicit_default)
        for (auto &f : m.t->fields)
          if (f.card == IMP && f.oneof < 0 && !m.f.count(f.num) && c->chance(1, 8)) {
            if (f.is_msg()) continue;
            if (c->pick(2)) { GenOpt g; int b = 1; r.emplace_back(f.num, one(f, gen_val(*c, f, g, b, 9))); } // what came before is replaced by the default value
            Val z; r.emplace_back(f.num, one(f, z));
          }
      if (o.unknown) {
        auto k = c->pick(3);
        for (std::uint32_t i = 0; i < k; ++i) { std::string s; put_unknown(*c, s, m.t, o.unk_depth, true, o.overlong_tag); 
          std::size_t p = 0; std::uint64_t t = 0; get_varint(s, p, t); r.emplace_back(static_cast<std::int64_t>(t >> 3), s); }
      }
      if ((o.shuffle || o.interleave) && r.size() > 1) {
        std::map<std::int64_t, std::vector<std::string>> st; std::vector<std::int64_t> keys;
        for (auto &[k, s] : r) { if (!st.count(k)) keys.push_back(k); st[k].push_back(std::move(s)); }
        std::map<std::int64_t, std::size_t> pos;
        Recs out;
        while (!keys.empty()) {
          auto i = c->pick(static_cast<std::uint32_t>(keys.size()));
          auto k = keys[i];
          do { out.emplace_back(k, std::move(st[k][pos[k]++])); } while (pos[k] < st[k].size() && (!o.interleave || c->chance(1, 3)));
          if (pos[k] == st[k].size()) keys.erase(keys.begin() + i);
        }
        r = std::move(out);
      }
    }
    owner = save;
    return r;
  }
  std::string msg(const Msg &m, bool top) {
    std::string s;
    for (auto &[k, x] : order(m, top)) s += x;
    return s;
  }
};
} // namespace
std::string encode_canonical(const Msg &m) { PeerOpt o; Enc e{nullptr, o}; return e.msg(m, true); }
std::string encode_peer(Ctx &c, const Msg &m, const PeerOpt &o, bool top) { Enc e{&c, o}; return e.msg(m, top); }
std::uint32_t pick_unknown_number(Ctx &c, const MsgS *t, bool known_exts) {
  for (int i = 0; i < 40; ++i) {
    std::uint32_t n;
    switch (c.pick(5)) {
    case 0: n = 600 + c.pick(4); break;
    case 1: n = 1 + c.pick(20); break;
    case 2: n = 1 + c.pick(3000); break;
    case 3: n = 1000 + c.pick(1000); break;
    default: n = 536870911 - c.pick(5); break;
    }
    if (n >= 19000 && n < 20000) continue;
    if (!t->find(n, known_exts)) return n;
  }
  std::uint32_t n = 700000; while (t->find(n, known_exts)) ++n;
  return n;
}
void put_unknown(Ctx &c, std::string &o, const MsgS *t, int depth, bool known_exts, bool ol) {
  std::uint32_t n = t ? pick_unknown_number(c, t, known_exts) : 1 + c.pick(30);
  auto k = c.pick(depth > 0 ? 5u : 4u);
  static const unsigned wts[] = {0, 2, 5, 1, 3};
  std::uint64_t tg = static_cast<std::uint64_t>(n) << 3 | wts[k];
  int ex = 0;
  if (ol && c.chance(1, 3)) { int l = 1; for (auto v = tg; v >>= 7;) ++l; if (l < 5) ex = static_cast<int>(c.range(1, static_cast<std::uint32_t>(5 - l))); }
  put_varint(o, tg, ex);
  switch (wts[k]) {
  case 0: { std::uint64_t v = c.pick(3) ? c.pick(300) : c.bits64(); put_varint(o, v, c.chance(1, 6) && !(v >> 63) ? 1 : 0); break; }
  case 1: for (int i = 0; i < 8; ++i) o += static_cast<char>(c.pick(256)); break;
  case 5: for (int i = 0; i < 4; ++i) o += static_cast<char>(c.pick(256)); break;
  case 2: { auto l = c.chance(1, 12) ? 200 + c.pick(200) : c.pick(20); put_varint(o, l); for (std::uint32_t i = 0; i < l; ++i) o += static_cast<char>(i * 37 + l); break; }
  default: { auto m = c.pick(3); for (std::uint32_t i = 0; i < m; ++i) put_unknown(c, o, nullptr, depth - 1, false); put_varint(o, static_cast<std::uint64_t>(n) << 3 | 4); }
  }
}
// ---------------------------------------------------------------- generator
std::string gen_string(Ctx &c, bool utf8, int max_len) {
  std::uint32_t n;
  switch (c.pick(6)) {
  case 0: n = 0; break;
  case 1: n = 1 + c.pick(4); break;
  case 2: n = 14 + c.pick(5); break;
  default: n = c.pick(static_cast<std::uint32_t>(max_len) + 1);
  }
  std::string s;
  auto style = c.pick(4);
  auto a = c.pick(26);
  while (s.size() < n) {
    if (utf8) {
      switch (style) {
      case 2: s += "\xc3\xa9"; break;
      case 3: s += (s.size() % 2) ? "\xf0\x9f\x98\x80" : "\xe2\x82\xac"; break;
      case 1: s += static_cast<char>(s.size() % 3 ? 'a' + (a + s.size()) % 26 : '\0'); break;
      default: s += static_cast<char>('a' + (a + s.size()) % 26);
      }
    } else {
      switch (style) {
      case 0: s += static_cast<char>(a); break;
      case 1: s += static_cast<char>(0xff); break;
      default: s += static_cast<char>(c.pick(256));
      }
    }
  }
  return s;
}
static std::uint64_t gen_int(Ctx &c, unsigned bits) {
  std::uint64_t v;
  switch (c.pick(8)) {
  case 0: v = c.pick(3); break;
  case 1: v = c.pick(200); break;
  case 2: { auto sh = c.pick(bits); v = 1ull << sh; break; }
  case 3: { auto sh = c.pick(bits); v = (1ull << sh) - 1; break; }
  case 4: v = ~static_cast<std::uint64_t>(c.pick(300)); break;
  case 5: v = 1ull << (bits - 1); break;
  case 6: v = (1ull << (bits - 1)) - 1; break;
  default: v = c.bits64();
  }
  return v;
}
Val gen_val(Ctx &c, const FieldS &f, const GenOpt &o, int &budget, int depth) {
  Val v;
  --budget;
  switch (f.kind) {
  case I32: case U32: case S32: case F32: case SF32: v.u = gen_int(c, 32); break;
  case I64: case U64: case S64: case F64: case SF64: v.u = gen_int(c, 64); break;
  case FLT: { static const std::uint32_t t[] = {0, 0x3f800000, 0x80000000, 0x7fc00000, 0xff800000, 1, 0x7f7fffff, 0xffc12345, 0x42280000}; auto i = c.pick(10); v.u = i < 9 ? t[i] : c.pick(0xffffffffu); if (v.u == 0x80000000u && !o.neg_zero) v.u = 0x40000000; break; }
  case DBL: { static const std::uint64_t t[] = {0, 0x3ff0000000000000, 0x8000000000000000, 0x7ff8000000000000, 0xfff0000000000000, 1, 0x7fefffffffffffff, 0xfff8000000012345}; auto i = c.pick(9); v.u = i < 8 ? t[i] : c.bits64(); if (v.u == 1ull << 63 && !o.neg_zero) v.u = 0x4000000000000000; break; }
  case BOOL: v.u = c.pick(2); break;
  case STR: case BYT: v.s = gen_string(c, f.kind == STR && (f.utf8 || c.pick(2)), o.big && c.chance(1, 10) ? 3000 : o.max_len); break;
  case ENUM:
    if (!f.e->closed && c.chance(1, 5)) v.u = gen_int(c, 32);
    else v.u = static_cast<std::uint64_t>(static_cast<std::int64_t>(f.e->values[c.pick(static_cast<std::uint32_t>(f.e->values.size()))]));
    break;
  case MSG: case GRP: {
    GenOpt g = o; g.budget = depth >= o.max_depth ? 0 : std::min(budget, 1 + static_cast<int>(c.pick(8)));
    g.max_depth = o.max_depth - 1;
    v.m = gen(c, f.m, g);
    budget -= g.budget;
    break; }
  }
  v.u = norm(f.kind, v.u);
  return v;
}
std::shared_ptr<Msg> gen(Ctx &c, const MsgS *t, GenOpt o) {
  auto m = std::make_shared<Msg>();
  m->t = t;
  int budget = o.budget;
  std::size_t nf = t->fields.size() + (o.exts ? t->exts.size() : 0);
  if (budget <= 0 || o.max_depth < 0) { fill_required(*m); return m; }
  int guard = 0;
  while (budget > 0 && nf && guard++ < o.budget) {
    if (guard > 1 && c.pick(12) == 0) break; // note: choice 0 ends, keeping minimised messages small
    auto i = c.pick(static_cast<std::uint32_t>(nf));
    const FieldS &f = i < t->fields.size() ? t->fields[i] : t->exts[i - t->fields.size()];
    if (f.is_msg() && f.card != MAP && o.max_depth <= 0 && c.pick(2)) { --budget; continue; }
    if (f.card == MAP) {
      auto &fl = m->f[f.num]; fl.f = &f;
      auto n = 1 + c.pick(3);
      for (std::uint32_t k = 0; k < n; ++k) {
        Val kv = gen_val(c, f.m->fields[0], o, budget, 0);
        GenOpt g = o; --g.max_depth;
        Val vv = gen_val(c, f.m->fields[1], g, budget, 0);
        auto ks = key_of(f.m->fields[0].kind, kv);
        fl.kv[ks] = {std::move(kv), std::move(vv)};
      }
    } else if (f.card == REP) {
      auto &fl = m->f[f.num]; fl.f = &f;
      std::uint32_t n = f.packable() ? (c.chance(1, 5) ? 12 + c.pick(30) : 1 + c.pick(5)) : 1 + c.pick(3);
      if (o.big && f.packable() && c.chance(1, 8)) n = c.chance(1, 5) ? 4000 + c.pick(4000) : 300 + c.pick(900);
      if (o.big && f.is_len() && !f.is_msg() && c.chance(1, 12)) n = 60 + c.pick(300);
      int before = budget;
      if (n > 20 && !f.is_msg()) { // long runs: cheap pattern
        Val a = gen_val(c, f, o, budget, 0), b = gen_val(c, f, o, budget, 0);
        for (std::uint32_t k = 0; k < n; ++k) fl.v.push_back(k % 3 == 2 ? b : a);
        budget = before - 6;
      } else
        for (std::uint32_t k = 0; k < n; ++k) fl.v.push_back(gen_val(c, f, o, budget, 0));
    } else {
      Val v = gen_val(c, f, o, budget, 0);
      if (f.oneof >= 0) for (auto &x : t->fields) if (x.oneof == f.oneof) m->f.erase(x.num);
      if (f.card == IMP && !f.is_msg() && is_default(f, v)) continue;
      auto &fl = m->f[f.num]; fl.f = &f; fl.v.clear(); fl.v.push_back(std::move(v));
    }
  }
  if (o.unknown && c.chance(1, 2)) {
    auto k = 1 + c.pick(3);
    for (std::uint32_t i = 0; i < k; ++i) {
      std::string s; put_unknown(c, s, t, 2, true);
      std::size_t p = 0; std::uint64_t tg = 0; get_varint(s, p, tg);
      m->unk[static_cast<std::uint32_t>(tg >> 3)] += s;
    }
  }
  fill_required(*m);
  return m;
}
// ---------------------------------------------------------------- damage
std::string damage(Ctx &c, std::string in) {
  auto n = 1 + c.pick(3);
  for (std::uint32_t i = 0; i < n; ++i) {
    auto sz = static_cast<std::uint32_t>(in.size());
    switch (c.pick(9)) {
    case 0: in.resize(sz ? c.pick(sz) : 0); c.fault("truncate"); break;
    case 1: if (sz) { auto p = c.pick(sz); in[p] = static_cast<char>(in[p] ^ (1 << c.pick(8))); c.fault("bit-flip"); } break;
    case 2: if (sz) { in[c.pick(sz)] = static_cast<char>(c.pick(256)); c.fault("byte-overwrite"); } break;
    case 3: { auto p = c.pick(sz + 1); in.insert(p, 1 + c.pick(4), static_cast<char>(c.pick(256))); c.fault("insert"); break; }
    case 4: if (sz) { auto p = c.pick(sz); in.erase(p, 1 + c.pick(4)); c.fault("delete"); } break;
    case 5: if (sz > 1) { auto p = c.pick(sz), l = c.pick(std::min(sz - p, 40u)) + 1; auto s = in.substr(p, l); in.insert(c.pick(sz), s); c.fault("splice"); } break;
    case 6: { auto p = c.pick(sz + 1); in.insert(p, std::string(1 + c.pick(11), static_cast<char>(0xff))); c.fault("endless-varint"); break; }
    case 7: if (sz) { in[c.pick(sz)] = static_cast<char>(c.pick(2) ? 0xff : 0x80 | c.pick(128)); c.fault("high-bit"); } break;
    default: { auto p = c.pick(sz + 1); std::string s; put_varint(s, c.pick(2) ? 0x7fffffffu - c.pick(3) : c.pick(2) ? 0xffffffffu : 0xffffffffffffffffull); in.insert(p, s); c.fault("huge-length"); }
    }
  }
  return in;
}
std::string gen_garbage(Ctx &c, const MsgS *t, int depth) {
  std::string o;
  auto n = 1 + c.pick(depth > 2 ? 3 : 12);
  for (std::uint32_t i = 0; i < n; ++i) {
    std::uint32_t num; unsigned wt = c.pick(8);
    const FieldS *f = nullptr;
    if (c.pick(4) && !t->fields.empty()) { f = &t->fields[c.pick(static_cast<std::uint32_t>(t->fields.size()))]; num = f->num; if (c.pick(3)) wt = c.pick(2) && f->packable() ? 2 : wt_of(f->kind); }
    else num = c.pick(40);
    put_varint(o, static_cast<std::uint64_t>(num) << 3 | wt, c.chance(1, 10) ? 1 : 0);
    switch (wt) {
    case 0: put_varint(o, gen_int(c, 64), c.chance(1, 10) ? static_cast<int>(c.pick(10)) : 0); break;
    case 1: o.append(c.pick(2) ? 8 : c.pick(9), static_cast<char>(c.pick(256))); break;
    case 5: o.append(c.pick(2) ? 4 : c.pick(5), static_cast<char>(c.pick(256))); break;
    case 2: { std::string sub; if (f && f->m && depth < 6 && c.pick(3)) sub = gen_garbage(c, f->m, depth + 1); else { auto l = c.pick(24); for (std::uint32_t k = 0; k < l; ++k) sub += static_cast<char>(c.pick(4) ? c.pick(128) : c.pick(256)); }
      std::uint64_t l = sub.size(); if (c.chance(1, 8)) l += c.pick(3) ? 1 : 0xffffff00u; put_varint(o, l); o += sub; break; }
    case 3: if (f && f->m && depth < 6 && c.pick(2)) o += gen_garbage(c, f->m, depth + 1); if (c.pick(3)) put_varint(o, static_cast<std::uint64_t>(num) << 3 | 4); break;
    default: break;
    }
    if (o.size() > 4000) break;
  }
  return o;
}
std::vector<std::size_t> fragments(Ctx &c, std::size_t n) {
  std::vector<std::size_t> r;
  std::size_t left = n;
  auto empties = c.chance(1, 3);
  auto push = [&](std::size_t k) { if (empties && c.chance(1, 4)) r.push_back(0); k = std::min(k, left); r.push_back(k); left -= k; };
  switch (c.pick(8)) {
  case 0: push(n); break;
  case 1: { auto k = n ? c.pick(static_cast<std::uint32_t>(n) + 1) : 0; push(k); if (left) push(left); break; } // one cut
  case 2: { // k random cuts
    auto k = 2 + c.pick(5); std::vector<std::size_t> cuts;
    for (std::uint32_t i = 0; i < k; ++i) cuts.push_back(c.pick(static_cast<std::uint32_t>(n) + 1));
    std::sort(cuts.begin(), cuts.end()); std::size_t p = 0;
    for (auto x : cuts) { push(x - p); p = x; }
    if (left) push(left);
    break; }
  case 3: if (n <= 300) { while (left) push(1); break; } [[fallthrough]];
  case 4: { auto k = 14 + c.pick(5); while (left) push(k + (n > 4000 ? n / 200 : 0)); break; }
  case 5: while (left) push(1 + c.pick(n > 4000 ? 400 : 40)); break;
  case 6: { auto k = 1 + c.pick(8); while (left) push(k + (n > 4000 ? n / 200 : 0)); break; }
  default: while (left) push(c.pick(3) ? 1 + c.pick(3) : 10 + c.pick(30) + static_cast<std::uint32_t>(n > 4000 ? n / 100 : 0)); break;
  }
  if (r.empty() || (empties && c.chance(1, 4))) r.push_back(0);
  return r;
}
} // namespace hv
