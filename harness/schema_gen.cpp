#include "schema_gen.hpp"
#include <fstream>
#include <functional>
#include <set>
#include <sstream>
namespace hv {
namespace {
enum Syn { P2, P3, E2023, E2024 };
struct EnumM { std::string full; std::vector<std::string> values; int file; bool closed; int feature = 0; };
struct TypeM { // a message type, planned before its fields are drawn
  std::string name, full;
  int file, parent;
  std::vector<int> nested, enums; // indices
  bool set_extensible = false;
};
struct FileP { std::string name, pkg; Syn syn; bool implicit = false, closed = false; Wire feats; std::vector<int> deps, visible; std::vector<bool> pub; std::vector<int> msgs, enums; };
struct Gen {
  sim::Ctx &c;
  const SchemaOpt &o;
  std::vector<FileP> files;
  std::vector<TypeM> types;
  std::vector<EnumM> enums;
  std::set<std::string> scope_names; // every fully qualified symbol
  std::map<int, std::set<std::uint32_t>> ext_numbers; // per extended type
  int budget;
  bool refused; // names that the generator may refuse are drawn as well
  Gen(sim::Ctx &cc, const SchemaOpt &oo) : c(cc), o(oo), budget(oo.size), refused(oo.odd_names && cc.chance(1, 10)) {}
  std::uint32_t n(std::uint32_t k) { return c.pick(k); }
  std::string name(const char *const *common, std::uint32_t k, const char *stem) {
    static const char *odd[] = {"class", "int", "namespace", "template", "default", "std", "operator", "union", "hpp_proto", "value", "unknown_fields", "traits", "message", "true", "this", "NULL", "EOF", "co_await", "char8_t", "std_x", "google", "size", "a1"};
    static const char *bad[] = {"unknown_fields_", "Traits", "x__y", "_x", "std_", "pb_meta"}; // (the generator asks for another name)
    if (refused && c.chance(1, 12)) return bad[n(std::size(bad))];
    if (o.odd_names && c.chance(1, 6)) return odd[n(std::size(odd))];
    if (n(3) == 0) return common[n(k)];
    return std::string(stem) + std::to_string(n(30));
  }
  // a symbol not used yet in the scope
  std::string fresh(const std::string &scope, std::string nm) {
    while (!scope_names.insert(scope + "." + nm).second) nm += "x";
    return nm;
  }
  // not the name of the enclosing declaration (which no C++ class can have as the name of a member)
  std::string apart(const std::string &scope, std::string nm) { return !refused && nm == scope.substr(scope.rfind('.') + 1) ? nm + "In" : nm; }
  static std::string join(const std::string &a, const std::string &b) { return a.empty() ? b : a + "." + b; }

  int new_enum(int file, const std::string &scope, std::vector<std::string> *) {
    static const char *cm[] = {"Color", "Kind", "State"};
    EnumM e;
    auto nm = fresh(scope, apart(scope, name(cm, 3, "E")));
    e.full = scope + "." + nm; e.file = file;
    auto &f = files[static_cast<std::size_t>(file)];
    e.closed = f.syn == P2 || f.closed;
    if (f.syn >= E2023 && c.chance(1, 6)) { e.feature = 1 + static_cast<int>(n(2)); e.closed = e.feature == 2; }
    for (unsigned i = 0, k = 1 + n(4); i < k; ++i) e.values.push_back(fresh(scope, name(cm, 0 + 3, "V") + "_" + std::to_string(i)));
    enums.push_back(e);
    return static_cast<int>(enums.size()) - 1;
  }
  int new_type(int file, int parent, const std::string &scope, int depth) {
    static const char *cm[] = {"Node", "Tree", "Item", "Entry", "Request"};
    TypeM t;
    t.name = fresh(scope, apart(scope, name(cm, 5, "M"))); t.full = scope + "." + t.name; t.file = file; t.parent = parent;
    t.set_extensible = files[static_cast<std::size_t>(file)].syn != P3 && n(4) == 0;
    int me = static_cast<int>(types.size());
    types.push_back(t);
    if (depth < 3) {
      for (unsigned i = 0, k = n(5) / 3 + (n(8) == 0); i < k; ++i) { int x = new_type(file, me, t.full, depth + 1); types[static_cast<std::size_t>(me)].nested.push_back(x); }
      if (n(5) == 0) { int x = new_enum(file, t.full, nullptr); types[static_cast<std::size_t>(me)].enums.push_back(x); }
    }
    return me;
  }
  bool sees(int from, int file) const {
    if (from == file) return true;
    for (int v : files[static_cast<std::size_t>(from)].visible) if (v == file) return true;
    return false;
  }
  std::string json_name(const std::string &s) {
    std::string r; bool up = false;
    for (char ch : s) { if (ch == '_') { up = true; continue; } r += up ? static_cast<char>(toupper(ch)) : ch; up = false; }
    return r;
  }
  std::string string_default() {
    static const char *s[] = {"", "x", "hello world", "quote\" back\\slash", "new\nline", "??/trigraph??)", "*/ /* //", "caf\xc3\xa9", "\x01\x7f", "%s{}{0}", "R\"(x)\"", "0123"};
    return s[n(std::size(s))];
  }
  std::string bytes_default() {
    static const char *s[] = {"", "x", "\\000\\001\\377", "\\\"q\\\\", "a\\nb\\tc", "\\0001", "??=", "\\303\\251"};
    return s[n(std::size(s))];
  }
  std::string number_default(int t) {
    static const char *si32[] = {"0", "-1", "2147483647", "-2147483648", "42"};
    static const char *u32[] = {"0", "1", "4294967295"};
    static const char *si64[] = {"0", "-9223372036854775808", "9223372036854775807", "-5"};
    static const char *u64[] = {"0", "18446744073709551615", "7"};
    static const char *fl[] = {"0", "-0", "1.5", "inf", "-inf", "nan", "1e+10", "-3.25", "1e-05"};
    switch (t) {
    case 1: case 2: return fl[n(9)];
    case 3: case 16: case 18: return si64[n(4)];
    case 4: case 6: return u64[n(3)];
    case 13: case 7: return u32[n(3)];
    default: return si32[n(5)];
    }
  }
  struct Names { std::set<std::string> names, json; std::set<std::uint32_t> nums; std::uint32_t next = 1; };
  std::string field_name(Names &ns) {
    static const char *cm[] = {"id", "name", "child", "next", "values", "type", "data"};
    for (;;) {
      auto s = name(cm, 7, "f_");
      auto lower = s; for (auto &ch : lower) ch = static_cast<char>(tolower(ch));
      s = lower;
      if (s == "_x") s = "x";
      while (!ns.names.insert(s).second || !ns.json.insert(json_name(s)).second) { s += "y"; if (ns.names.count(s)) s += std::to_string(ns.names.size()); }
      return s;
    }
  }
  std::uint32_t field_number(Names &ns) {
    std::uint32_t k = ns.next;
    switch (n(8)) {
    case 0: k = 15 + n(4); break;
    case 1: k = 1 + n(500); break;
    case 2: k = 536870911 - n(4); break;
    case 3: k = 18999 - n(3); break;
    case 4: k = 20000 + n(3); break;
    default:;
    }
    while (ns.nums.count(k) || (k >= 1000 && k <= 1999)) { k = ns.next++; }
    ns.nums.insert(k);
    return k;
  }
  const TypeM *some_type(int file) {
    std::vector<int> v;
    for (std::size_t i = 0; i < types.size(); ++i) if (sees(file, types[i].file)) v.push_back(static_cast<int>(i));
    return v.empty() ? nullptr : &types[static_cast<std::size_t>(v[n(static_cast<std::uint32_t>(v.size()))])];
  }
  const EnumM *some_enum(int file, bool no_closed) {
    std::vector<int> v;
    for (std::size_t i = 0; i < enums.size(); ++i) if (sees(file, enums[i].file) && !(no_closed && enums[i].closed)) v.push_back(static_cast<int>(i));
    return v.empty() ? nullptr : &enums[static_cast<std::size_t>(v[n(static_cast<std::uint32_t>(v.size()))])];
  }
  Wire enum_w(const EnumM &e) {
    Wire w; auto p = e.full.rfind('.');
    w.str(1, e.full.substr(p + 1));
    bool alias = false;
    std::set<std::int64_t> used;
    for (std::size_t i = 0; i < e.values.size(); ++i) {
      std::int64_t v = static_cast<std::int64_t>(i);
      if (i || e.closed) switch (n(6)) { case 0: v = -1 - static_cast<int>(n(3)); break; case 1: v = 100 + n(50); break; case 2: v = 2147483647; break; case 3: v = -2147483648ll; break; default:; }
      if (!used.insert(v).second) alias = true;
      w.msg(2, Wire{}.str(1, e.values[i]).vi(2, static_cast<std::uint64_t>(v)));
    }
    if (alias || e.feature) { Wire op; if (alias) op.vi(2, 1); if (e.feature) op.msg(7, Wire{}.vi(2, static_cast<unsigned>(e.feature))); w.msg(3, op); }
    return w;
  }
  static std::string camel(const std::string &s) { std::string r; bool up = true; for (char ch : s) { if (ch == '_') { up = true; continue; } r += up ? static_cast<char>(toupper(ch)) : ch; up = false; } return r; }
  // draws a type; returns the descriptor type number, sets type_name
  int draw_type(int file, std::string &tn, const EnumM **en, bool msgs, bool no_closed) {
    static const int sc[] = {5, 9, 1, 2, 3, 4, 6, 7, 8, 12, 13, 15, 16, 17, 18};
    auto k = n(10);
    if (k < 4 && msgs) if (auto *t = some_type(file)) { tn = t->full; return 11; }
    if (k < 6) if (auto *e = some_enum(file, no_closed)) { tn = e->full; *en = e; return 14; }
    return sc[n(15)];
  }
  Wire message_w(int ti) {
    TypeM t = types[static_cast<std::size_t>(ti)];
    auto &f = files[static_cast<std::size_t>(t.file)];
    Wire w, tail;
    w.str(1, t.name);
    Names ns;
    for (int x : t.nested) ns.names.insert(types[static_cast<std::size_t>(x)].name);
    for (int x : t.enums) { auto &e = enums[static_cast<std::size_t>(x)]; ns.names.insert(e.full.substr(e.full.rfind('.') + 1)); ns.names.insert(e.values.begin(), e.values.end()); }
    if (!refused) { ns.names.insert(t.name); if (t.set_extensible) ns.names.insert({"get_extension", "set_extension", "has_extension"}); }
    unsigned k = budget > 0 ? n(7) : n(2);
    unsigned wide = c.chance(1, 400) ? 200 + n(150) : 0; // members of one oneof
    if (wide) { k += wide; c.probe("wide oneof"); }
    int oneofs = 0;
    std::vector<std::pair<int, std::string>> synthetic;
    Wire fieldsw; std::vector<std::string> oneof_names;
    int open_oneof = -1, left = 0;
    for (unsigned i = 0; i < k; ++i) {
      --budget;
      if (left == 0) {
        open_oneof = -1;
        if (wide || c.chance(1, 6)) { open_oneof = oneofs++; oneof_names.push_back(fresh(t.full, "pick" + std::to_string(oneofs))); left = 1 + static_cast<int>(wide ? wide : n(3)); wide = 0; ns.names.insert(oneof_names.back()); }
      }
      Wire fw;
      const TypeM *group = nullptr;
      std::string fn;
      if (f.syn == P2 && !t.nested.empty() && c.chance(1, 6)) { // a group, named after its type
        auto &g = types[static_cast<std::size_t>(t.nested[n(static_cast<std::uint32_t>(t.nested.size()))])];
        auto lower = g.name; for (auto &ch : lower) ch = static_cast<char>(tolower(ch));
        if (lower != g.name && !ns.names.count(lower) && !scope_names.count(t.full + "." + lower) && ns.json.insert(json_name(lower)).second) { ns.names.insert(lower); fn = lower; group = &g; }
      }
      if (!group) fn = field_name(ns);
      fresh(t.full, fn);
      fw.str(1, fn).vi(3, field_number(ns));
      int label = 1;
      std::string tn; const EnumM *en = nullptr;
      Wire opts; bool feats = false; Wire ft;
      if (open_oneof >= 0) {
        --left;
        int ty = 10;
        if (group) tn = group->full; else ty = draw_type(t.file, tn, &en, true, f.syn == P3);
        fw.vi(4, 1).vi(5, static_cast<unsigned>(ty));
        if (!tn.empty()) fw.str(6, tn);
        fw.vi(9, static_cast<unsigned>(open_oneof));
      } else if (!group && c.chance(1, 7)) { // map
        static const int kt[] = {5, 9, 3, 4, 6, 7, 8, 13, 15, 16, 17, 18};
        auto en_name = fresh(t.full, camel(fn) + "Entry");
        if (en_name != camel(fn) + "Entry") { // protoc insists on the derived name: make it a plain field instead
          fw.vi(4, 3).vi(5, 5);
        } else {
          Wire key, val, ent;
          key.str(1, "key").vi(3, 1).vi(4, 1).vi(5, static_cast<unsigned>(kt[n(12)])).str(10, "key");
          // (closed enums starting with another value than zero cannot be map values)
          int vt = draw_type(t.file, tn, &en, true, true);
          val.str(1, "value").vi(3, 2).vi(4, 1).vi(5, static_cast<unsigned>(vt));
          if (!tn.empty()) val.str(6, tn);
          val.str(10, "value");
          ent.str(1, en_name).msg(2, key).msg(2, val).msg(7, Wire{}.vi(7, 1));
          tail.msg(3, ent);
          fw.vi(4, 3).vi(5, 11).str(6, t.full + "." + en_name);
        }
      } else {
        int ty = 10;
        if (group) tn = group->full; else ty = draw_type(t.file, tn, &en, true, f.syn == P3 || f.implicit);
        label = n(3) == 0 ? 3 : 1;
        if (f.syn == P2 && label == 1 && c.chance(1, 8)) label = 2;
        fw.vi(4, static_cast<unsigned>(label)).vi(5, static_cast<unsigned>(ty));
        if (!tn.empty()) fw.str(6, tn);
        if (f.syn != P3 && label == 1 && ty != 11 && ty != 10 && !f.implicit && c.chance(1, 3)) {
          if (ty == 14) fw.str(7, en->values[n(static_cast<std::uint32_t>(en->values.size()))]);
          else if (ty == 9) fw.str(7, string_default());
          else if (ty == 12) fw.str(7, bytes_default());
          else if (ty == 8) fw.str(7, n(2) ? "true" : "false");
          else fw.str(7, number_default(ty));
        } else if (f.syn >= E2023 && c.chance(1, 4)) {
          if (label == 1 && ty != 11 && !(ty == 14 && en->closed)) { ft.vi(1, 1 + n(3)); feats = true; }
          else if (label == 3 && ty != 9 && ty != 12 && ty != 11) { ft.vi(3, 1 + n(2)); feats = true; }
          else if (ty == 11 && n(2)) { ft.vi(5, 1 + n(2)); feats = true; }
          if (ty == 9 && n(2)) { ft.vi(4, 2 + n(2)); feats = true; }
        }
        if (f.syn <= P3 && label == 3 && ty != 9 && ty != 10 && ty != 11 && ty != 12 && c.chance(1, 3)) opts.vi(2, n(2));
        if (f.syn == P3 && label == 1 && c.chance(1, 4)) { synthetic.emplace_back(static_cast<int>(i), fn); fw.vi(17, 1); }
        if (c.chance(1, 10)) opts.vi(3, 1);
      }
      if (!synthetic.empty() && synthetic.back().first == static_cast<int>(i)) { // numbered after the real oneofs below
        synthetic.back().first = static_cast<int>(fieldsw.s.size());
        fw.str(10, json_name(fn));
        if (!opts.s.empty()) fw.msg(8, opts);
        fw.vi(9, 0); // patched
        pending.push_back(fw); fieldsw.s += '\0'; order.push_back(-static_cast<int>(pending.size()));
        continue;
      }
      fw.str(10, json_name(fn));
      if (feats) opts.msg(21, ft);
      if (!opts.s.empty()) fw.msg(8, opts);
      plain.push_back(fw); order.push_back(static_cast<int>(plain.size()));
    }
    // fields in order; synthetic oneofs come after the declared ones
    int syn = oneofs;
    for (int x : order) {
      if (x > 0) w.msg(2, plain[static_cast<std::size_t>(x - 1)]);
      else {
        auto fw = pending[static_cast<std::size_t>(-x - 1)];
        fw.s.resize(fw.s.size() - 2); // the provisional index
        fw.vi(9, static_cast<unsigned>(syn++));
        w.msg(2, fw);
      }
    }
    auto syn_names = synthetic;
    plain.clear(); pending.clear(); order.clear();
    for (int x : t.nested) w.msg(3, message_w(x));
    w.s += tail.s;
    for (int x : t.enums) w.msg(4, enum_w(enums[static_cast<std::size_t>(x)]));
    if (t.set_extensible) w.msg(5, Wire{}.vi(1, 1000).vi(2, 2000));
    if (c.chance(1, 6)) if (auto x = extension_w(t.file, t.full); !x.s.empty()) w.msg(6, x);
    for (auto &nm : oneof_names) w.msg(8, Wire{}.str(1, nm));
    for (auto &[p, nm] : syn_names) w.msg(8, Wire{}.str(1, fresh(t.full, "_" + nm)));
    if (c.chance(1, 12)) w.msg(7, Wire{}.vi(3, 1)); // deprecated
    return w;
  }
  std::vector<Wire> plain, pending;
  std::vector<int> order;
  Wire extension_w(int file, const std::string &scope) {
    std::vector<int> v;
    for (std::size_t i = 0; i < types.size(); ++i) if (types[i].set_extensible && sees(file, types[i].file)) v.push_back(static_cast<int>(i));
    Wire w;
    if (v.empty()) return w;
    auto &f = files[static_cast<std::size_t>(file)];
    if (f.syn == P3) return w;
    int e = v[n(static_cast<std::uint32_t>(v.size()))];
    auto &used = ext_numbers[e];
    std::uint32_t k = 1000 + n(1000);
    while (!used.insert(k).second) k = 1000 + (k + 1) % 1000;
    std::string tn; const EnumM *en = nullptr;
    int ty = draw_type(file, tn, &en, true, false);
    auto nm = fresh(scope, "ext_" + std::to_string(k));
    w.str(1, nm).str(2, types[static_cast<std::size_t>(e)].full).vi(3, k).vi(4, n(3) ? 1 : 3).vi(5, static_cast<unsigned>(ty));
    if (!tn.empty()) w.str(6, tn);
    w.str(10, json_name(nm));
    return w;
  }
  std::vector<ProtoFile> run() {
    static const char *fn[] = {"a.proto", "b.proto", "dir/c.proto", "dir/sub/d-e.proto", "z_last.proto", "m.v1.proto", "0first.proto"};
    static const char *pk[] = {"", "pkg", "pkg.sub", "other", "pkg.v1", "std", "x"};
    unsigned nf = 1 + n(o.max_files);
    std::set<std::string> seen;
    for (unsigned i = 0; i < nf; ++i) {
      FileP f;
      f.name = fn[n(7)];
      while (!seen.insert(f.name).second) f.name = "n" + std::to_string(i) + f.name;
      f.pkg = pk[n(7)];
      if (!o.prefix.empty()) { f.name = o.prefix + "/" + f.name; f.pkg = join(o.prefix, f.pkg); if (f.pkg.back() == '.') f.pkg.pop_back(); }
      f.syn = static_cast<Syn>(n(4));
      if (f.syn >= E2023 && c.chance(1, 2)) {
        if (n(3) == 0) { f.feats.vi(1, 2); f.implicit = true; }
        if (n(3) == 0) { f.feats.vi(2, 2); f.closed = true; }
        if (n(3) == 0) f.feats.vi(3, 2);
        if (n(3) == 0) f.feats.vi(4, 3);
        if (n(3) == 0) f.feats.vi(5, 2);
      }
      std::set<int> vis;
      for (unsigned j = 0; j < i; ++j) if (n(2)) {
        f.deps.push_back(static_cast<int>(j)); f.pub.push_back(c.chance(1, 5));
        vis.insert(static_cast<int>(j));
        std::function<void(int)> through = [&](int d) { auto &g = files[static_cast<std::size_t>(d)]; for (std::size_t q = 0; q < g.deps.size(); ++q) if (g.pub[q]) { vis.insert(g.deps[q]); through(g.deps[q]); } };
        through(static_cast<int>(j));
      }
      f.visible.assign(vis.begin(), vis.end());
      files.push_back(f);
      // the components of a package are symbols too
      std::string acc;
      for (std::size_t p = 0, q; !f.pkg.empty() && p <= f.pkg.size(); p = q + 1) { q = f.pkg.find('.', p); if (q == std::string::npos) q = f.pkg.size(); scope_names.insert("." + f.pkg.substr(0, q)); }
    }
    for (auto &f : files) for (auto &s : pk) (void)s, (void)f;
    for (unsigned i = 0; i < nf; ++i) {
      auto scope = files[i].pkg.empty() ? std::string() : "." + files[i].pkg;
      for (unsigned k = 0, m = 1 + n(4); k < m; ++k) { int t = new_type(static_cast<int>(i), -1, scope, 0); files[i].msgs.push_back(t); }
      for (unsigned k = 0, m = n(3); k < m; ++k) { int e = new_enum(static_cast<int>(i), scope, nullptr); files[i].enums.push_back(e); }
    }
    std::vector<ProtoFile> out;
    for (unsigned i = 0; i < nf; ++i) {
      auto &f = files[i];
      auto scope = f.pkg.empty() ? std::string() : "." + f.pkg;
      ProtoFile r; r.name = f.name;
      Wire w; w.str(1, f.name);
      if (!f.pkg.empty()) w.str(2, f.pkg);
      for (int d : f.deps) { w.str(3, files[static_cast<std::size_t>(d)].name); r.deps.push_back(files[static_cast<std::size_t>(d)].name); }
      for (int t : f.msgs) w.msg(4, message_w(t));
      for (int e : f.enums) w.msg(5, enum_w(enums[static_cast<std::size_t>(e)]));
      if (o.services && c.chance(1, 4)) {
        Wire s; s.str(1, fresh(scope, "Service" + std::to_string(n(9))));
        for (unsigned k = 0, m = n(4); k < m; ++k) {
          auto *a = some_type(static_cast<int>(i)), *b = some_type(static_cast<int>(i));
          s.msg(2, Wire{}.str(1, "Call" + std::to_string(k)).str(2, a->full).str(3, b->full).vi(5, n(2)).vi(6, n(2)));
        }
        w.msg(6, s);
      }
      for (unsigned k = 0, m = n(3); k < m; ++k) if (auto x = extension_w(static_cast<int>(i), scope); !x.s.empty()) w.msg(7, x);
      for (std::size_t q = 0; q < f.deps.size(); ++q) if (f.pub[q]) w.vi(10, q);
      if (f.syn == P3) w.str(12, "proto3");
      else if (f.syn >= E2023) {
        w.str(12, "editions").vi(14, f.syn == E2023 ? 1000 : 1001);
        Wire ft = f.feats;
        if (f.syn == E2024) ft.vi(7, 2).vi(8, 1); // any naming style, every symbol visible
        if (!ft.s.empty()) w.msg(8, Wire{}.msg(50, ft));
      }
      for (auto &t : types) if (t.file == static_cast<int>(i)) r.messages.push_back(t.full.substr(1));
      r.bytes = w.s;
      out.push_back(std::move(r));
    }
    return out;
  }
};
bool get_varint(std::string_view &s, std::uint64_t &v) {
  v = 0;
  for (int i = 0; i < 10 && !s.empty(); ++i) { auto b = static_cast<unsigned char>(s[0]); s.remove_prefix(1); v |= static_cast<std::uint64_t>(b & 127) << (7 * i); if (b < 128) return true; }
  return false;
}
template <class F> void each_len(std::string_view s, F fn) { // length-delimited records of a message without groups and fixed fields
  std::uint64_t t, l;
  while (!s.empty() && get_varint(s, t)) {
    if ((t & 7) == 0) { get_varint(s, l); fn(static_cast<std::uint32_t>(t >> 3), std::string_view()); }
    else if ((t & 7) == 2) { get_varint(s, l); fn(static_cast<std::uint32_t>(t >> 3), s.substr(0, l)); s.remove_prefix(std::min<std::size_t>(l, s.size())); }
    else s.remove_prefix(std::min<std::size_t>((t & 7) == 1 ? 8 : 4, s.size()));
  }
}
void type_names(std::string_view m, const std::string &scope, std::vector<std::string> &out) {
  std::string nm; bool entry = false; std::vector<std::string_view> nested;
  each_len(m, [&](auto f, auto v) { if (f == 1) nm = v; if (f == 3) nested.push_back(v); if (f == 7 && v.find("\x38\x01") != v.npos) entry = true; });
  if (entry) return;
  auto full = scope.empty() ? nm : scope + "." + nm;
  out.push_back(full);
  for (auto x : nested) type_names(x, full, out);
}
} // namespace
std::vector<ProtoFile> gen_schema(sim::Ctx &c, const SchemaOpt &o) { return Gen(c, o).run(); }
std::vector<ProtoFile> load_set(const std::string &path) {
  std::ifstream in(path, std::ios::binary);
  std::stringstream ss; ss << in.rdbuf();
  std::string all = ss.str();
  std::vector<ProtoFile> out;
  each_len(all, [&](auto f, auto v) {
    if (f != 1) return;
    ProtoFile p; p.bytes = v;
    std::string pkg; std::vector<std::string_view> ms;
    each_len(v, [&](auto g, auto x) { if (g == 1) p.name = x; if (g == 2) pkg = x; if (g == 3) p.deps.emplace_back(x); if (g == 4) ms.push_back(x); });
    for (auto m : ms) type_names(m, pkg, p.messages);
    out.push_back(std::move(p));
  });
  return out;
}
std::string make_request(const std::vector<const ProtoFile *> &files, const std::vector<std::string> &to_generate, std::string_view parameter) {
  Wire w;
  for (auto &g : to_generate) w.str(1, g);
  if (!parameter.empty()) w.str(2, parameter);
  for (auto *f : files) w.str(15, f->bytes);
  w.msg(3, Wire{}.vi(1, 5).vi(2, 29).vi(3, 3).str(4, ""));
  return w.s;
}
} // namespace hv
