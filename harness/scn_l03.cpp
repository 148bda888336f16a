// L03: any bytes as the request.
#include "descr_mut.hpp"
#include "plugin_common.hpp"
#include <algorithm>
#include <cctype>
#include <csignal>
#include <functional>
#include <set>
#include <sys/wait.h>
using namespace hv;
using namespace sim;
namespace {
const MsgS *request_type() { static const MsgS *t = descriptor_type("google.protobuf.compiler.CodeGeneratorRequest"); return t; }
std::string odd_parameter(Ctx &c, const std::vector<ProtoFile> &fs) {
  static const char *k[] = {"namespace_prefix", "directory_prefix", "preserve_proto_field_names", "proto2_explicit_presence", "export_request", "string_keyed_map", "numeric_keyed_map", "", "nonsense"};
  static const char *v[] = {"", "a.b", "a..b", ".", "/", "../../x", "class", "int x; //", "true", "false", "1", "\"", "\\", "\n", "a b", "::", "a::b", ".pkg", "..", "\xff", "/sim/export.bin", "/sim/none/x", "hpp_proto::flat_map", "<x>"};
  std::string p = c.pick(2) ? draw_parameter(c, fs) : "";
  for (unsigned i = 0, n = 1 + c.pick(4); i < n; ++i) { if (!p.empty() || c.pick(8) == 0) p += ','; p += k[c.pick(9)]; if (c.pick(8)) p += '='; p += v[c.pick(24)]; }
  if (c.chance(1, 12)) p += "," + std::string(c.pick(5000), "a,=."[c.pick(4)]);
  return p;
}
struct Base { std::vector<ProtoFile> fs; std::string bytes; bool keeps_names = false; };
Base base(Ctx &c, bool odd) {
  Base b; b.fs = draw_schema(c, c.pick(2));
  auto n = names(b.fs);
  std::vector<std::string> gen;
  for (auto &x : n) if (c.pick(3)) gen.push_back(x);
  if (gen.empty()) gen.push_back(n.back());
  auto param = odd ? odd_parameter(c, b.fs) : draw_parameter(c, b.fs);
  if (param.find("export_request=") != param.npos && param.find("export_request=/sim/") == param.npos) param = "export_request="; // nothing outside the simulation is written
  b.bytes = make_request(ptrs(b.fs), gen, param);
  b.keeps_names = param.find("preserve_proto_field_names") != param.npos;
  return b;
}
// Texts of the request may only appear inside literals and comments. Returns what is wrong with a generated file.
constexpr const char *kMark = "zqxqz";
std::string lex(const std::string &t) {
  auto line = [&](std::size_t i) { return " at line " + std::to_string(1 + std::count(t.begin(), t.begin() + static_cast<std::ptrdiff_t>(std::min(i, t.size())), '\n')) + ": " + t.substr(t.rfind('\n', i) + 1, 160); };
  auto word = [](char ch) { return isalnum(static_cast<unsigned char>(ch)) || ch == '_'; };
  for (std::size_t i = 0; i < t.size();) {
    if (t.compare(i, 2, "//") == 0) { while (i < t.size() && t[i] != '\n') { if (t[i] == '\\' && i + 1 < t.size() && t[i + 1] == '\n') ++i; ++i; } continue; }
    if (t.compare(i, 2, "/*") == 0) { auto e = t.find("*/", i + 2); if (e == t.npos) return "unterminated comment" + line(i); i = e + 2; continue; }
    if (t[i] == 'R' && i + 1 < t.size() && t[i + 1] == '"' && (i == 0 || !word(t[i - 1]))) { auto p = t.find('(', i); auto d = ")" + t.substr(i + 2, p - i - 2) + "\""; auto e = t.find(d, p); if (e == t.npos) return "unterminated raw string" + line(i); i = e + d.size(); continue; }
    if (t[i] == '"' || (t[i] == '\'' && (i == 0 || !word(t[i - 1])))) {
      char q = t[i]; auto b = i++;
      while (i < t.size() && t[i] != q) { if (t[i] == '\n') return "unterminated literal" + line(b); i += t[i] == '\\' ? 2 : 1; }
      if (i >= t.size()) return "unterminated literal" + line(b);
      ++i; continue;
    }
    if (t.compare(i, 5, kMark) == 0) return "text of the request became code" + line(i);
    if (static_cast<unsigned char>(t[i]) >= 128 || (static_cast<unsigned char>(t[i]) < 32 && t[i] != '\n' && t[i] != '\t' && t[i] != '\r')) return "stray byte" + line(i);
    ++i;
  }
  return "";
}
// The values a compiler gives to the string literals of a generated file (neighbouring literals are one). Assumes that lex() passed.
std::vector<std::string> literals(const std::string &t) {
  std::vector<std::string> r;
  auto word = [](char ch) { return isalnum(static_cast<unsigned char>(ch)) || ch == '_'; };
  bool joins = false; // only blanks and comments since the last literal
  for (std::size_t i = 0; i < t.size();) {
    if (t.compare(i, 2, "//") == 0) { while (i < t.size() && t[i] != '\n') { if (t[i] == '\\' && i + 1 < t.size() && t[i + 1] == '\n') ++i; ++i; } continue; }
    if (t.compare(i, 2, "/*") == 0) { i = t.find("*/", i + 2) + 2; continue; }
    if (t[i] == 'R' && i + 1 < t.size() && t[i + 1] == '"' && (i == 0 || !word(t[i - 1]))) { auto p = t.find('(', i); auto d = ")" + t.substr(i + 2, p - i - 2) + "\""; auto e = t.find(d, p); r.push_back(t.substr(p + 1, e - p - 1)); i = e + d.size(); joins = false; continue; }
    if (t[i] == '\'' && (i == 0 || !word(t[i - 1]))) { ++i; while (t[i] != '\'') i += t[i] == '\\' ? 2 : 1; ++i; joins = false; continue; }
    if (t[i] == '"') {
      std::string v;
      for (++i; t[i] != '"';) {
        if (t[i] != '\\') { v += t[i++]; continue; }
        char e = t[++i]; ++i;
        static const char from[] = "abfnrtv", to[] = "\a\b\f\n\r\t\v";
        if (auto *k = static_cast<const char *>(memchr(from, e, 7))) v += to[k - from];
        else if (e >= '0' && e <= '7') { unsigned x = static_cast<unsigned>(e - '0'); for (int d = 0; d < 2 && t[i] >= '0' && t[i] <= '7'; ++d) x = x * 8 + static_cast<unsigned>(t[i++] - '0'); v += static_cast<char>(x); }
        else if (e == 'x') { unsigned x = 0; while (isxdigit(static_cast<unsigned char>(t[i]))) { char h[2] = {t[i++], 0}; x = x * 16 + static_cast<unsigned>(strtoul(h, nullptr, 16)); } v += static_cast<char>(x); }
        else if (e == 'u' || e == 'U') { auto n = e == 'u' ? 4u : 8u; auto x = strtoul(t.substr(i, n).c_str(), nullptr, 16); i += n; if (x < 0x80) v += static_cast<char>(x); else if (x < 0x800) { v += static_cast<char>(0xc0 | x >> 6); v += static_cast<char>(0x80 | (x & 63)); } else if (x < 0x10000) { v += static_cast<char>(0xe0 | x >> 12); v += static_cast<char>(0x80 | (x >> 6 & 63)); v += static_cast<char>(0x80 | (x & 63)); } else { v += static_cast<char>(0xf0 | x >> 18); v += static_cast<char>(0x80 | (x >> 12 & 63)); v += static_cast<char>(0x80 | (x >> 6 & 63)); v += static_cast<char>(0x80 | (x & 63)); } }
        else v += e;
      }
      ++i;
      if (joins) r.back() += v; else r.push_back(v);
      joins = true;
      continue;
    }
    if (!isspace(static_cast<unsigned char>(t[i]))) joins = false;
    ++i;
  }
  return r;
}
std::string show_text(const std::string &s) { std::string r = "\""; for (unsigned char ch : s.substr(0, 300)) { char t[8]; if (ch < 32 || ch > 126) snprintf(t, sizeof t, "<%02x>", ch); else snprintf(t, sizeof t, "%c", ch); r += t; } return r + "\""; }
// (The library's own descriptor types keep no presence of most fields: what has the default value counts as absent.)
void drop_defaults(Msg &m) {
  for (auto it = m.f.begin(); it != m.f.end();) {
    auto &fl = it->second;
    for (auto &v : fl.v) if (v.m) drop_defaults(*v.m);
    if (fl.f->card < REP && !fl.f->is_msg() && !fl.v.empty() && (fl.f->is_len() ? fl.v[0].s == fl.f->dflts : fl.v[0].u == fl.f->dflt)) it = m.f.erase(it); else ++it;
  }
}
// Every file to be generated has its descriptor among the literals, and every text that was put in is there as it was given.
void read_back(Ctx &c, Msg &root, const PluginResult &r, const std::vector<std::pair<std::string, std::string>> &texts) {
  auto a = parse_response(r.out);
  if (!a.valid || a.has_error) return;
  std::vector<std::string> all;
  for (auto &[n, t] : a.files) for (auto &v : literals(t)) all.push_back(std::move(v));
  std::vector<Msg *> want;
  for (auto &g : root.f[1].v) for (auto &f : root.f[15].v) if (f.m->f.count(1) && f.m->f[1].v[0].s == g.s) want.push_back(f.m.get());
  for (auto *w : want) {
    auto given = clone(*w); given->f.erase(9); drop_defaults(*given);
    std::string why = "no literal holds it"; bool found = false;
    for (auto &v : all) {
      Msg d; d.t = w->t;
      if (v.size() < 3 || v[0] != '\n' || !ref_decode(v, d, RefOpt{}) || !d.f.count(1) || d.f[1].v[0].s != w->f[1].v[0].s) continue;
      drop_defaults(d);
      auto df = diff(*given, d);
      if (df.empty()) { found = true; break; }
      why = df;
    }
    if (!found) c.fail("descriptor-text", "the descriptor of %s is not what the generated code says: %s", w->f[1].v[0].s.c_str(), why.c_str());
    c.probe("descriptor read back");
  }
  for (auto &[what, v] : texts) if (!v.empty()) {
    if (std::find(all.begin(), all.end(), v) == all.end()) c.fail("text-altered", "%s %s is not what the generated code says", what.c_str(), show_text(v).c_str());
    c.probe("text read back");
  }
}
// The headers made for a file are the four that the documentation names, and what they include from each other is there.
void whole(Ctx &c, const PluginPlan &p, const Response &a) {
  Msg root; root.t = request_type();
  if (!ref_decode(p.input, root, RefOpt{})) return;
  std::set<std::string> made;
  for (auto &[n, t] : a.files) if (!made.insert(n).second) c.fail("file-twice", "%s is generated twice", n.c_str());
  for (auto &g : root.f[1].v) {
    if (g.s.size() < 6 || g.s.compare(g.s.size() - 6, 6, ".proto") != 0) continue;
    auto stem = g.s.substr(0, g.s.size() - 6);
    for (auto *x : {".msg.hpp", ".pb.hpp", ".glz.hpp", ".desc.hpp"}) if (!made.count(stem + x)) c.fail("file-missing", "success, but %s%s, which others include, is not generated for %s", stem.c_str(), x, g.s.c_str());
    c.probe("all headers of a file are there");
  }
}
void judge(Ctx &c, const PluginPlan &p, const PluginResult &r, const char *what, bool oom) {
  c.ev("%s of %zu bytes -> %s, out %zu, peak %llu", what, p.input.size(), r.how().c_str(), r.out.size(), static_cast<unsigned long long>(r.peak));
  bool signal = WIFSIGNALED(r.status);
  if (signal && !(oom && r.alloc_failed && WTERMSIG(r.status) == SIGABRT)) c.fail("crash", "the generator ended with %s (%s): %s", r.how().c_str(), what, r.err.substr(0, 1500).c_str());
  auto limit = (4u << 20) + 4000 * p.input.size();
  if (r.out.size() > limit) c.fail("output-unbounded", "%zu bytes of output for a request of %zu (%s)", r.out.size(), p.input.size(), what);
  if (r.peak > (64u << 20) + 20000 * p.input.size()) c.fail("memory-unbounded", "%llu bytes of memory for a request of %zu (%s)", static_cast<unsigned long long>(r.peak), p.input.size(), what);
  if (r.ok()) {
    auto a = parse_response(r.out);
    if (!a.valid) c.fail("bad-response", "success, but what was written (%zu bytes) is not a response (%s)", r.out.size(), what);
    c.probe(a.has_error ? "answered-with-error" : "answered-with-code");
    for (auto &[n, t] : a.files) if (auto e = lex(t); !e.empty()) c.fail("not-encoded", "%s: %s (%s)", n.c_str(), e.c_str(), what);
    if (!a.has_error) whole(c, p, a);
  } else c.probe(signal ? "ended-by-abort" : "ended-with-failure");
  c.state(mix(r.status, hash_bytes(r.out.data(), std::min<std::size_t>(r.out.size(), 300))));
  c.step();
}
// Bytes that are no request at all. (What still decodes after damage is a request with inconsistent descriptors, which
// the generator trusts protoc not to send.)
void damaged(Ctx &c) {
  auto b = base(c, c.pick(4) == 0);
  for (unsigned k = 0; k < 4; ++k) {
    PluginPlan p;
    switch (c.pick(5)) {
    case 0: p.input = gen_garbage(c, request_type()); break;
    case 1: { p.input = b.bytes; auto o = base(c, false); auto at = c.pick(static_cast<std::uint32_t>(p.input.size() + 1)); p.input = p.input.substr(0, at) + o.bytes.substr(std::min<std::size_t>(o.bytes.size(), c.pick(3) ? at : c.pick(static_cast<std::uint32_t>(o.bytes.size())))); c.fault("two-requests-spliced"); break; }
    default: p.input = damage(c, b.bytes);
    }
    Msg m; m.t = request_type();
    RefOpt ro; ro.limit = 1000; // (nesting limits are another matter)
    if (ref_decode(p.input, m, ro)) { c.probe("still-a-request"); continue; }
    p.by_file = c.pick(3) == 0;
    auto r = run_plugin(c, p);
    judge(c, p, r, "damaged request", false);
    if (r.ok()) c.fail("garbage-accepted", "success for %zu bytes that are no request", p.input.size());
    if (!r.out.empty()) c.fail("garbage-answered", "%zu bytes were written for something that is no request", r.out.size());
    c.nontrivial();
  }
}
// hostile texts in a well-formed request: every string that protoc passes through unchecked
std::string hostile(Ctx &c) {
  static const char *s[] = {"", "\"", "\\", "\n", "*/", "/*", "//", "??/", "??)", "\"; system(\"x\"); //", ")\"", "R\"(", ")x\"", "%s%n", "{}", "{0}", "}}", "\\x41", "\\777", "\x01", "\x7f", "\xc3\xa9", "\xe2\x80\xa8", "#include <x>", "\r\n", "\\\n", "\xff", "a b", "<", ">", "&", "'", "@@protoc_insertion_point(includes)", "NOLINTEND", kMark, kMark};
  std::string r;
  for (unsigned i = 0, n = 1 + c.pick(5); i < n; ++i) { if (c.chance(1, 6)) r += std::string(c.pick(3000), "a\\\"\n"[c.pick(4)]); r += c.chance(1, 15) ? std::string(1, '\0') : std::string(s[c.pick(std::size(s))]); }
  return r;
}
void texts(Ctx &c) {
  auto b = base(c, false);
  Msg root; root.t = request_type();
  if (!ref_decode(b.bytes, root, RefOpt{})) c.fail("harness", "a made request does not decode");
  unsigned edits = 0;
  std::vector<std::pair<std::string, std::string>> said; bool generated = false, json = false, known = false; // known: the JSON of well-known types is special
  auto put = [&](Msg &m, std::uint32_t num, const std::string &v) { auto &f = m.f[num]; f.f = m.t->find(num, false); Val x; x.s = v; f.v = {x}; ++edits; };
  auto sub = [&](Msg &m, std::uint32_t num) -> Msg & { auto &f = m.f[num]; f.f = m.t->find(num, false); if (f.v.empty()) { Val x; x.m = std::make_shared<Msg>(); x.m->t = f.f->m; f.v = {x}; } return *f.v[0].m; };
  bool proto3 = false;
  std::function<void(Msg &)> walk = [&](Msg &m) {
    std::string n = m.t->name;
    if (n == "google.protobuf.DescriptorProto") json = !b.keeps_names && !(m.f.count(7) && m.f[7].v[0].m->f.count(7)); // (entries of maps have no JSON names)
    if (n == "google.protobuf.FileDescriptorProto") { generated = false; for (auto &g : root.f[1].v) generated |= g.s == m.f[1].v[0].s; }
    if (n == "google.protobuf.FileDescriptorProto") known = m.f.count(2) && !m.f[2].v.empty() && m.f[2].v[0].s == "google.protobuf";
    if (n == "google.protobuf.FileDescriptorProto") proto3 = m.f.count(12) && !m.f[12].v.empty() && m.f[12].v[0].s == "proto3";
    if (n == "google.protobuf.FieldDescriptorProto") {
      auto ty = m.f.count(5) && !m.f[5].v.empty() ? m.f[5].v[0].u : 0;
      bool may = m.f.count(7) || (!proto3 && !m.f.count(8) && !m.f.count(9) && m.f.count(4) && m.f[4].v[0].u == 1 && (!m.f.count(1) || (m.f[1].v[0].s != "key" && m.f[1].v[0].s != "value")));
      if (may && ty == 9 && c.pick(2)) { auto h = hostile(c); put(m, 7, h); c.fault("default-string"); if (generated && !m.f.count(9)) said.emplace_back("the default of a string", h); }
      if (may && ty == 12 && c.pick(2)) { // (bytes are escaped by protoc)
        std::string e, h = hostile(c); for (unsigned char ch : h) { char t[8]; if (ch == '"' || ch == '\\' || ch < 32 || ch > 126) { snprintf(t, sizeof t, "\\%03o", ch); e += t; } else e += static_cast<char>(ch); }
        put(m, 7, e); c.fault("default-bytes"); if (generated && !m.f.count(9)) said.emplace_back("the default of bytes", h);
      }
      if (c.chance(1, 15)) { auto h = "j" + hostile(c) + std::to_string(edits); put(m, 10, h); c.fault("json-name"); if (generated && json && !known && !m.f.count(2)) said.emplace_back("the JSON name", h); }
    }
    if (n == "google.protobuf.FileDescriptorProto") {
      if (c.chance(1, 3)) { // comments
        auto &info = sub(m, 9); auto &locs = info.f[1]; locs.f = info.t->find(1, false);
        for (unsigned k = 0, q = 1 + c.pick(4); k < q; ++k) {
          Val l; l.m = std::make_shared<Msg>(); l.m->t = locs.f->m;
          put(*l.m, 3, hostile(c)); put(*l.m, 4, hostile(c));
          auto &path = l.m->f[1]; path.f = locs.f->m->find(1, false);
          for (unsigned d = c.pick(6); d--;) { Val x; x.u = c.pick(2) ? c.pick(9) : c.pick(4000000); path.v.push_back(x); }
          locs.v.push_back(l);
        }
        c.fault("comments");
      }
      if (c.chance(1, 3)) { auto &o = sub(m, 8); for (auto k : {1u, 8u, 11u, 36u, 37u, 39u, 41u}) if (c.pick(3) == 0) put(o, k, hostile(c)); c.fault("file-options"); }
    }
    if (n == "google.protobuf.compiler.Version" && c.pick(2)) put(m, 4, hostile(c));
    for (auto &[k, f] : m.f) for (std::size_t i = 0; i < f.v.size(); ++i) if (f.v[i].m) walk(*f.v[i].m);
  };
  walk(root);
  PluginPlan p; p.input = encode_canonical(root);
  auto r = run_plugin(c, p);
  c.ev("%u texts", edits);
  judge(c, p, r, "hostile texts", false);
  if (r.ok()) read_back(c, root, r, said);
  if (!r.ok()) c.fail("refused", "a well-formed request with unusual texts ended with %s: %s", r.how().c_str(), r.err.substr(0, 500).c_str());
  c.nontrivial();
}
// extreme but valid: deep nesting, long names, long chains of imports, many fields, large enums
void extremes(Ctx &c) {
  std::vector<ProtoFile> fs;
  std::string kind;
  auto field = [](std::string n, std::uint32_t num, int label, int ty, std::string tn = "") { Wire w; w.str(1, n).vi(3, num).vi(4, static_cast<unsigned>(label)).vi(5, static_cast<unsigned>(ty)); if (!tn.empty()) w.str(6, tn); w.str(10, n); return w; };
  auto file = [&](std::string name, std::string pkg, const Wire &body, std::vector<std::string> deps = {}) { ProtoFile f; f.name = name; Wire w; w.str(1, name); if (!pkg.empty()) w.str(2, pkg); for (auto &d : deps) w.str(3, d); w.s += body.s; w.str(12, "proto3"); f.bytes = w.s; f.deps = deps; fs.push_back(f); };
  switch (c.pick(8)) {
  case 7: { // names of files
    static const char *fn[] = {"a b.proto", "a\"b.proto", "d\"/x.proto", "a'b.proto", "-x.proto", "\xc3\xa9.proto", "a\\b.proto", "d\\", ".proto", "noext", "x.y.z.proto", "a\nb.proto", "a>b.proto", "a//b.proto", "./a.proto", "../a.proto", "/a.proto", "a%s.proto", "a{}.proto", "zqxqz\".proto", "a\n#error zqxqz\n.proto", "CON.proto", "a\x01.proto"};
    kind = "file-names";
    std::string f1 = fn[c.pick(std::size(fn))], f2 = fn[c.pick(std::size(fn))];
    if (f1 == f2) f2 = "x" + f2;
    Wire m; m.str(1, "A"); Wire b; b.msg(4, m); file(f1, "n1", b);
    Wire m2; m2.str(1, "B").msg(2, field("f", 1, 1, 11, ".n1.A")); Wire b2; b2.msg(4, m2); file(f2, "n2", b2, {f1});
    break;
  }
  case 0: { // nesting (protoc's parser allows 32 levels)
    unsigned n = 2 + c.pick(30); kind = "nesting";
    std::string full = ".deep"; for (unsigned i = 0; i < n; ++i) full += ".M" + std::to_string(i);
    Wire w; bool first = true;
    for (unsigned i = n; i-- > 0;) { Wire d; d.str(1, "M" + std::to_string(i)); if (c.pick(3)) d.msg(2, field("up", 1, 1, 11, ".deep.M0")); if (c.pick(3)) d.msg(2, field("down", 2, 3, 11, full)); if (!first) d.msg(3, w); w = d; first = false; }
    Wire b; b.msg(4, w); file("deep.proto", "deep", b); break;
  }
  case 1: { // names
    kind = "long-names";
    auto nm = [&](const char *h) { return h + std::string(1 + c.pick(4000), 'a'); };
    Wire m; auto t = nm("M"); m.str(1, t); for (unsigned i = 1; i < 6; ++i) m.msg(2, field(nm("f") + std::to_string(i), i, i & 1 ? 1 : 3, i % 3 ? 5 : 11, i % 3 ? "" : "." + t));
    Wire b; b.msg(4, m); file(nm("d") + ".proto", "", b); break;
  }
  case 2: { // imports
    unsigned n = 2 + c.pick(300); kind = "import-chain";
    for (unsigned i = 0; i < n; ++i) { Wire m; m.str(1, "M" + std::to_string(i)); if (i) m.msg(2, field("f", 1, 1, 11, ".imp.M" + std::to_string(i - 1))); Wire b; b.msg(4, m); file("f" + std::to_string(i) + ".proto", "imp", b, i ? std::vector<std::string>{"f" + std::to_string(i - 1) + ".proto"} : std::vector<std::string>{}); }
    break;
  }
  case 3: { // fields
    unsigned n = 100 + c.pick(1500); kind = "many-fields";
    Wire m; m.str(1, "M"); for (unsigned i = 0; i < n; ++i) m.msg(2, field("f" + std::to_string(i), (i < 18000 ? 1 : 3000) + i * (c.pick(2) ? 1 : 1), c.pick(3) ? 1 : 3, c.pick(3) ? 5 : 9));
    Wire b; b.msg(4, m); file("many.proto", "many", b); break;
  }
  case 4: { // enum values
    unsigned n = 100 + c.pick(2000); kind = "large-enum";
    Wire e; e.str(1, "E"); for (unsigned i = 0; i < n; ++i) e.msg(2, Wire{}.str(1, "V" + std::to_string(i)).vi(2, i * (n & 1 ? 1u : 977u)));
    Wire b; b.msg(5, e); file("enum.proto", "en", b); break;
  }
  case 5: { // messages that refer to each other
    unsigned n = 5 + c.pick(60); kind = "mutual-references";
    Wire b; for (unsigned i = 0; i < n; ++i) { Wire m; m.str(1, "M" + std::to_string(i)); for (unsigned k = 1; k < 5; ++k) m.msg(2, field("f" + std::to_string(k), k, c.pick(2) ? 1 : 3, 11, ".mut.M" + std::to_string(c.pick(n)))); b.msg(4, m); }
    file("mut.proto", "mut", b); break;
  }
  default: { // package of many components, maps of messages
    unsigned n = 1 + c.pick(100); kind = "deep-package";
    std::string pkg; for (unsigned i = 0; i < n; ++i) pkg += (i ? "." : "") + std::string("p") + std::to_string(i);
    Wire m; m.str(1, "M"); Wire en; en.str(1, "FEntry").msg(2, field("key", 1, 1, 9)).msg(2, field("value", 2, 1, 11, "." + pkg + ".M")).msg(7, Wire{}.vi(7, 1));
    m.msg(2, field("f", 1, 3, 11, "." + pkg + ".M.FEntry")).msg(3, en);
    Wire b; b.msg(4, m); file("pkg.proto", pkg, b);
  }
  }
  c.probe(kind.c_str());
  PluginPlan p; p.input = make_request(ptrs(fs), c.pick(2) ? names(fs) : std::vector<std::string>{fs.back().name}, c.pick(2) ? "" : draw_parameter(c, fs));
  auto r = run_plugin(c, p);
  judge(c, p, r, kind.c_str(), false);
  if (!r.ok()) c.fail("refused", "a valid request (%s) ended with %s: %s", kind.c_str(), r.how().c_str(), r.err.substr(0, 500).c_str());
  c.nontrivial();
}
void options(Ctx &c) {
  for (unsigned k = 0; k < 3; ++k) { auto b = base(c, true); PluginPlan p; p.input = b.bytes; judge(c, p, run_plugin(c, p), "odd options", false); }
  c.nontrivial();
}
void memory(Ctx &c) {
  auto b = base(c, false);
  PluginPlan p; p.input = b.bytes;
  auto r0 = run_plugin(c, p);
  judge(c, p, r0, "request", false);
  for (unsigned k = 0; k < 3; ++k) {
    p.alloc_fail = c.pick(static_cast<std::uint32_t>(std::max<std::uint64_t>(1, r0.allocs)));
    p.alloc_span = c.pick(3) ? 1 : 1 + c.pick(3);
    auto r = run_plugin(c, p);
    if (r.alloc_failed) c.fault("allocation-failure");
    judge(c, p, r, "request without memory", true);
  }
  c.nontrivial();
}
} // namespace
SIM_SCENARIO("L03", "damaged", 3, damaged)
SIM_SCENARIO("L03", "hostile-texts", 3, texts)
SIM_SCENARIO("L03", "extremes", 2, extremes)
SIM_SCENARIO("L03", "odd-options", 1, options)
SIM_SCENARIO("L03", "out-of-memory", 2, memory)
