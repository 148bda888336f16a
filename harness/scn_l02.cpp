// L02: the same schema and options give the same code, whatever else differs between two runs.
#include "plugin_common.hpp"
#include <map>
using namespace hv;
using namespace sim;
namespace {
using Files = std::map<std::string, std::string>;
struct World { std::vector<const ProtoFile *> all; std::vector<const ProtoFile *> own; std::string parameter; };
Files by_name(Ctx &c, const Response &r) {
  Files f;
  for (auto &[n, t] : r.files) if (!f.emplace(n, t).second) c.fail("twice", "%s is generated twice in one run", n.c_str());
  return f;
}
std::vector<const ProtoFile *> closure(const std::vector<const ProtoFile *> &all, const std::vector<std::string> &of) {
  std::set<std::string> want(of.begin(), of.end());
  for (bool more = true; more;) { more = false; for (auto *f : all) if (want.count(f->name)) for (auto &d : f->deps) more |= want.insert(d).second; }
  std::vector<const ProtoFile *> r;
  for (auto *f : all) if (want.count(f->name)) r.push_back(f);
  return r;
}
// a drawn order in which every file still follows its imports
std::vector<const ProtoFile *> reorder(Ctx &c, std::vector<const ProtoFile *> v) {
  std::vector<const ProtoFile *> r;
  std::set<std::string> done, have;
  for (auto *f : v) have.insert(f->name);
  while (!v.empty()) {
    std::vector<std::size_t> ready;
    for (std::size_t i = 0; i < v.size(); ++i) { bool ok = true; for (auto &d : v[i]->deps) ok &= done.count(d) || !have.count(d); if (ok) ready.push_back(i); }
    auto i = ready[c.pick(static_cast<std::uint32_t>(ready.size()))];
    r.push_back(v[i]); done.insert(v[i]->name);
    v.erase(v.begin() + static_cast<std::ptrdiff_t>(i));
  }
  return r;
}
template <class T> void shuffle(Ctx &c, std::vector<T> &v) { for (std::size_t i = 0; i + 1 < v.size(); ++i) std::swap(v[i], v[i + c.pick(static_cast<std::uint32_t>(v.size() - i))]); }
void elsewhere(Ctx &c, PluginPlan &p, std::string &what) { // another process in another environment
  if (c.pick(4)) { p.heap_seed = c.bits64() | 1; what += " heap"; c.fault("heap-placement"); }
  if (c.pick(2)) { p.stack_seed = c.bits64() | 1; what += " stack"; c.fault("stack-placement"); }
  if (c.pick(2)) { p.now = 1 + static_cast<std::int64_t>(c.pick(2000000000)); p.pid = 1 + c.pick(60000); what += " clock"; c.fault("clock-and-pid"); }
  if (c.pick(2)) {
    static const char *dirs[] = {"/usr/bin/", "./", "", "/opt/a b/"};
    p.argv0 = std::string(dirs[c.pick(4)]) + "protoc-gen-hpp";
    static const char *k[] = {"LANG", "LC_ALL", "TZ", "HOME", "PWD", "SOURCE_DATE_EPOCH", "TMPDIR", "USER"}, *v[] = {"C", "de_DE.UTF-8", "tr_TR.UTF-8", "", "/nonexistent", "1", "UTC+12"};
    for (unsigned i = 0, n = c.pick(5); i < n; ++i) p.env.emplace_back(k[c.pick(8)], v[c.pick(7)]);
    p.cwd = c.pick(2) ? "/" : "/tmp";
    what += " environment"; c.fault("environment");
  }
  if (c.pick(3) == 0) { draw_pieces(c, p.in); draw_pieces(c, p.out); what += " transfers"; c.fault("short-transfer"); }
}
std::string where(const std::string &a, const std::string &b) {
  std::size_t i = 0; int line = 1;
  while (i < a.size() && i < b.size() && a[i] == b[i]) { line += a[i] == '\n'; ++i; }
  auto cut = [&](const std::string &s) { auto q = s.rfind('\n', i ? i - 1 : 0); q = q == std::string::npos ? 0 : q + 1; auto r = s.substr(std::min(q, s.size()), 160); auto e = r.find('\n'); return r.substr(0, e); };
  return "line " + std::to_string(line) + ": `" + cut(a) + "' / `" + cut(b) + "'";
}
void run(Ctx &c, bool unrelated) {
  auto fs = draw_schema(c);
  std::vector<ProtoFile> other;
  if (unrelated) { SchemaOpt o; o.size = 8; o.max_files = 3; o.prefix = "unrel"; o.odd_names = false; other = gen_schema(c, o); }
  auto param = draw_parameter(c, fs);
  if (unrelated) { // they must be acceptable themselves: a request with a refused file in it is refused
    PluginPlan q;
    q.input = make_request(ptrs(other), names(other), param);
    auto r = run_plugin(c, q);
    if (!r.ok() || parse_response(r.out).has_error) { c.probe("unrelated-refused"); return; }
  }
  auto own = ptrs(fs);
  PluginPlan p0;
  p0.input = make_request(own, names(fs), param);
  auto r0 = run_plugin(c, p0);
  if (!r0.ok()) c.fail("failed", "a well-formed request ended with %s: %s", r0.how().c_str(), r0.err.substr(0, 800).c_str());
  auto a0 = parse_response(r0.out);
  if (!a0.valid) c.fail("bad-response", "a successful run wrote %zu bytes that are not a response", r0.out.size());
  auto f0 = by_name(c, a0);
  c.ev("%zu files in, %zu out, %zu bytes%s", fs.size(), f0.size(), r0.out.size(), a0.has_error ? (", error: " + a0.error).substr(0, 150).c_str() : "");
  c.probe(a0.has_error ? "answered-with-error" : "answered-with-code");
  for (unsigned k = 0; k < 3; ++k) {
    PluginPlan p;
    std::string what;
    elsewhere(c, p, what);
    c.step();
    if (a0.has_error || c.pick(4) == 0) { // the very same request
      p.input = p0.input;
      auto r = run_plugin(c, p);
      c.ev("again:%s", what.c_str());
      if (!r.ok()) c.fail("failed", "the same request ended with %s (%s): %s", r.how().c_str(), what.c_str(), r.err.substr(0, 500).c_str());
      if (r.out != r0.out) c.fail("differs", "the same request gave another response (%s): %s", what.c_str(), where(r0.out, r.out).c_str());
      continue;
    }
    auto gen = names(fs);
    switch (c.pick(3)) { // all, one, some of them
    case 0: break;
    case 1: gen = {gen[c.pick(static_cast<std::uint32_t>(gen.size()))]}; what += " alone"; break;
    default: { std::vector<std::string> g; for (auto &x : gen) if (c.pick(2)) g.push_back(x); if (g.empty()) g.push_back(gen.back()); gen = g; what += " batch"; }
    }
    if (c.pick(2)) { shuffle(c, gen); what += " other-order"; }
    auto files = own;
    if (c.pick(2)) { files = closure(own, gen); what += " closure-only"; }
    if (unrelated) { for (auto &f : other) files.push_back(&f); what += " unrelated-files"; if (c.pick(4) == 0) { gen.push_back(other.back().name); } }
    if (c.pick(3)) { files = reorder(c, files); what += " files-reordered"; }
    p.input = make_request(files, gen, param);
    auto r = run_plugin(c, p);
    c.ev("other request:%s", what.c_str());
    if (!r.ok()) c.fail("failed", "the request ended with %s (%s): %s", r.how().c_str(), what.c_str(), r.err.substr(0, 500).c_str());
    auto a = parse_response(r.out);
    if (!a.valid) c.fail("bad-response", "a successful run wrote %zu bytes that are not a response", r.out.size());
    if (a.has_error) { c.fail("differs", "an error instead of code (%s): %s", what.c_str(), a.error.substr(0, 300).c_str()); }
    auto f = by_name(c, a);
    std::size_t expected = 0;
    for (auto &[n, t] : f) {
      auto it = f0.find(n);
      if (it == f0.end()) { if (n.rfind("unrel", 0) == 0) continue; c.fail("differs", "%s is generated only in the other run (%s)", n.c_str(), what.c_str()); }
      ++expected;
      if (it->second != t) c.fail("differs", "%s differs (%s), %s", n.c_str(), what.c_str(), where(it->second, t).c_str());
    }
    for (auto &g : gen) { // every file of the base run that belongs to a requested file is there
      auto stem = g.substr(0, g.rfind('.'));
      for (auto &[n, t] : f0) if (n.rfind(stem + ".", 0) == 0 && n.find('.', stem.size() + 1) + 4 == n.size() && !f.count(n)) c.fail("differs", "%s is missing in the other run (%s)", n.c_str(), what.c_str());
    }
    c.state(mix(hash_bytes(r.out.data(), r.out.size()), expected));
  }
  c.nontrivial();
}
void perturbed(Ctx &c) { run(c, false); }
void with_others(Ctx &c) { run(c, true); }
} // namespace
SIM_SCENARIO("L02", "perturbed", 3, perturbed)
SIM_SCENARIO("L02", "with-unrelated-files", 2, with_others)
