// Requests for the generator.
#pragma once
#include "plugin_sim.hpp"
#include "schema_gen.hpp"
#include <cstdlib>
#include <set>
namespace hv {
inline const std::vector<std::vector<ProtoFile>> &compiled_sets() { // real schemas compiled by protoc at build time
  static const auto v = [] {
    std::vector<std::vector<ProtoFile>> r;
    std::string dir = getenv("VP_GEN") ? getenv("VP_GEN") : "/verif/build/gen";
    for (auto *n : {"rpc", "p3", "p2", "pe", "plugin", "wktset"}) { auto s = load_set(dir + "/" + n + ".ds"); if (!s.empty()) r.push_back(std::move(s)); }
    return r;
  }();
  return v;
}
inline std::vector<ProtoFile> draw_schema(sim::Ctx &c, bool small = false) {
  auto &cs = compiled_sets();
  if (!c.chance(1, small ? 12 : 5)) { SchemaOpt o; o.size = small ? 8 : 10 + static_cast<int>(c.pick(40)); if (small) o.max_files = 3; return gen_schema(c, o); }
  return cs[c.pick(small ? 1 : static_cast<std::uint32_t>(cs.size()))];
}
inline std::string draw_parameter(sim::Ctx &c, const std::vector<ProtoFile> &fs) {
  std::string p;
  auto add = [&](const std::string &s) { p += (p.empty() ? "" : ",") + s; };
  if (c.chance(1, 4)) add(std::string("namespace_prefix=") + (c.pick(2) ? "my" : "my.inner"));
  if (c.chance(1, 4)) add("directory_prefix=gen/");
  if (c.chance(1, 4)) add("preserve_proto_field_names=true");
  if (c.chance(1, 6)) { auto &f = fs[c.pick(static_cast<std::uint32_t>(fs.size()))]; if (!f.messages.empty()) add("proto2_explicit_presence=." + f.messages[c.pick(static_cast<std::uint32_t>(f.messages.size()))]); }
  return p;
}
inline std::vector<const ProtoFile *> ptrs(const std::vector<ProtoFile> &v) { std::vector<const ProtoFile *> r; for (auto &f : v) r.push_back(&f); return r; }
inline std::vector<std::string> names(const std::vector<ProtoFile> &v) { std::vector<std::string> r; for (auto &f : v) r.push_back(f.name); return r; }

// ---- the generator's answer
struct Response { bool valid = false, has_error = false; std::string error; std::vector<std::pair<std::string, std::string>> files; };
inline Response parse_response(std::string_view s) {
  Response r;
  auto varint = [](std::string_view &in, std::uint64_t &v) { v = 0; for (int i = 0; i < 10 && !in.empty(); ++i) { auto b = static_cast<unsigned char>(in[0]); in.remove_prefix(1); v |= static_cast<std::uint64_t>(b & 127) << (7 * i); if (b < 128) return true; } return false; };
  auto walk = [&](std::string_view in, auto fn) {
    std::uint64_t t, l;
    while (!in.empty()) {
      if (!varint(in, t)) return false;
      if ((t & 7) == 0) { if (!varint(in, l)) return false; }
      else if ((t & 7) == 2) { if (!varint(in, l) || l > in.size()) return false; if (!fn(t >> 3, in.substr(0, l))) return false; in.remove_prefix(l); }
      else return false;
    }
    return true;
  };
  r.valid = walk(s, [&](std::uint64_t f, std::string_view v) {
    if (f == 1) { r.has_error = true; r.error = v; }
    if (f == 15) {
      auto &o = r.files.emplace_back();
      return walk(v, [&](std::uint64_t g, std::string_view x) { if (g == 1) o.first = x; if (g == 15) o.second = x; return true; });
    }
    return true;
  });
  return r;
}
inline void draw_pieces(sim::Ctx &c, Stream &s) {
  static const std::uint32_t sz[] = {0, 1, 2, 3, 7, 64, 100, 511, 512, 4095, 4096, 65536};
  for (unsigned i = 0, n = c.pick(6); i < n; ++i) s.pieces.push_back(sz[c.pick(12)]);
  bool any = false;
  for (auto p : s.pieces) any |= p != 1 && p != 2 && p != 3;
  if (!s.pieces.empty() && !any && c.pick(4)) s.pieces.push_back(512); // mostly avoid byte-by-byte runs
  s.mode = c.pick(3);
  static const std::uint32_t bs[] = {4096, 512, 1024, 65536, 1};
  s.blksize = bs[c.pick(4)];
}
} // namespace hv
