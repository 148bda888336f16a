#include "dyn.hpp"
#include "p2.schema.hpp"
#include "p3.schema.hpp"
#include "pe.schema.hpp"
#include "pf.schema.hpp"
#include <stdexcept>
using namespace hpp_proto;
namespace hv {
namespace {
constexpr unsigned char ds2[] = {
#embed "p2.ds"
};
constexpr unsigned char ds3[] = {
#embed "p3.ds"
};
constexpr unsigned char dse[] = {
#embed "pe.ds"
};
constexpr unsigned char dsf[] = {
#embed "pf.ds"
};
dynamic_message_factory make(const unsigned char *p, std::size_t n) {
  auto r = dynamic_message_factory::create(std::span<const std::byte>(reinterpret_cast<const std::byte *>(p), n));
  if (!r.has_value()) { fprintf(stderr, "harness: factory creation from a valid descriptor set failed: %d\n", static_cast<int>(r.error())); abort(); }
  return std::move(*r);
}
std::uint64_t bits_of(const FieldS &f, auto v) {
  using T = decltype(v);
  if constexpr (std::same_as<T, float>) { std::uint32_t u; std::memcpy(&u, &v, 4); return u; }
  else if constexpr (std::same_as<T, double>) { std::uint64_t u; std::memcpy(&u, &v, 8); return u; }
  else if constexpr (std::same_as<T, bool>) { unsigned char b; std::memcpy(&b, &v, 1); return b; }
  else return norm(f.kind, static_cast<std::uint64_t>(static_cast<std::int64_t>(v)));
}
std::string str_of(std::string_view s) { return std::string(s); }
std::string str_of(bytes_view s) { return s.empty() ? std::string() : std::string(reinterpret_cast<const char *>(s.data()), s.size()); }
field_kind_t want_kind(const FieldS &f) {
  static const field_kind_t k[] = {KIND_INT32, KIND_INT64, KIND_UINT32, KIND_UINT64, KIND_SINT32, KIND_SINT64, KIND_FIXED32, KIND_FIXED64, KIND_SFIXED32, KIND_SFIXED64, KIND_FLOAT, KIND_DOUBLE, KIND_BOOL, KIND_STRING, KIND_BYTES, KIND_MESSAGE, KIND_MESSAGE, KIND_ENUM};
  auto b = static_cast<unsigned>(k[f.kind]);
  return static_cast<field_kind_t>(f.card == REP || f.card == MAP ? b + 18 : b);
}
struct Reader {
  std::string err;
  bool raw_maps = false; // map fields as the lists of entry messages they are in the API
  template <class... A> void bad(const FieldS &f, const char *fmt, A... a) {
    if (!err.empty()) return;
    char b[300]; snprintf(b, sizeof b, fmt, a...);
    err = std::string(f.name) + ": " + b;
  }
  static Val dflt(const FieldS &f) { Val v; v.u = f.dflt; v.s = f.dflts; return v; }
  template <class T> Val val(const FieldS &f, const T &x) {
    Val v;
    if constexpr (std::same_as<T, std::string_view> || std::same_as<T, bytes_view>) v.s = str_of(x);
    else if constexpr (std::same_as<T, enum_value>) {
      v.u = norm(f.kind, static_cast<std::uint64_t>(static_cast<std::int64_t>(x.number())));
      if (static_cast<std::int32_t>(x) != x.number() || static_cast<enum_number>(x).value != x.number()) bad(f, "enum_value conversions disagree");
      if (!x.name().empty() && (!x.descriptor().value_of(x.name()) || *x.descriptor().value_of(x.name()) != x.number())) bad(f, "enum name %s does not map back to %d", std::string(x.name()).c_str(), x.number());
      if (x.name().empty() != !f.e->valid(x.number())) bad(f, "enum number %d: name() says %s", x.number(), x.name().empty() ? "unknown" : "known");
    }
    else if constexpr (std::same_as<T, message_value_cref>) { v.m = std::make_shared<Msg>(); msg(x, f.m, *v.m); }
    else v.u = bits_of(f, x);
    return v;
  }
  static bool same(const Val &a, const Val &b) { return a.u == b.u && a.s == b.s; }
  // what a singular field that is not set must report
  void absent(const FieldS &f, const Val &v) {
    Val d = dflt(f);
    if (f.card == IMP) d = Val{};
    if (!same(v, d)) bad(f, "an unset field reports value %llx/%s instead of its default %llx/%s", (unsigned long long)v.u, v.s.substr(0, 40).c_str(), (unsigned long long)d.u, d.s.substr(0, 40).c_str());
  }
  template <class C> void typed(const message_value_cref &m, field_cref fr, const FieldS &f, C c, Msg &o) {
    if (&c.descriptor() != &fr.descriptor()) bad(f, "descriptor() of the typed reference differs");
    if (C::field_kind != want_kind(f)) { bad(f, "visited as kind %d, expected %d", int(C::field_kind), int(want_kind(f))); return; }
    if (!fr.to<C>()) bad(f, "to<the right reference type>() is empty");
    if (!m.typed_ref_by_number<C>(f.num) || !m.typed_ref_by_name<C>(f.name)) bad(f, "typed look-up of the right type failed");
    if constexpr (C::field_kind != KIND_BOOL) { auto r = m.typed_ref_by_number<bool_field_cref>(f.num); if (r || r.error() != dynamic_message_errc::invalid_field_type || fr.to<bool_field_cref>()) bad(f, "typed look-up of a wrong type succeeded"); }
    if constexpr (!C::is_repeated) {
      if (c.has_value() != fr.has_value() || static_cast<bool>(c) != fr.has_value()) bad(f, "typed and untyped has_value() disagree");
      if constexpr (std::same_as<C, message_field_cref>) {
        auto g = m.field_value_by_number<message_value_cref>(f.num);
        if (g.has_value() != c.has_value()) bad(f, "get<message_value_cref>() disagrees with has_value()");
        bool threw = false;
        try { (void)c.value(); } catch (const std::bad_optional_access &) { threw = true; }
        if (threw == c.has_value()) bad(f, "value() and has_value() disagree");
        if (&c.message_descriptor() != fr.descriptor().message_field_type_descriptor()) bad(f, "message_descriptor() differs");
        if (c.has_value()) { auto &fl = o.f[f.num]; fl.f = &f; fl.v.push_back(val(f, *c)); }
      } else {
        auto v = val(f, c.value());
        if (!c.has_value()) { absent(f, v); v = dflt(f); }
        // other ways to get the same value
        if constexpr (std::same_as<C, enum_field_cref>) {
          if (c.number() != c.value().number() || c->number() != c.number() || c.name() != c.value().name()) bad(f, "number()/name() and value() disagree");
          auto g = fr.template get<enum_number>(); if (!g || *g != c.number()) bad(f, "get<enum_number>() disagrees");
          auto n = fr.template get<enum_name>(); if (n.has_value() ? *n != c.name() : !c.name().empty()) bad(f, "get<enum_name>() disagrees");
          if (norm(f.kind, static_cast<std::uint64_t>(static_cast<std::int64_t>(c.default_value().number()))) != f.dflt) bad(f, "default_value() is %d", c.default_value().number());
          if (fr.template get<std::int32_t>()) bad(f, "get<int32_t>() of an enum succeeded");
        } else {
          using V = typename C::value_type;
          auto g = m.template field_value_by_name<V>(f.name);
          if (!g || !same(val(f, *g), val(f, c.value()))) bad(f, "field_value_by_name() disagrees with value()");
          if (!same(val(f, c.default_value()), dflt(f))) bad(f, "default_value() is %llx/%s, the schema says %llx/%s", (unsigned long long)val(f, c.default_value()).u, val(f, c.default_value()).s.c_str(), (unsigned long long)f.dflt, f.dflts.c_str());
          if constexpr (std::same_as<V, std::string_view> || std::same_as<V, bytes_view>) { if constexpr (requires { c.size(); }) if (c.size() != c.value().size()) bad(f, "size() is %zu but the value has %zu bytes", c.size(), c.value().size()); }
          if (fr.template get<message_value_cref>()) bad(f, "get<message_value_cref>() of a scalar succeeded");
        }
        bool keep = f.card == IMP && !m.is_map_entry() ? c.has_value() && !is_default(f, v) : c.has_value();
        if (c.is_present_or_explicit_default() != keep) bad(f, "is_present_or_explicit_default() is %d for %s", int(!keep), c.has_value() ? "a set field" : "an unset field");
        if (keep) { auto &fl = o.f[f.num]; fl.f = &f; fl.v.push_back(std::move(v)); }
      }
      if (!m.is_map_entry() && fr.explicit_presence() != (f.card != IMP)) bad(f, "explicit_presence() is %d", int(fr.explicit_presence()));
    } else {
      if (c.empty() != (c.size() == 0) || fr.has_value() != !c.empty() || c.is_present_or_explicit_default() != !c.empty()) bad(f, "size / emptiness / presence disagree");
      bool threw = false;
      try { (void)c.at(c.size()); } catch (const std::out_of_range &) { threw = true; }
      if (!threw) bad(f, "at(size()) did not throw");
      if (c.empty()) return;
      auto &fl = o.f[f.num]; fl.f = &f;
      if constexpr (std::same_as<C, repeated_message_field_cref>) {
        std::size_t i = 0;
        for (message_value_cref e : c) {
          ++i;
          if (f.card == MAP && !raw_maps) {
            Msg t; msg(e, f.m, t);
            if (!e.is_map_entry()) bad(f, "is_map_entry() is false");
            auto get = [&](int j) { auto &kf = f.m->fields[static_cast<std::size_t>(j)]; auto it = t.f.find(kf.num); if (it != t.f.end()) return it->second.v[0]; Val v; if (kf.is_msg()) { v.m = std::make_shared<Msg>(); v.m->t = kf.m; } else { v.u = kf.kind == ENUM ? kf.dflt : 0; } return v; };
            Val k = get(0), v = get(1);
            fl.kv[key_of(f.m->fields[0].kind, k)] = {k, v};
          } else fl.v.push_back(val(f, e));
        }
        if (i != c.size()) bad(f, "iteration visits %zu of %zu elements", i, c.size());
        if (&c[c.size() - 1].descriptor() != &c.at(0).descriptor()) bad(f, "element descriptors differ");
      } else {
        std::size_t i = 0;
        for (auto e : c) {
          fl.v.push_back(val(f, e));
          if (!same(fl.v.back(), val(f, c[i])) || !same(fl.v.back(), val(f, c.at(i)))) bad(f, "element %zu differs between iteration and index", i);
          ++i;
        }
        if (i != c.size()) bad(f, "iteration visits %zu of %zu elements", i, c.size());
        if constexpr (std::same_as<C, repeated_enum_field_cref>) {
          auto g = fr.template get<enum_numbers_span>();
          if (!g || g->size() != c.size() || g->data() != c.data()) bad(f, "get<enum_numbers_span>() disagrees");
          std::size_t j = 0;
          for (auto n : c.names()) { if (n != c[j].name()) bad(f, "names() disagrees at %zu", j); ++j; }
        } else {
          using V = typename C::value_type;
          auto g = m.template field_value_by_number<std::span<const V>>(f.num);
          if (!g || g->size() != c.size() || g->data() != c.data()) bad(f, "get<span>() disagrees");
        }
      }
    }
  }
  void msg(const message_value_cref &m, const MsgS *s, Msg &o) {
    o.t = s; o.keeps = false;
    if (m.descriptor().full_name() != s->name) { if (err.empty()) err = std::string("a message of type ") + std::string(m.descriptor().full_name()) + " where " + s->name + " is expected"; return; }
    if (m.is_map_entry() != s->map_entry) { if (err.empty()) err = "is_map_entry() is wrong"; }
    std::size_t n = 0;
    for (field_cref fr : m.fields()) {
      auto num = static_cast<std::uint32_t>(fr.descriptor().proto().number);
      const FieldS *f = s->find(num, false);
      if (!f) { if (err.empty()) err = "field " + std::to_string(num) + " does not exist in " + s->name; return; }
      ++n;
      auto a = m.field_by_number(num), b = m.field_by_name(f->name);
      if (!a || !b || &a->descriptor() != &fr.descriptor() || &b->descriptor() != &fr.descriptor() || m.field_descriptor_by_json_name(fr.descriptor().proto().json_name) != &fr.descriptor()) bad(*f, "look-ups by name, JSON name and number disagree");
      if (fr.field_kind() != want_kind(*f)) bad(*f, "field_kind() is %d, expected %d", int(fr.field_kind()), int(want_kind(*f)));
      fr.visit([&](auto c) { typed(m, fr, *f, c, o); });
      if (!err.empty()) return;
    }
    if (n != s->fields.size() && err.empty()) err = "fields() lists " + std::to_string(n) + " of " + std::to_string(s->fields.size()) + " fields";
    if (m.field_by_number(19500) || m.field_by_name("no_such_field__") || m.field_by_name("")) { if (err.empty()) err = "look-up of a field that does not exist succeeded"; }
    for (auto &od : m.descriptor().oneofs()) {
      if (m.oneof_descriptor(od.proto().name) != &od) { if (err.empty()) err = "oneof_descriptor(name) disagrees"; }
      std::size_t set = 0; std::int32_t active = -1; std::int32_t i = 0;
      for (field_cref fr : m.fields()) {
        if (fr.descriptor().proto().oneof_index.has_value() && &m.descriptor().oneofs()[static_cast<std::size_t>(*fr.descriptor().proto().oneof_index)] == &od && fr.has_value()) { ++set; active = i; }
        ++i;
      }
      if (set > 1) { if (err.empty()) err = "several members of one oneof are set"; }
      if (m.has_oneof(od) != (set == 1)) { if (err.empty()) err = "has_oneof() disagrees with its members"; }
      for (field_cref fr : m.fields())
        if (fr.descriptor().proto().oneof_index.has_value() && &m.descriptor().oneofs()[static_cast<std::size_t>(*fr.descriptor().proto().oneof_index)] == &od && fr.active_oneof_index() != active && err.empty()) err = "active_oneof_index() is " + std::to_string(fr.active_oneof_index()) + " instead of " + std::to_string(active);
    }
  }
};
struct MReader {
  std::string err;
  void bad(const FieldS &f, const char *m) { if (err.empty()) err = std::string(f.name) + ": " + m; }
  template <class M> void typed(field_mref fr, const FieldS &f, M r) {
    auto c = r.cref();
    if constexpr (!M::is_repeated) {
      if (r.has_value() != c.has_value() || fr.has_value() != c.has_value() || static_cast<bool>(r) != c.has_value()) bad(f, "mutable and constant has_value() disagree");
      if constexpr (std::same_as<M, message_field_mref>) { if (r.has_value()) msg(*r, f.m); }
      else if constexpr (std::same_as<M, enum_field_mref>) {
        auto before = c.number();
        if (r.number() != before || r.value().number() != before || c.number() != before || r.name() != c.name()) bad(f, "mutable and constant value() disagree");
      } else {
        auto a = r.value(), b = c.value();
        if constexpr (std::is_arithmetic_v<decltype(a)>) { if (std::memcmp(&a, &b, sizeof a)) bad(f, "mutable and constant value() disagree"); }
        else if (a.data() != b.data() || a.size() != b.size()) bad(f, "mutable and constant value() disagree");
      }
    } else {
      if (r.size() != c.size() || fr.has_value() != !c.empty()) bad(f, "mutable and constant size() disagree");
      std::size_t n = 0;
      for (auto e : r) { ++n; if constexpr (std::same_as<M, repeated_message_field_mref>) msg(e, f.m); }
      if (n != c.size()) bad(f, "mutable iteration visits a different number of elements");
      bool threw = false;
      try { (void)r.at(r.size()); } catch (const std::out_of_range &) { threw = true; }
      if (!threw) bad(f, "at(size()) of the mutable reference did not throw");
    }
  }
  void msg(const message_value_mref &m, const MsgS *s) {
    for (field_mref fr : m.fields()) {
      const FieldS *f = s->find(static_cast<std::uint32_t>(fr.descriptor().proto().number), false);
      if (!f) return;
      auto a = m.field_by_number(f->num), b = m.field_by_name(f->name);
      if (!a || !b || &a->descriptor() != &fr.descriptor() || &b->descriptor() != &fr.descriptor()) bad(*f, "mutable look-ups by name and number disagree");
      fr.visit([&](auto r) { typed(fr, *f, r); });
    }
    for (auto &od : m.descriptor().oneofs()) if (m.has_oneof(od) != m.cref().has_oneof(od)) { if (err.empty()) err = "mutable and constant has_oneof() disagree"; }
  }
};

// ---- the codec adapter
std::vector<const MsgS *> &table() {
  static std::vector<const MsgS *> v = [] {
    std::vector<const MsgS *> r;
    for (auto *s : {&schema_p2(), &schema_p3(), &schema_pe(), &schema_pf()}) for (auto &m : s->msgs) if (!m.map_entry) r.push_back(&m);
    return r;
  }();
  return v;
}
constexpr std::size_t MAXT = 96;
template <class... O> int dec(DynObj &d, const DecArgs &a, bool chunk, O &&...o) {
  if (chunk) return static_cast<int>(read_binpb(d.m, a.chunks, std::forward<O>(o)...).ec);
  return static_cast<int>(read_binpb(d.m, a.in, std::forward<O>(o)...).ec);
}
int dyn_decode(void *p, const DecArgs &a) {
  DynObj &d = *static_cast<DynObj *>(p);
  switch (a.mode) {
  case D_CONTIG: return dec(d, a, false);
  case D_CHUNK: return dec(d, a, true);
  case D_PADDED: return static_cast<int>(read_binpb(d.m, a.in, padded_input).ec);
  case D_CONTIG_CACHE: return dec(d, a, false, cache_alloc_from(*a.cache));
  case D_CHUNK_CACHE: return dec(d, a, true, cache_alloc_from(*a.cache));
  case D_LIM1: return dec(d, a, false, recursion_limit<1>);
  case D_LIM5: return dec(d, a, false, recursion_limit<5>);
  case D_LIM5_CHUNK: return dec(d, a, true, recursion_limit<5>);
  case D_LIM100X: return dec(d, a, false, recursion_limit<1000>);
  case D_LIM0_CHUNK: return dec(d, a, true, recursion_limit<0>);
  case D_LIM5_PADDED: return static_cast<int>(read_binpb(d.m, a.in, recursion_limit<5>, padded_input).ec);
  }
  abort();
}
int dyn_encode(const void *p, const EncArgs &a) {
  auto m = static_cast<const DynObj *>(p)->m.cref();
  auto vec = [&](auto &&...o) {
    std::vector<std::byte> v;
    { sim::HeapPause hp; v.resize(a.out->size()); if (v.size()) std::memcpy(v.data(), a.out->data(), v.size()); }
    int r = static_cast<int>(write_binpb(m, v, o...).ec);
    sim::HeapPause hp;
    a.out->assign(reinterpret_cast<const char *>(v.data()), v.size());
    return r;
  };
  struct Fixed { // a caller-owned fixed-size destination
    using value_type = std::byte;
    std::span<std::byte> s;
    std::byte *begin() { return s.data(); }
    std::byte *end() { return s.data() + s.size(); }
    const std::byte *begin() const { return s.data(); }
    const std::byte *end() const { return s.data() + s.size(); }
    std::byte *data() { return s.data(); }
    const std::byte *data() const { return s.data(); }
    std::size_t size() const { return s.size(); }
    explicit Fixed(std::span<std::byte> x) : s(x) {}
    Fixed(const Fixed &) = delete;
  };
  switch (a.mode) {
  case E_VECTOR: case E_RETURN: return vec();
  case E_APPEND: { // a user's append: encode apart, then append
    std::string had;
    { sim::HeapPause hp; had.swap(*a.out); }
    int r = vec();
    sim::HeapPause hp;
    a.out->insert(0, had);
    return r;
  }
  case E_STRING: return static_cast<int>(write_binpb(m, *a.out).ec);
  case E_SPAN: { Fixed s(a.fixed); return static_cast<int>(write_binpb(m, s).ec); }
  case E_SINK_CONTIG: return static_cast<int>(write_binpb(m, *a.sink, contiguous_mode).ec);
  case E_SINK_ADAPT: return static_cast<int>(write_binpb(m, *a.sink, adaptive_mode).ec);
  case E_SINK_CHUNK: return static_cast<int>(write_binpb(m, *a.sink, chunked_mode).ec);
  case E_SINK_DEFAULT: return static_cast<int>(write_binpb(m, *a.sink).ec);
  case E_NONOWN: {
    equality_comparable_span<const std::byte> v;
    int r = static_cast<int>(write_binpb(m, v, alloc_from(*a.mr)).ec);
    sim::HeapPause hp;
    if (a.view) *a.view = {v.data(), v.size()};
    a.out->assign(reinterpret_cast<const char *>(v.data()), v.size());
    return r;
  }
  case E_VECTOR_CACHE: return vec(cache_alloc_from(*a.cache));
  case E_LIM1: return vec(recursion_limit<1>);
  case E_LIM5: return vec(recursion_limit<5>);
  case E_LIM5_SINK: return static_cast<int>(write_binpb(m, *a.sink, recursion_limit<5>, chunked_mode).ec);
  default: abort();
  }
}
template <std::size_t I> Codec dyn_codec() {
  Codec c;
  c.trait = "dynamic"; c.s = table()[I]; c.name = c.s->name; c.owning = false;
  c.create = [] { sim::HeapPause hp; return static_cast<void *>(new DynObj(table()[I])); };
  c.destroy = [](void *p) { sim::HeapPause hp; delete static_cast<DynObj *>(p); };
  c.decode = dyn_decode; c.encode = dyn_encode;
  c.tree = [](const void *p, Msg &o) { sim::HeapPause hp; auto *d = static_cast<const DynObj *>(p); (void)dyn_read(d->m.cref(), d->s, o); };
  return c;
}
[[maybe_unused]] const bool reg = [] {
  if (table().size() > MAXT) abort();
  [&]<std::size_t... I>(std::index_sequence<I...>) {
    ((I < table().size() ? codecs().push_back(dyn_codec<I>()) : void()), ...);
  }(std::make_index_sequence<MAXT>{});
  return true;
}();
} // namespace
hpp_proto::dynamic_message_factory &dyn_factory(const MsgS *s) {
  sim::HeapPause hp;
  static hpp_proto::dynamic_message_factory f2 = make(ds2, sizeof ds2), f3 = make(ds3, sizeof ds3), fe = make(dse, sizeof dse), ff = make(dsf, sizeof dsf);
  return s->name[1] == '2' ? f2 : s->name[1] == '3' ? f3 : s->name[1] == 'e' ? fe : ff;
}
std::string dyn_read(const message_value_cref &m, const MsgS *s, Msg &out, bool top, bool raw_maps) {
  Reader r; r.raw_maps = raw_maps; r.msg(m, s, out);
  if (top) fill_required(out);
  return r.err;
}
std::string dyn_read_mref(const message_value_mref &m, const MsgS *s) { MReader r; r.msg(m, s); return r.err; }
const MsgS *dyn_schema(std::string_view n) {
  for (auto *s : {&schema_p2(), &schema_p3(), &schema_pe(), &schema_pf()}) for (auto &m : s->msgs) if (n == m.name) return &m;
  return nullptr;
}
} // namespace hv
