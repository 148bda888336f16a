// Template side of codec.hpp. Include after the generated *.pb.hpp; HV_F selects the operations compiled.
#pragma once
#include "codec.hpp"
#include <array>
#include <hpp_proto/binpb.hpp>
#include <hpp_proto/merge.hpp>
#include <new>
#include <utility>
#include <variant>

namespace hv {
constexpr unsigned F_CHUNK = 1, F_PADDED = 2, F_SINK = 4, F_ENCMORE = 8, F_MERGE = 16, F_COPY = 32, F_LIMIT = 64, F_CACHE = 128, F_REACH = 256, F_ENC = 512, F_EXT = 1024, F_SET = 2048, F_MERGEX = 4096;

template <class T> concept OptLike = requires(const T &t) { { t.has_value() } -> std::convertible_to<bool>; *t; };
template <class T> concept ScalarLike = std::is_arithmetic_v<T> || std::is_enum_v<T> || std::same_as<T, hpp_proto::boolean>;
template <class T> concept StrLike = std::convertible_to<const T &, std::string_view>;
template <class T> concept ByteLike = !StrLike<T> && requires(const T &t) { requires std::same_as<std::remove_cvref_t<decltype(*t.data())>, std::byte>; t.size(); };
template <class T> concept PairLike = requires(const T &t) { t.first; t.second; };
template <class T> concept RangeLike = std::ranges::range<T> && !StrLike<T> && !ByteLike<T> && !OptLike<T>;

// caller-owned fixed-size output buffer (not a view type, not resizable)
struct FixedBuf {
  using value_type = std::byte;
  std::span<std::byte> s;
  explicit FixedBuf(std::span<std::byte> x) : s(x) {}
  FixedBuf(const FixedBuf &) = delete;
  std::byte *begin() { return s.data(); }
  std::byte *end() { return s.data() + s.size(); }
  const std::byte *begin() const { return s.data(); }
  const std::byte *end() const { return s.data() + s.size(); }
  std::byte *data() { return s.data(); }
  const std::byte *data() const { return s.data(); }
  std::size_t size() const { return s.size(); }
};
struct TreeOut {
  Msg &o;
  template <class T> void val(const FieldS &f, const T &x, Val &v) {
    if constexpr (std::same_as<T, hpp_proto::boolean>) v.u = static_cast<bool>(x);
    else if constexpr (std::same_as<T, bool>) { unsigned char b; std::memcpy(&b, &x, 1); v.u = b; } // a bool that is not 0/1 must not compare equal
    else if constexpr (std::is_enum_v<T>) v.u = norm(f.kind, static_cast<std::uint64_t>(static_cast<std::int64_t>(x)));
    else if constexpr (std::same_as<T, float>) { std::uint32_t u; std::memcpy(&u, &x, 4); v.u = u; }
    else if constexpr (std::same_as<T, double>) std::memcpy(&v.u, &x, 8);
    else if constexpr (std::is_arithmetic_v<T>) v.u = norm(f.kind, static_cast<std::uint64_t>(static_cast<std::int64_t>(x)));
    else if constexpr (StrLike<T>) { std::string_view s = x; v.s.assign(s.data(), s.size()); }
    else if constexpr (ByteLike<T>) { if (x.size()) v.s.assign(reinterpret_cast<const char *>(x.data()), x.size()); }
    else if constexpr (requires { x.pointer(); *x; }) { v.m = std::make_shared<Msg>(); v.m->t = f.m; if (x.pointer()) { TreeOut t{*v.m}; visit(t, *x); } else { TreeOut t{*v.m}; using U = std::remove_cvref_t<decltype(*x)>; U u{}; visit(t, u); } }
    else if constexpr (requires { *x; }) { v.m = std::make_shared<Msg>(); v.m->t = f.m; TreeOut t{*v.m}; visit(t, *x); }
    else { v.m = std::make_shared<Msg>(); v.m->t = f.m; TreeOut t{*v.m}; visit(t, x); }
  }
  Fld &fld(const FieldS &f) { auto &fl = o.f[f.num]; fl.f = &f; return fl; }
  template <class T> void f(const FieldS &fs, const T &x) {
    if constexpr (OptLike<T>) {
      if (x.has_value()) { auto &fl = fld(fs); fl.v.emplace_back(); val(fs, *x, fl.v.back()); }
      else if constexpr (requires { T::has_default_value; requires ScalarLike<typename T::value_type> || StrLike<typename T::value_type> || ByteLike<typename T::value_type>; x.value(); }) {
        Val v; const auto &d = x.value(); val(fs, static_cast<const typename T::value_type &>(d), v); // an absent field reads as the schema's default; anything else shows up as if it were present
        Val w; w.u = norm(fs.kind, fs.dflt);
        if (v.u != (fs.is_len() ? 0 : w.u) || v.s != fs.dflts) fld(fs).v.push_back(std::move(v));
      }
    } else if constexpr (ScalarLike<T> || StrLike<T> || ByteLike<T>) {
      Val v; val(fs, x, v);
      if (fs.card == REQ || fs.card == EXP || !is_default(fs, v)) fld(fs).v.push_back(std::move(v));
    } else if constexpr (RangeLike<T>) {
      if (std::ranges::size(x) == 0) return;
      auto &fl = fld(fs);
      if constexpr (PairLike<std::ranges::range_value_t<T>>) {
        std::size_t dup = 0;
        for (const auto &e : x) {
          Val k, v; val(fs.m->fields[0], e.first, k); val(fs.m->fields[1], e.second, v);
          auto ks = key_of(fs.m->fields[0].kind, k);
          dup += fl.kv.count(ks);
          fl.kv[ks] = {std::move(k), std::move(v)};
        }
        if constexpr (requires { x.find(std::declval<typename T::key_type>()); }) { if (dup) { Val z; z.u = dup; fl.kv["\xff" "duplicate-keys"] = {z, z}; } }
      } else {
        for (const auto &e : x) { fl.v.emplace_back(); using E = std::ranges::range_value_t<T>; if constexpr (std::same_as<E, bool>) { bool b = e; val(fs, b, fl.v.back()); } else val(fs, e, fl.v.back()); }
      }
    } else { // required submessage
      auto &fl = fld(fs); fl.v.emplace_back(); val(fs, x, fl.v.back());
    }
  }
  template <class... A> void oneof(const MsgS *s, const int *ix, const std::variant<std::monostate, A...> &x) {
    if (x.index() == 0 || x.valueless_by_exception()) return;
    [&]<std::size_t... I>(std::index_sequence<I...>) {
      ((x.index() == I + 1 ? (void)[&] { const FieldS &fs = s->fields[static_cast<std::size_t>(ix[I])]; auto &fl = fld(fs); fl.v.emplace_back(); val(fs, std::get<I + 1>(x), fl.v.back()); }() : void()), ...);
    }(std::make_index_sequence<sizeof...(A)>{});
  }
  template <class U> void unknown(const U &u) {
    using R = std::remove_cvref_t<decltype(u.fields)>;
    if constexpr (ByteLike<R>) {
      // raw blob: split into records by field number
      std::string_view in(reinterpret_cast<const char *>(u.fields.data()), u.fields.size());
      split(in);
    } else if constexpr (RangeLike<R>) {
      for (const auto &e : u.fields) if (e.second.size()) o.unk[e.first].append(reinterpret_cast<const char *>(e.second.data()), e.second.size());
    } else o.keeps = false;
  }
  void split(std::string_view in);
};
void split_unknown(Msg &o, std::string_view in);
inline void TreeOut::split(std::string_view in) { split_unknown(o, in); }

struct ReachOut {
  const std::function<void(const void *, std::size_t, const char *)> &cb;
  template <class T> void val(const char *n, const T &x) {
    if constexpr (StrLike<T>) { std::string_view s = x; if (s.size()) cb(s.data(), s.size(), n); }
    else if constexpr (ByteLike<T>) { if (x.size()) cb(x.data(), x.size(), n); }
    else if constexpr (ScalarLike<T>) {}
    else if constexpr (requires { x.pointer(); *x; }) { if (x.pointer()) { cb(x.pointer(), sizeof(*x), n); visit(*this, *x); } }
    else if constexpr (requires { *x; }) { cb(std::addressof(*x), sizeof(*x), n); visit(*this, *x); }
    else visit(*this, x);
  }
  template <class T> void f(const FieldS &fs, const T &x) {
    if constexpr (OptLike<T>) {
      if constexpr (!std::is_lvalue_reference_v<decltype(*x)>) { if (x.has_value()) val(fs.name, *x); } // held in place
      else if (x.has_value()) {
        const auto *a = reinterpret_cast<const char *>(std::addressof(*x)); const auto *b = reinterpret_cast<const char *>(&x);
        if (a < b || a >= b + sizeof(x)) cb(a, sizeof(*x), fs.name);
        val(fs.name, *x);
      }
    } else if constexpr (RangeLike<T>) {
      if constexpr (requires { x.data(); }) { if (x.size()) cb(x.data(), x.size() * sizeof(*x.data()), fs.name); }
      for (const auto &e : x) {
        if constexpr (PairLike<std::ranges::range_value_t<T>>) { val(fs.name, e.first); val(fs.name, e.second); }
        else if constexpr (!std::same_as<std::ranges::range_value_t<T>, bool>) val(fs.name, e);
      }
    } else val(fs.name, x);
  }
  template <class... A> void oneof(const MsgS *, const int *, const std::variant<std::monostate, A...> &x) {
    std::visit([&](const auto &e) { if constexpr (!std::same_as<std::remove_cvref_t<decltype(e)>, std::monostate>) val("oneof", e); }, x);
  }
  template <class U> void unknown(const U &u) {
    using R = std::remove_cvref_t<decltype(u.fields)>;
    if constexpr (ByteLike<R>) { if (u.fields.size()) cb(u.fields.data(), u.fields.size(), "unknown"); }
    else if constexpr (RangeLike<R>) {
      if constexpr (requires { u.fields.data(); }) { if (u.fields.size()) cb(u.fields.data(), u.fields.size() * sizeof(*u.fields.data()), "unknown"); }
      for (const auto &e : u.fields) if (e.second.size()) cb(e.second.data(), e.second.size(), "unknown");
    }
  }
};

// edits one field of a message object in place
struct SetOut {
  std::uint32_t num; std::uint64_t v; const char *str; bool done = false;
  template <class T> bool set(T &x) {
    if constexpr (std::same_as<T, hpp_proto::boolean>) x = static_cast<bool>(v & 1);
    else if constexpr (std::same_as<T, bool>) x = v & 1;
    else if constexpr (std::is_enum_v<T>) return false;
    else if constexpr (std::is_arithmetic_v<T>) x = static_cast<T>(v);
    else if constexpr (StrLike<T>) x = str;
    else return false;
    return true;
  }
  template <class T> void f(const FieldS &fs, const T &cx) {
    if (fs.num != num) return;
    auto &x = const_cast<T &>(cx);
    if constexpr (OptLike<T>) {
      if constexpr (requires { typename T::value_type; }) {
        using V = typename T::value_type;
        if constexpr (ScalarLike<V> && !std::is_enum_v<V>) { x = static_cast<V>(v); done = true; return; }
        else if constexpr (StrLike<V>) { x = V(str); done = true; return; }
      }
      if constexpr (requires { x.reset(); }) { x.reset(); done = true; }
    } else if constexpr (ScalarLike<T> || StrLike<T>) done = set(x);
    else if constexpr (RangeLike<T>) { x = T{}; done = true; }
  }
  template <class... A> void oneof(const MsgS *, const int *, const std::variant<std::monostate, A...> &) {}
  template <class U> void unknown(const U &) {}
};
template <class M, bool Own> struct ExtReg {
  std::vector<ExtOp> &v;
  template <class E> void ext(const FieldS &fs) {
    static const FieldS *F; F = &fs;
    ExtOp o; o.f = &fs;
    o.get = [](const void *p, Msg &out, TrackMR *mr) {
      E e{}; int r;
      if constexpr (Own) r = static_cast<int>(static_cast<const M *>(p)->get_extension(e).ec);
      else r = static_cast<int>(static_cast<const M *>(p)->get_extension(e, hpp_proto::alloc_from(*mr)).ec);
      sim::HeapPause hp; TreeOut t{out}; t.f(*F, e.value);
      return r;
    };
    o.set = [](void *p, std::string_view wire, Msg &held, TrackMR *mr) {
      E e{}; int r;
      Bytes b{reinterpret_cast<const std::byte *>(wire.data()), wire.size()};
      if constexpr (Own) r = static_cast<int>(hpp_proto::read_binpb(e, b).ec);
      else r = static_cast<int>(hpp_proto::read_binpb(e, b, hpp_proto::alloc_from(*mr)).ec);
      { sim::HeapPause hp; TreeOut t{held}; t.f(*F, e.value); }
      if (r) return r;
      if constexpr (Own) return static_cast<int>(static_cast<M *>(p)->set_extension(e).ec);
      else return static_cast<int>(static_cast<M *>(p)->set_extension(e, hpp_proto::alloc_from(*mr)).ec);
    };
    o.has = [](const void *p) { return static_cast<const M *>(p)->has_extension(E{}); };
    v.push_back(o);
  }
};
template <class M, bool Owning, class... O> int dec_one(M &m, const DecArgs &a, bool chunk, O &&...o) {
  if constexpr (Owning) {
    if (chunk) return static_cast<int>(hpp_proto::read_binpb(m, a.chunks, std::forward<O>(o)...).ec);
    return static_cast<int>(hpp_proto::read_binpb(m, a.in, std::forward<O>(o)...).ec);
  } else {
    if (chunk) return static_cast<int>(hpp_proto::read_binpb(m, a.chunks, hpp_proto::alloc_from(*a.mr), std::forward<O>(o)...).ec);
    return static_cast<int>(hpp_proto::read_binpb(m, a.in, hpp_proto::alloc_from(*a.mr), std::forward<O>(o)...).ec);
  }
}
template <class M, bool Owning, class... O> int dec_contig(M &m, const DecArgs &a, O &&...o) {
  if constexpr (Owning) return static_cast<int>(hpp_proto::read_binpb(m, a.in, std::forward<O>(o)...).ec);
  else return static_cast<int>(hpp_proto::read_binpb(m, a.in, hpp_proto::alloc_from(*a.mr), std::forward<O>(o)...).ec);
}
template <class M, bool Owning, unsigned F> int do_decode(void *p, const DecArgs &a) {
  M &m = *static_cast<M *>(p);
  switch (a.mode) {
  case D_CONTIG: return dec_contig<M, Owning>(m, a);
  case D_CHUNK: if constexpr (F & F_CHUNK) return dec_one<M, Owning>(m, a, true); break;
  case D_PADDED: if constexpr (F & F_PADDED) return dec_contig<M, Owning>(m, a, hpp_proto::padded_input); break;
  case D_CONTIG_CACHE: if constexpr (F & F_CACHE) return dec_one<M, Owning>(m, a, false, hpp_proto::cache_alloc_from(*a.cache)); break;
  case D_CHUNK_CACHE: if constexpr (F & F_CACHE) return dec_one<M, Owning>(m, a, true, hpp_proto::cache_alloc_from(*a.cache)); break;
  case D_LIM1: if constexpr (F & F_LIMIT) return dec_contig<M, Owning>(m, a, hpp_proto::recursion_limit<1>); break;
  case D_LIM5: if constexpr (F & F_LIMIT) return dec_one<M, Owning>(m, a, false, hpp_proto::recursion_limit<5>); break;
  case D_LIM5_CHUNK: if constexpr (F & F_LIMIT) return dec_one<M, Owning>(m, a, true, hpp_proto::recursion_limit<5>); break;
  case D_LIM100X: if constexpr (F & F_LIMIT) return dec_one<M, Owning>(m, a, false, hpp_proto::recursion_limit<1000>); break;
  case D_LIM0_CHUNK: if constexpr (F & F_LIMIT) return dec_one<M, Owning>(m, a, true, hpp_proto::recursion_limit<0>); break;
  case D_LIM5_PADDED: if constexpr (F & F_LIMIT) return dec_contig<M, Owning>(m, a, hpp_proto::recursion_limit<5>, hpp_proto::padded_input); break;
  default: break;
  }
  fprintf(stderr, "harness: decode mode %d not compiled\n", a.mode); abort();
}
template <class M, unsigned F> int do_encode(const void *p, const EncArgs &a) {
  const M &m = *static_cast<const M *>(p);
  auto vec = [&](auto &&...o) {
    std::vector<std::byte> v;
    { sim::HeapPause hp; v.reserve(a.out->size()); v.resize(a.out->size()); if (v.size()) std::memcpy(v.data(), a.out->data(), v.size()); }
    int r = static_cast<int>(hpp_proto::write_binpb(m, v, o...).ec);
    sim::HeapPause hp;
    a.out->assign(reinterpret_cast<const char *>(v.data()), v.size());
    return r;
  };
  switch (a.mode) {
  case E_VECTOR: return vec();
  case E_STRING: if constexpr (F & F_ENCMORE) { return static_cast<int>(hpp_proto::write_binpb(m, *a.out).ec); } break;
  case E_RETURN: if constexpr (F & F_ENCMORE) { auto r = hpp_proto::write_binpb(m); if (!r.has_value()) return static_cast<int>(r.error()); a.out->assign(reinterpret_cast<const char *>(r->data()), r->size()); return 0; } break;
  case E_APPEND: if constexpr (F & F_ENCMORE) {
      std::vector<std::byte> v(a.out->size()); if (v.size()) std::memcpy(v.data(), a.out->data(), v.size());
      int r = static_cast<int>(hpp_proto::append_binpb(m, v).ec);
      a.out->assign(reinterpret_cast<const char *>(v.data()), v.size());
      return r;
    } break;
  case E_SPAN: if constexpr (F & F_ENCMORE) { FixedBuf s(a.fixed); return static_cast<int>(hpp_proto::write_binpb(m, s).ec); } break;
  case E_SINK_CONTIG: if constexpr (F & F_SINK) return static_cast<int>(hpp_proto::write_binpb(m, *a.sink, hpp_proto::contiguous_mode).ec); break;
  case E_SINK_ADAPT: if constexpr (F & F_SINK) return static_cast<int>(hpp_proto::write_binpb(m, *a.sink, hpp_proto::adaptive_mode).ec); break;
  case E_SINK_CHUNK: if constexpr (F & F_SINK) return static_cast<int>(hpp_proto::write_binpb(m, *a.sink, hpp_proto::chunked_mode).ec); break;
  case E_SINK_DEFAULT: if constexpr (F & F_SINK) return static_cast<int>(hpp_proto::write_binpb(m, *a.sink).ec); break;
  case E_NONOWN: if constexpr (F & F_ENCMORE) {
      hpp_proto::equality_comparable_span<const std::byte> v;
      int r = static_cast<int>(hpp_proto::write_binpb(m, v, hpp_proto::alloc_from(*a.mr)).ec);
      sim::HeapPause hp;
      if (a.view) *a.view = {v.data(), v.size()};
      a.out->assign(reinterpret_cast<const char *>(v.data()), v.size());
      return r;
    } break;
  case E_VECTOR_CACHE: if constexpr (F & F_CACHE) return vec(hpp_proto::cache_alloc_from(*a.cache)); break;
  case E_LIM1: if constexpr (F & F_LIMIT) return vec(hpp_proto::recursion_limit<1>); break;
  case E_LIM5: if constexpr (F & F_LIMIT) return vec(hpp_proto::recursion_limit<5>); break;
  case E_LIM5_SINK: if constexpr (F & F_LIMIT) return static_cast<int>(hpp_proto::write_binpb(m, *a.sink, hpp_proto::recursion_limit<5>, hpp_proto::chunked_mode).ec); break;
  default: break;
  }
  fprintf(stderr, "harness: encode mode %d not compiled\n", a.mode); abort();
}
template <class M> struct Rebind;
template <template <class> class X, class A> struct Rebind<X<A>> { using type = X<hpp_proto::default_traits>; };
template <class M, unsigned F> Codec make_codec(const char *trait) {
  using T = typename M::hpp_proto_traits_type;
  Codec c;
  c.trait = trait;
  c.s = schema_of(Tag{}, static_cast<const M *>(nullptr));
  c.name = c.s->name;
  constexpr bool own = !std::same_as<typename T::string_t, std::string_view>;
  c.owning = own;
  c.pmr = requires(typename T::string_t s) { s.get_allocator().resource(); };
  c.keeps = std::string_view(trait).find("keep") != std::string_view::npos;
  c.obj_size = sizeof(M);
  c.create = [] { return static_cast<void *>(new M{}); };
  c.destroy = [](void *p) { delete static_cast<M *>(p); };
  c.decode = &do_decode<M, own, F>;
  if constexpr (F & F_ENC) c.encode = &do_encode<M, F>;
  c.tree = [](const void *p, Msg &o) { sim::HeapPause hp; o.t = schema_of(Tag{}, static_cast<const M *>(nullptr)); TreeOut t{o}; visit(t, *static_cast<const M *>(p)); };
  c.equal = [](const void *a, const void *b) { return *static_cast<const M *>(a) == *static_cast<const M *>(b); };
  if constexpr (F & F_COPY) {
    c.copy = [](const void *p) { return static_cast<void *>(new M(*static_cast<const M *>(p))); };
    c.assign = [](void *a, const void *b) { *static_cast<M *>(a) = *static_cast<const M *>(b); };
    c.move_assign = [](void *a, void *b) { *static_cast<M *>(a) = std::move(*static_cast<M *>(b)); };
    c.move = [](void *b) { return static_cast<void *>(new M(std::move(*static_cast<M *>(b)))); };
  }
  if constexpr (F & F_MERGE) {
    c.merge = [](void *a, const void *b, TrackMR *mr) {
      if constexpr (own) hpp_proto::merge(*static_cast<M *>(a), *static_cast<const M *>(b));
      else hpp_proto::merge(*static_cast<M *>(a), *static_cast<const M *>(b), hpp_proto::alloc_from(*mr));
    };
    c.merge_move = [](void *a, void *b, TrackMR *mr) {
      if constexpr (own) hpp_proto::merge(*static_cast<M *>(a), std::move(*static_cast<M *>(b)));
      else hpp_proto::merge(*static_cast<M *>(a), std::move(*static_cast<M *>(b)), hpp_proto::alloc_from(*mr));
    };
  }
  if constexpr (F & F_MERGEX) {
    using D = typename Rebind<M>::type;
    c.merge_x = [](void *a, const void *b, TrackMR *mr) {
      if constexpr (own) hpp_proto::merge(*static_cast<M *>(a), *static_cast<const D *>(b));
      else hpp_proto::merge(*static_cast<M *>(a), *static_cast<const D *>(b), hpp_proto::alloc_from(*mr));
    };
  }
  if constexpr (F & F_SET) c.set_field = [](void *p, std::uint32_t num, std::uint64_t v, const char *str) { SetOut o{num, v, str}; visit(o, *static_cast<const M *>(p)); return o.done; };
  if constexpr (F & F_EXT) { if constexpr (requires(ExtReg<M, own> r) { visit_exts(r, static_cast<const M *>(nullptr)); }) { ExtReg<M, own> r{c.exts}; visit_exts(r, static_cast<const M *>(nullptr)); } }
  if constexpr (F & F_REACH) c.reach = [](const void *p, const std::function<void(const void *, std::size_t, const char *)> &cb) { ReachOut r{cb}; visit(r, *static_cast<const M *>(p)); };
  return c;
}
} // namespace hv
