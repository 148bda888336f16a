// F02: indirect / optional_indirect against plain optionals, with failures in the middle of operations.
#include "mem.hpp"
#include <functional>
#include <hpp_proto/indirect.hpp>
#include <hpp_proto/optional_indirect.hpp>
#include <optional>
#include <string>
#include <utility>
#include <vector>
using sim::Ctx;
using hv::TrackMR;
namespace {
struct Boom {};
long live_elems;
void tick() { if (sim::heap_tick()) throw Boom{}; }
struct El {
  int a = 0; bool gone = false; const El *self = this;
  El() { tick(); ++live_elems; }
  explicit El(int x) : a(x) { tick(); ++live_elems; }
  El(int x, int y) : a(x * 100 + y) { tick(); ++live_elems; }
  El(const El &o) : a(o.a), gone(o.gone) { o.ok(); tick(); ++live_elems; }
  El(El &&o) : a(o.a), gone(o.gone) { o.ok(); tick(); o.gone = true; ++live_elems; }
  El &operator=(const El &o) { ok(); o.ok(); tick(); a = o.a; gone = o.gone; return *this; }
  El &operator=(El &&o) { ok(); o.ok(); tick(); a = o.a; gone = o.gone; if (this != &o) o.gone = true; return *this; }
  ~El() { ok(); self = nullptr; --live_elems; }
  void ok() const { if (self != this) __builtin_trap(); }
  bool operator==(const El &o) const { ok(); o.ok(); return a == o.a; }
  auto operator<=>(const El &o) const { ok(); o.ok(); return a <=> o.a; }
  friend void swap(El &x, El &y) { x.ok(); y.ok(); std::swap(x.a, y.a); std::swap(x.gone, y.gone); }
};
// an allocator over a resource; P: propagates on copy (1), move (2), swap (4)
template <class T, int P> struct PA {
  using value_type = T; std::pmr::memory_resource *r;
  using propagate_on_container_copy_assignment = std::bool_constant<(P & 1) != 0>;
  using propagate_on_container_move_assignment = std::bool_constant<(P & 2) != 0>;
  using propagate_on_container_swap = std::bool_constant<(P & 4) != 0>;
  using is_always_equal = std::false_type;
  template <class U> struct rebind { using other = PA<U, P>; };
  PA() : r(std::pmr::get_default_resource()) {}
  PA(std::pmr::memory_resource *x) : r(x) {}
  template <class U> PA(const PA<U, P> &o) : r(o.r) {}
  T *allocate(std::size_t n) { return static_cast<T *>(r->allocate(n * sizeof(T), alignof(T))); }
  void deallocate(T *p, std::size_t n) { r->deallocate(p, n * sizeof(T), alignof(T)); }
  bool operator==(const PA &o) const { return r == o.r; }
};
struct M { bool has = false; int a = 0; bool any = false; }; // any: moved from (an unspecified but valid value)

template <class X> struct World {
  using A = typename X::allocator_type;
  static constexpr bool OPT = requires(X &x) { x.reset(); };
  static constexpr bool stateful = !std::allocator_traits<A>::is_always_equal::value;
  static constexpr bool prop = std::allocator_traits<A>::propagate_on_container_swap::value, propc = std::allocator_traits<A>::propagate_on_container_copy_assignment::value, propm = std::allocator_traits<A>::propagate_on_container_move_assignment::value;
  Ctx &c; TrackMR mr[2], dflt; hv::DefaultMR g{&dflt};
  static constexpr int N = 3;
  std::optional<X> m[N]; M w[N]; int res[N] = {0, 0, 1}; const char *cfg, *opname = ""; int serial = 0; std::string hist;
  World(Ctx &cc, const char *n) : c(cc), cfg(n) { for (auto &x : mr) x.shared = true; dflt.shared = true; }
  [[noreturn]] void bad(const char *cls, const std::string &s) { c.fail(cls, "%s: %s: %s; history:%s", cfg, opname, s.c_str(), hist.c_str()); }
  void log(const std::string &s) { hist += " " + s; c.ev("%s", s.c_str()); if (hist.size() > 1000) hist = "..." + hist.substr(hist.size() - 800); }
  A al(int r) { if constexpr (stateful) return A(&mr[r]); else return A(); }
  bool valueless(const X &x) { if constexpr (OPT) return !x.has_value(); else { (void)x; return false; } }
  void check(int i, const char *when = "") {
    X &x = *m[i]; auto &mo = w[i];
    if constexpr (OPT) {
      if (!mo.any && x.has_value() != mo.has) bad("wrong-emptiness", std::string(when) + "object " + std::to_string(i) + (mo.has ? " lost its value" : " has a value"));
      if (x.has_value() != static_cast<bool>(x) || (x == std::nullopt) == x.has_value()) bad("wrong-emptiness", "has_value, bool and == nullopt disagree");
      if (x.has_value() && !mo.any && (x->a != mo.a || x->gone)) bad("wrong-value", std::string(when) + "object " + std::to_string(i) + " holds " + std::to_string(x->a) + (x->gone ? " (moved from)" : "") + " instead of " + std::to_string(mo.a));
      bool threw = false; try { x.value(); } catch (const std::bad_optional_access &) { threw = true; }
      if (threw == x.has_value()) bad("wrong-emptiness", "value() is wrong about emptiness");
    } else if (!mo.any) { // a moved-from indirect may hold nothing: it can only be assigned, copied, compared, swapped or destroyed
      if (x->a != mo.a || x->gone) bad("wrong-value", std::string(when) + "object " + std::to_string(i) + " holds " + std::to_string(x->a) + (x->gone ? " (moved from)" : "") + " instead of " + std::to_string(mo.a));
      if (&*x != &x.value() || &*x != x.operator->()) bad("wrong-value", "the accessors disagree");
    }
    if constexpr (stateful) if (x.get_allocator().r != &mr[res[i]]) bad("wrong-allocator", std::string(when) + "object " + std::to_string(i) + " does not have the allocator it should have");
  }
  void resources() { for (auto &x : mr) if (x.bad) bad("wrong-resource", x.bad); if (dflt.bad) bad("wrong-resource", std::string("default resource: ") + dflt.bad); }
  bool armed = false;
  void arm(sim::HeapScope &hs) { armed = c.chance(2, 5); hs.resume(); hs.fail_after(armed ? static_cast<std::int64_t>(c.pick(4)) : -1, 1 + (c.chance(1, 4) ? c.pick(2) : 0)); }
  bool disarm(sim::HeapScope &hs, bool failed) { bool f = hs.fired(); hs.fail_after(-1); hs.suspend(); if (f) c.fault("operation-failure"); else if (failed) bad("spurious-exception", "an operation threw without a failure having been injected"); return f; }
  void run() {
    sim::HeapScope hs; hs.suspend();
    for (int i = 0; i < N; ++i) { int v = ++serial; if constexpr (OPT) m[i].emplace(std::allocator_arg, al(res[i])); else m[i].emplace(std::allocator_arg, al(res[i]), std::in_place, v); w[i] = {!OPT, v}; }
    for (auto steps = 4 + c.pick(40); steps > 0; --steps) { op(hs); for (int i = 0; i < N; ++i) check(i); resources(); c.step(); std::uint64_t h = 7; for (int i = 0; i < N; ++i) h = sim::mix(h, w[i].has * 4u + w[i].any * 2u + static_cast<unsigned>(res[i])); c.state(h); }
    opname = "destruction"; for (auto &x : m) x.reset();
    resources(); for (auto &x : mr) if (x.live_bytes) bad("leak", std::to_string(x.live_bytes) + " bytes are never returned to their resource");
    if (dflt.live_bytes) bad("leak", "bytes are never returned to the default resource");
    if (live_elems) bad("leak", std::to_string(live_elems) + " elements are never destroyed, or destroyed twice");
    if (hs.live()) bad("leak", std::to_string(hs.live()) + " heap allocations are never released");
  }
  void op(sim::HeapScope &hs) {
    int i = static_cast<int>(c.pick(N)), j = static_cast<int>(c.pick(N)); if (i == j) j = (i + 1) % N;
    auto kind = c.pick(27); int v = ++serial; X &x = *m[i], &y = *m[j]; bool failed = false; bool same = res[i] == res[j] || !stateful;
    std::optional<El> e(v); std::optional<X> t; M tm; int tres = static_cast<int>(c.pick(2)); bool t_any = false;
    M bi = w[i], bj = w[j]; int ri = res[i], rj = res[j];
    log("#" + std::to_string(i) + "/" + std::to_string(kind) + " " + std::to_string(j));
    auto expect = [&](bool ok, const char *what) { if (!ok) { hs.suspend(); bad("wrong-result", what); } };
    bool basic = false; // the operation may change its operands although it fails (an element's own swap / move)
    M moved{false, 0, !OPT};
    arm(hs);
    try {
      switch (kind) {
      case 0: opname = "copy construction"; t.emplace(x); tm = bi; tres = ri; break;
      case 1: opname = "move construction"; t.emplace(std::move(x)); tm = bi; tres = ri; w[i] = moved; break;
      case 2: opname = "allocator-extended copy construction"; t.emplace(std::allocator_arg, al(tres), x); tm = bi; break;
      case 3: opname = "allocator-extended move construction"; basic = true; t.emplace(std::allocator_arg, al(tres), std::move(x)); tm = bi; if (!stateful || tres == ri) w[i] = moved; else w[i].any = true; break;
      case 4: opname = "copy assignment"; x = y; w[i] = bj; if (propc) res[i] = rj; break;
      case 5: opname = "move assignment"; basic = true; x = std::move(y); w[i] = bj; if (propm) res[i] = rj; if (same || propm) w[j] = moved; else w[j].any = true; break;
      case 6: opname = "value assignment"; x = std::as_const(*e); w[i] = {true, v}; break;
      case 7: opname = "value move assignment"; x = std::move(*e); w[i] = {true, v}; break;
      case 8: opname = "swap"; basic = !same && !prop; if (!bi.any && !bj.any) { x.swap(y); std::swap(w[i], w[j]); if (prop) std::swap(res[i], res[j]); } break;
      case 9: opname = "self assignment"; { X &z = x; x = z; } break;
      case 10: opname = "self move assignment"; { X &z = x; x = std::move(z); } break;
      case 11: opname = "comparison"; if (!bi.any && !bj.any) { expect((x == y) == (bi.has == bj.has && (!bi.has || bi.a == bj.a)), "operator== is wrong"); expect((x == *e) == (bi.has && bi.a == v), "operator==(T) is wrong"); if constexpr (!OPT) { expect((x <=> y) == (bi.a <=> bj.a), "operator<=> is wrong"); expect((x <=> *e) == (bi.a <=> v), "operator<=>(T) is wrong"); } } else expect((x == y) == (y == x), "comparison is not symmetric"); break;
      case 12: opname = "swap with itself"; x.swap(x); break;
      case 13: opname = "construction from a value"; t.emplace(std::allocator_arg, al(tres), std::move(*e)); tm = {true, v}; break;
      case 14: opname = "in-place construction"; t.emplace(std::allocator_arg, al(tres), std::in_place, v / 100, v % 100); tm = {true, v}; break;
      case 15: opname = "construction, default allocator"; if constexpr (!stateful) { X z(std::as_const(*e)); expect(z->a == v, "wrong value"); X z2(std::in_place, v); expect(z2 == z, "wrong value"); X z3{}; (void)z3; } break;
      case 16: opname = "emplace"; if constexpr (OPT) { basic = false; auto &r = x.emplace(v / 100, v % 100); expect(&r == &*x, "emplace returned something else"); w[i] = {true, v}; } break;
      case 17: opname = "reset"; if constexpr (OPT) { x.reset(); w[i] = {}; } break;
      case 18: opname = "emplace from the own value"; if constexpr (OPT) if (x.has_value()) { x.emplace(std::as_const(*x)); } break;
      case 19: opname = "and_then / transform / or_else"; if constexpr (OPT) if (!bi.any) {
          auto r = std::as_const(x).transform([](const El &q) { return q.a; }); expect(r.has_value() == bi.has && (!bi.has || *r == bi.a), "transform is wrong");
          auto s = x.and_then([](El &q) { return std::optional<int>(q.a); }); expect(s.has_value() == bi.has && (!bi.has || *s == bi.a), "and_then is wrong");
          auto o = std::as_const(x).or_else([&] { return X(std::allocator_arg, al(ri), std::in_place, v); }); expect(o.has_value() && o->a == (bi.has ? bi.a : v), "or_else is wrong"); } break;
      case 20: opname = "std::swap of distinct objects through a temporary"; if (!bi.any && !bj.any) { basic = true; X z(std::move(x)); x = std::move(y); y = std::move(z); std::swap(w[i], w[j]); if (propm) std::swap(res[i], res[j]); } break;
      case 21: opname = "write through"; if (bi.has && !bi.any) { x->a = v; w[i].a = v; } break;
      case 22: opname = "deep copy"; if (bi.has && !bi.any) { X z(x); z->a = -5; expect(x->a == bi.a, "a copy shares its element with the original"); } break;
      case 23: opname = "taking the value out"; basic = true; if (bi.has && !bi.any) {
          switch (c.pick(4)) {
          case 0: { El q(*std::move(x)); expect(q.a == bi.a, "*&& is wrong"); w[i].any = true; } break;
          case 1: { El q(std::move(x).value()); expect(q.a == bi.a, "value()&& is wrong"); w[i].any = true; } break;
          case 2: { El q(*std::move(std::as_const(x))); expect(q.a == bi.a && !x->gone, "*const&& is wrong"); } break;
          default: if constexpr (OPT) {
            if (c.pick(2)) { auto r = std::move(x).transform([](El &&q) { return El(std::move(q)); }); expect(r.has_value() && r->a == bi.a, "transform&& is wrong"); w[i].any = true; }
            else { auto o = std::move(x).or_else([&] { return X(std::allocator_arg, al(ri), std::in_place, v); }); expect(o.has_value() && o->a == bi.a, "or_else&& is wrong"); w[i] = moved; } } break;
          } } else if constexpr (OPT) if (!bi.any) { auto o = std::move(x).or_else([&] { return X(std::allocator_arg, al(ri), std::in_place, v); }); expect(o.has_value() && o->a == v, "or_else&& is wrong"); } break;
      case 24: opname = "views"; if constexpr (OPT) if (!bi.any && !bj.any) {
          using W = hpp_proto::optional_indirect_view<El>; W p(bi.has ? &*x : nullptr), q; q = bj.has ? &*y : nullptr;
          expect(p.has_value() == bi.has && q.has_value() == bj.has && static_cast<bool>(p) == bi.has && (p == nullptr) == !bi.has, "a view is wrong about emptiness");
          expect((p == q) == (bi.has == bj.has && (!bi.has || bi.a == bj.a)), "operator== of views is wrong");
          W pc(p), qc; qc = q; W pm(std::move(pc)); qc.swap(pm); expect((!bi.has || qc->a == bi.a) && (!bj.has || (*pm).a == bj.a) && qc.has_value() == bi.has && pm.has_value() == bj.has, "swap of views is wrong");
          auto r = p.transform([](const El &z) { return z.a; }); expect(r.has_value() == bi.has && (!bi.has || *r == bi.a), "transform of a view is wrong");
          auto s2 = p.and_then([](const El &z) { return std::optional<int>(z.a); }); expect(s2.has_value() == bi.has && (!bi.has || *s2 == bi.a), "and_then of a view is wrong");
          auto o = p.or_else([&] { return W(&*e); }); expect(o.has_value() && o->a == (bi.has ? bi.a : v), "or_else of a view is wrong");
          bool oor = false; try { (void)q.value(); } catch (const std::bad_optional_access &) { oor = true; } expect(oor == !bj.has, "value() of a view is wrong about emptiness");
          p.reset(); expect(!p.has_value(), "reset of a view"); q = nullptr; expect(q == W{}, "assignment of nothing to a view"); } break;
      case 25: opname = "copy construction of a moved-from object"; if (bi.any && !OPT) { X z(std::as_const(x)); expect((z == x) == (x == z), "comparison is not symmetric"); } break;
      default: opname = "assignment from the own element"; if (bi.has && !bi.any) x = std::as_const(*x); break;
      }
    } catch (const std::bad_alloc &) { failed = true; } catch (const Boom &) { failed = true; }
    disarm(hs, failed);
    if (failed) {
      c.nontrivial(); t.reset(); c.ev("failed");
      if (basic) { // valid, but the values are unspecified; emptiness is known from the object
        for (int q : {i, j}) { if constexpr (stateful) res[q] = m[q]->get_allocator().r == &mr[0] ? 0 : 1; if constexpr (OPT) w[q] = {m[q]->has_value(), 0, true}; else w[q].any = true; }
        (void)t_any;
      } else { w[i] = bi; w[j] = bj; res[i] = ri; res[j] = rj; check(i, "after a failed operation, "); check(j, "after a failed operation, "); }
    }
    if (t) { // the new object is what was asked for, and takes part from now on
      std::swap(w[(i + 1) % N], tm); int k = (i + 1) % N; (void)tm; m[k].reset(); hs.resume(); bool ok = true;
      try { m[k].emplace(std::move(*t)); } catch (...) { ok = false; }
      hs.suspend(); if (!ok) bad("spurious-exception", "move construction threw"); res[k] = tres; t.reset();
    }
    e.reset();
  }
};
template <class X> void go(Ctx &c, const char *n) { live_elems = 0; World<X> w(c, n); w.run(); c.nontrivial(); }
template <template <class, class> class X> void owners(Ctx &c, const std::string &n) {
  switch (c.weighted(4, 4, 4, 1, 1, 1, 1)) {
  case 0: go<X<El, std::allocator<El>>>(c, (n + ", std::allocator").c_str()); break;
  case 1: go<X<El, PA<El, 0>>>(c, (n + ", non-propagating allocator").c_str()); break;
  case 2: go<X<El, PA<El, 7>>>(c, (n + ", propagating allocator").c_str()); break;
  case 3: go<X<El, PA<El, 1>>>(c, (n + ", allocator propagating on copy only").c_str()); break;
  case 4: go<X<El, PA<El, 2>>>(c, (n + ", allocator propagating on move only").c_str()); break;
  case 5: go<X<El, PA<El, 4>>>(c, (n + ", allocator propagating on swap only").c_str()); break;
  default: go<X<El, PA<El, 3>>>(c, (n + ", allocator propagating on copy and move only").c_str()); break;
  }
}
void histories(Ctx &c) { if (c.pick(2)) owners<hpp_proto::indirect>(c, "indirect"); else owners<hpp_proto::optional_indirect>(c, "optional_indirect"); }
// chains, as recursive messages build them: edits that take a node out of the middle of what they assign to
template <template <class> class Opt> struct Node { El v; Opt<Node> next; Node() = default; explicit Node(int x) : v(x) {} template <class R> requires std::is_constructible_v<Opt<Node>, std::allocator_arg_t, R *> Node(int x, R *r) : v(x), next(std::allocator_arg, r) {} };
template <class T> using OI = hpp_proto::optional_indirect<T>;
template <class T> using OIpmr = hpp_proto::optional_indirect<T, PA<T, 0>>;
template <class T> using OIprop = hpp_proto::optional_indirect<T, PA<T, 7>>;
template <class T> using IN = std::optional<hpp_proto::indirect<T>>;
template <class T> using INpmr = std::optional<hpp_proto::indirect<T, PA<T, 0>>>;
template <class T> using INprop = std::optional<hpp_proto::indirect<T, PA<T, 7>>>;
template <template <class> class Opt> void chains_of(Ctx &c, const char *cfg) {
  using Nd = Node<Opt>; TrackMR dflt, other; dflt.shared = other.shared = true; hv::DefaultMR g(&dflt); live_elems = 0; std::string hist;
  {
    sim::HeapScope hs; hs.suspend();
    std::optional<Nd> root(std::in_place, 0); std::vector<int> model{0}; model.reserve(64); int serial = 0;
    auto node = [&](std::size_t i) -> Nd & { Nd *p = &*root; for (; i > 0; --i) { if constexpr (requires { p->next->next; }) p = &*p->next; else p = &**p->next; } return *p; };
    auto check = [&](const char *op) {
      std::string s; std::size_t n = 0; bool ok = true; Nd *p = &*root;
      while (true) { s += " " + std::to_string(p->v.a); p->v.ok(); ok &= n < model.size() && p->v.a == model[n] && !p->v.gone; ++n; if (!p->next.has_value()) break; if constexpr (requires { p->next->next; }) p = &*p->next; else p = &**p->next; }
      if (!ok || n != model.size()) { std::string e; for (int x : model) e += " " + std::to_string(x); c.fail("wrong-chain", "%s: %s: the chain is%s instead of%s; history:%s", cfg, op, s.c_str(), e.c_str(), hist.c_str()); }
      for (auto *q : {&dflt, &other}) if (q->bad) c.fail("wrong-resource", "%s: %s: %s; history:%s", cfg, op, q->bad, hist.c_str());
    };
    for (auto steps = 3 + c.pick(20); steps > 0; --steps) {
      auto i = c.pick(static_cast<std::uint32_t>(model.size())); auto kind = c.pick(7); bool tail = i + 1 == model.size(); const char *op = ""; int v = ++serial; bool failed = false; auto old = model;
      hist += " " + std::to_string(kind) + "@" + std::to_string(i); c.ev("%u@%u", kind, i);
      Nd &n = node(i); std::optional<Nd> fresh; bool far = c.chance(1, 3);
      if constexpr (requires { Nd(0, &other); }) { if (far) fresh.emplace(v, &other); else fresh.emplace(v); } else fresh.emplace(v);
      auto put = [&](auto &next, Nd &&nd) { if constexpr (requires { next.emplace(std::allocator_arg, &other, std::in_place, std::move(nd)); }) { if (far) { next.emplace(std::allocator_arg, &other, std::in_place, std::move(nd)); return; } } next = std::move(nd); };
      bool arm = c.chance(1, 4); hs.resume(); if (arm) hs.fail_after(c.pick(6));
      try {
        switch (kind) {
        case 0: op = "append"; case0: { Nd *p = &node(model.size() - 1); if constexpr (requires { n.next->next; }) p->next = std::move(*fresh); else put(p->next, std::move(*fresh)); model.push_back(v); break; }
        case 1: op = "remove the next node by move assignment"; if (tail) goto case0; { if constexpr (requires { n.next->next; }) n.next = std::move(n.next->next); else { if ((*n.next)->next) *n.next = std::move(*(*n.next)->next); else n.next.reset(); } model.erase(model.begin() + i + 1); } break;
        case 2: op = "insert in the middle"; { fresh->next = std::move(n.next); if constexpr (!requires { n.next->next; }) n.next.reset(); if constexpr (requires { n.next->next; }) n.next = std::move(*fresh); else put(n.next, std::move(*fresh)); model.insert(model.begin() + i + 1, v); } break;
        case 3: op = "cut off"; if (tail) goto case0; n.next.reset(); model.resize(i + 1); break;
        case 4: op = "replace by a copy of the own tail"; if (tail || i + 2 == model.size()) goto case0; if constexpr (requires { n.next->next; }) { n.next = std::as_const(n.next->next); } else *n.next = std::as_const(*(*n.next)->next); model.erase(model.begin() + i + 1); break;
        case 5: op = "copy the whole chain"; { Nd cp(*root); hs.suspend(); Nd *p = &cp; int cnt = 0; while (true) { if (p->v.a != model[cnt++]) c.fail("wrong-chain", "%s: the copy differs; history:%s", cfg, hist.c_str()); if (!p->next.has_value()) break; if constexpr (requires { p->next->next; }) p = &*p->next; else p = &**p->next; p->v.ok(); } p->v.a = -7; hs.resume(); } break;
        default: op = "move the chain out and back"; { Nd t(std::move(*root)); t.v.gone = false; *root = std::move(t); } break;
        }
      } catch (const std::bad_alloc &) { failed = true; } catch (const Boom &) { failed = true; }
      bool f = hs.fired(); hs.fail_after(-1); hs.suspend();
      if (f) c.fault("operation-failure"); else if (failed) c.fail("spurious-exception", "%s: %s threw without a failure having been injected; history:%s", cfg, op, hist.c_str());
      if (failed) { c.nontrivial(); break; } // the chain may be torn, but everything in it can be destroyed
      check(op); c.step(); c.state(sim::mix(model.size(), kind));
    }
    root.reset();
    if (live_elems) c.fail("leak", "%s: %ld elements are never destroyed, or destroyed twice; history:%s", cfg, live_elems, hist.c_str());
    if (hs.live()) c.fail("leak", "%s: %llu heap allocations are never released; history:%s", cfg, (unsigned long long)hs.live(), hist.c_str());
    for (auto *q : {&dflt, &other}) if (q->bad) c.fail("wrong-resource", "%s: %s; history:%s", cfg, q->bad, hist.c_str());
    if (dflt.live_bytes || other.live_bytes) c.fail("leak", "%s: bytes are never returned to the resource; history:%s", cfg, hist.c_str());
  }
  c.nontrivial();
}
void chains(Ctx &c) {
  switch (c.pick(6)) {
  case 0: chains_of<OI>(c, "optional_indirect chain"); break;
  case 1: chains_of<IN>(c, "indirect chain"); break;
  case 2: chains_of<OIpmr>(c, "optional_indirect chain, non-propagating allocator"); break;
  case 3: chains_of<INpmr>(c, "indirect chain, non-propagating allocator"); break;
  case 4: chains_of<OIprop>(c, "optional_indirect chain, propagating allocator"); break;
  default: chains_of<INprop>(c, "indirect chain, propagating allocator"); break;
  }
}
SIM_SCENARIO("F02", "histories", 3, histories)
SIM_SCENARIO("F02", "chains", 1, chains)
} // namespace
