// F01: flat_map against an ordered-map model, with failures in the middle of operations.
#include "mem.hpp"
#include <deque>
#include <hpp_proto/flat_map.hpp>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>
using sim::Ctx;
using hv::TrackMR;
namespace {
struct Boom {};
long live_elems;
void tick() { if (sim::heap_tick()) throw Boom{}; }
// a payload of two ints; T=1: copies may throw, T=2: moves may throw as well
template <int T> struct El {
  int a = -1, b = -1; const El *self = this;
  El() { tick(); ++live_elems; }
  El(int x, int y) : a(x), b(y) { tick(); ++live_elems; }
  El(const El &o) : a(o.a), b(o.b) { o.ok(); tick(); ++live_elems; }
  El(El &&o) noexcept(T < 2) : a(o.a), b(o.b) { o.ok(); if constexpr (T >= 2) tick(); o.b = -2; ++live_elems; }
  El &operator=(const El &o) { ok(); o.ok(); tick(); a = o.a; b = o.b; return *this; }
  El &operator=(El &&o) noexcept(T < 2) { ok(); o.ok(); if constexpr (T >= 2) tick(); a = o.a; b = o.b; if (this != &o) o.b = -2; return *this; }
  ~El() { ok(); self = nullptr; --live_elems; }
  void ok() const { if (self != this) __builtin_trap(); }
  bool operator==(const El &o) const { return a == o.a && b == o.b; }
  bool operator<(const El &o) const { return a != o.a ? a < o.a : b < o.b; }
};
struct Dir { // a comparator with a state: it has to travel with the map
  bool rev = false;
  template <int T> bool operator()(const El<T> &x, const El<T> &y) const { tick(); return rev ? y.a < x.a : x.a < y.a; }
};
template <class T> constexpr bool is_pmr = std::is_constructible_v<typename T::allocator_type, std::pmr::memory_resource *>;
template <int T, template <class...> class C> struct ElCfg {
  using K = El<T>; using V = El<T>; using Cmp = Dir;
  using Map = stdext::flat_map<K, V, Cmp, C<K>, C<V>>;
  static K mk(int i) { return K(i, 0); }
  static int k(const K &x) { return x.a; }
};
struct StrCfg {
  using K = std::string; using V = El<1>; struct Cmp { using is_transparent = void; bool rev = false; template <class A, class B> bool operator()(const A &x, const B &y) const { tick(); return rev ? std::string_view(y) < std::string_view(x) : std::string_view(x) < std::string_view(y); } };
  using Map = stdext::flat_map<K, V, Cmp>;
  static K mk(int i) { return "a key that does not fit into the small buffer " + std::to_string(100 + i); }
  static int k(const K &x) { return x.size() < 10 ? -1 : std::atoi(x.c_str() + x.size() - 3) - 100; }
};
template <class X> using PVec = std::vector<X, std::pmr::polymorphic_allocator<X>>;
template <class X> using SVec = std::vector<X>;
template <class X> using SDeq = std::deque<X>;
template <class X> using PDeq = std::deque<X, std::pmr::polymorphic_allocator<X>>;

struct Model { std::map<int, std::pair<int, int>> m; bool rev = false; // key -> payload
  std::vector<int> order() const { std::vector<int> r; for (auto &[k, v] : m) r.push_back(k); if (rev) std::reverse(r.begin(), r.end()); return r; } };

template <class Cfg> struct World {
  using Map = typename Cfg::Map; using K = typename Cfg::K; using V = typename Cfg::V; using Cmp = typename Cfg::Cmp;
  using KC = typename Map::key_container_type; using VC = typename Map::mapped_container_type;
  using Pair = std::pair<const K, V>;
  static constexpr bool pmr = is_pmr<KC>;
  Ctx &c; TrackMR mr[2], dflt; hv::DefaultMR g{&dflt};
  static constexpr int N = 3;
  std::optional<Map> m[N]; Model w[N]; int serial = 0;
  const char *cfg; const char *opname = "";
  std::string hist;
  explicit World(Ctx &cc, const char *n) : c(cc), cfg(n) { for (auto &x : mr) x.shared = true; dflt.shared = true; }
  int res(int i) const { return i == 2 ? 1 : 0; }
  Cmp cmp(bool r) { Cmp x; x.rev = r; return x; }
  [[noreturn]] void bad(const char *cls, const std::string &s) { c.fail(cls, "%s: %s: %s; history:%s", cfg, opname, s.c_str(), hist.c_str()); }
  void log(const std::string &s) { hist += " " + s; c.ev("%s", s.c_str()); if (hist.size() > 1500) hist = "..." + hist.substr(hist.size() - 1200); }
  // contents of a map as (key, payload) pairs, with every structural invariant checked
  std::vector<std::pair<int, std::pair<int, int>>> dump(const Map &x, bool rev) {
    std::vector<std::pair<int, std::pair<int, int>>> r;
    if (x.keys().size() != x.values().size()) bad("unpaired", std::to_string(x.keys().size()) + " keys and " + std::to_string(x.values().size()) + " values");
    for (std::size_t i = 0; i < x.keys().size(); ++i) r.push_back({Cfg::k(x.keys()[i]), {x.values()[i].a, x.values()[i].b}});
    for (std::size_t i = 1; i < r.size(); ++i) if (rev ? r[i - 1].first <= r[i].first : r[i - 1].first >= r[i].first) bad("unsorted", "keys " + std::to_string(r[i - 1].first) + ", " + std::to_string(r[i].first) + " in this order");
    return r;
  }
  void check(int i) {
    auto &x = *m[i]; auto d = dump(x, w[i].rev); std::string s;
    auto ord = w[i].order();
    auto show = [&] { std::string t = "map holds"; for (auto &[k, v] : d) t += " " + std::to_string(k) + "=" + std::to_string(v.first) + "." + std::to_string(v.second); t += ", expected"; for (int k : ord) t += " " + std::to_string(k) + "=" + std::to_string(w[i].m[k].first) + "." + std::to_string(w[i].m[k].second); return t; };
    if (d.size() != ord.size() || x.size() != ord.size() || x.empty() != ord.empty()) bad("wrong-contents", show());
    for (std::size_t j = 0; j < d.size(); ++j) if (d[j].first != ord[j] || d[j].second != w[i].m[ord[j]]) bad("wrong-contents", show());
    std::size_t j = 0;
    for (auto it = x.begin(); it != x.end(); ++it, ++j) if (Cfg::k(it->first) != ord[j] || it->second.b != w[i].m[ord[j]].second || it - x.begin() != static_cast<std::ptrdiff_t>(j)) bad("wrong-iteration", show());
    for (auto it = std::as_const(x).rbegin(); it != std::as_const(x).rend(); ++it) { --j; if (Cfg::k((*it).first) != ord[j]) bad("wrong-iteration", show()); }
    if (x.key_comp().rev != w[i].rev) bad("wrong-comparator", "the comparator did not travel with the contents");
    std::uint64_t h = d.size(); for (auto &[k, v] : d) h = sim::mix(h, static_cast<std::uint64_t>(k) << 8 ^ static_cast<std::uint64_t>(v.first != -1)); c.state(h);
  }
  // after a failure: paired, ordered, unique; every pair is one the map held or was being given
  void salvage(int i, const std::map<int, std::vector<std::pair<int, int>>> &given, bool keep_others) {
    auto d = dump(*m[i], m[i]->key_comp().rev); (void)keep_others;
    for (auto &[k, v] : d) {
      bool ok = w[i].m.count(k) && w[i].m[k] == v;
      if (auto g2 = given.find(k); g2 != given.end()) for (auto &x : g2->second) ok |= x == v;
      if (!ok) bad("mismatched-pair", "after a failed operation key " + std::to_string(k) + " has the value " + std::to_string(v.first) + "." + std::to_string(v.second));
    }
    w[i].m.clear(); w[i].rev = m[i]->key_comp().rev; for (auto &[k, v] : d) w[i].m[k] = v;
  }
  typename Map::iterator it_at(int i, std::size_t p) { return m[i]->begin() + static_cast<std::ptrdiff_t>(p); }
  std::size_t pos(int i, int k, bool upper = false) { std::size_t p = 0; for (int x : w[i].order()) { if (upper ? (w[i].rev ? x < k : x > k) : (w[i].rev ? x <= k : x >= k)) break; ++p; } return p; }
  void construct(int i, sim::HeapScope &hs) {
    auto kind = c.pick(15); bool rev = c.pick(2); std::vector<int> ks; std::map<int, std::vector<std::pair<int, int>>> given;
    for (auto n = c.chance(1, 12) ? c.pick(70) : c.pick(8); n > 0; --n) ks.push_back(static_cast<int>(c.pick(12)));
    bool sorted = kind == 3 || kind == 4 || kind == 8 || kind == 11 || kind == 12; bool il3 = kind == 9 || kind == 10 || kind == 11; if (il3) while (ks.size() != 3) { if (ks.size() > 3) ks.pop_back(); else ks.push_back(static_cast<int>(c.pick(12))); }
    if (kind == 11) { while (ks[1] == ks[0]) ks[1] = (ks[1] + 1) % 12; while (ks[2] == ks[0] || ks[2] == ks[1]) ks[2] = (ks[2] + 1) % 12; }
    if (sorted) { std::sort(ks.begin(), ks.end()); ks.erase(std::unique(ks.begin(), ks.end()), ks.end()); if (rev) std::reverse(ks.begin(), ks.end()); }
    if (kind == 0) ks.clear();
    if ((kind == 2 || kind == 3) && true) { if (kind == 2) rev = false; } // container constructors use a default comparator
    if (kind == 3 || kind == 10 || kind == 12 || kind == 13) { rev = false; }
    if (kind == 3 || kind == 12) { std::sort(ks.begin(), ks.end()); }
    m[i].reset();
    std::vector<Pair> src; src.reserve(ks.size()); std::size_t extra = 0; (void)extra;
    for (int k : ks) { int s = ++serial; given[k].push_back({k, s}); src.emplace_back(Cfg::mk(k), V(k, s)); }
    auto *r = &mr[res(i)];
    log("new#" + std::to_string(i) + " kind " + std::to_string(kind) + " n=" + std::to_string(ks.size()));
    opname = "construction";
    KC kc = [&] { if constexpr (pmr) return KC(r); else return KC(); }(); VC vc = [&] { if constexpr (pmr) return VC(r); else return VC(); }();
    if (kind == 2 || kind == 3) for (auto &p : src) { kc.push_back(p.first); vc.push_back(p.second); }
    arm(hs); bool failed = false;
    try {
      [[maybe_unused]] auto al = [&] { if constexpr (pmr) return typename KC::allocator_type(r); else return 0; };
      switch (kind) {
      case 2: if constexpr (pmr) m[i].emplace(std::move(kc), std::move(vc), al()); else m[i].emplace(std::move(kc), std::move(vc)); break;
      case 3: if constexpr (pmr) m[i].emplace(stdext::sorted_unique, std::move(kc), std::move(vc), al()); else m[i].emplace(stdext::sorted_unique, std::move(kc), std::move(vc)); break;
      case 4: if constexpr (pmr) m[i].emplace(stdext::sorted_unique, src.begin(), src.end(), cmp(rev), al()); else m[i].emplace(stdext::sorted_unique, src.begin(), src.end(), cmp(rev)); break;
      case 9: if constexpr (pmr) m[i].emplace(std::initializer_list<Pair>{src[0], src[1], src[2]}, cmp(rev), al()); else m[i].emplace(std::initializer_list<Pair>{src[0], src[1], src[2]}, cmp(rev)); break;
      case 10: if constexpr (pmr) m[i].emplace(std::initializer_list<Pair>{src[0], src[1], src[2]}, al()); else m[i].emplace(std::initializer_list<Pair>{src[0], src[1], src[2]}); break;
      case 11: if constexpr (pmr) m[i].emplace(stdext::sorted_unique, std::initializer_list<Pair>{src[0], src[1], src[2]}, cmp(rev), al()); else m[i].emplace(stdext::sorted_unique, std::initializer_list<Pair>{src[0], src[1], src[2]}, cmp(rev)); break;
      case 12: if constexpr (pmr) m[i].emplace(stdext::sorted_unique, src.begin(), src.end(), al()); else m[i].emplace(stdext::sorted_unique, src.begin(), src.end()); break;
      case 13: if constexpr (pmr) m[i].emplace(src.begin(), src.end(), al()); else m[i].emplace(src.begin(), src.end()); break;
      case 14: { Map t = [&] { if constexpr (pmr) return Map(src.begin(), src.end(), cmp(rev), typename KC::allocator_type(&mr[c.pick(2)])); else return Map(src.begin(), src.end(), cmp(rev)); }(); if constexpr (pmr) m[i].emplace(std::move(t), al()); else if constexpr (std::is_nothrow_move_constructible_v<KC>) m[i].emplace(std::move(t)); else m[i].emplace(t); break; }
      case 0: if constexpr (pmr) m[i].emplace(cmp(rev), al()); else m[i].emplace(cmp(rev)); break;
      default: if constexpr (pmr) m[i].emplace(src.begin(), src.end(), cmp(rev), al()); else m[i].emplace(src.begin(), src.end(), cmp(rev)); break;
      }
    } catch (const std::bad_alloc &) { failed = true; } catch (const Boom &) { failed = true; }
    disarm(hs, failed);
    if (failed) { m[i].reset(); w[i].m.clear(); rev = c.pick(2); if constexpr (pmr) m[i].emplace(cmp(rev), r); else m[i].emplace(cmp(rev)); w[i].rev = rev; return; }
    w[i].m.clear(); w[i].rev = rev;
    auto d = dump(*m[i], rev); // duplicates: which one stays is not specified
    if (d.size() != given.size()) bad("wrong-contents", std::to_string(d.size()) + " pairs from " + std::to_string(given.size()) + " distinct keys");
    for (auto &[k, v] : d) { bool ok = false; if (auto g2 = given.find(k); g2 != given.end()) for (auto &x : g2->second) ok |= x == v; if (!ok) bad("wrong-contents", "key " + std::to_string(k) + " was not constructed with the value it has"); w[i].m[k] = v; }
  }
  bool armed = false;
  void arm(sim::HeapScope &hs) { armed = c.chance(2, 5); hs.resume(); if (armed) hs.fail_after(static_cast<std::int64_t>(c.pick(c.pick(3) ? 12 : 60)), 1 + (c.chance(1, 5) ? c.pick(3) : 0)); else hs.fail_after(-1); }
  void disarm(sim::HeapScope &hs, bool failed) { bool f = hs.fired(); hs.fail_after(-1); hs.suspend(); if (f) { c.fault("operation-failure"); if (!failed) c.probe("failure-absorbed"); } else if (failed) bad("spurious-exception", "an operation threw without a failure having been injected"); }
  void run() {
    sim::HeapScope hs; hs.suspend();
    long base = live_elems;
    for (int i = 0; i < N; ++i) construct(i, hs);
    for (auto steps = 4 + c.pick(40); steps > 0; --steps) { op(hs); for (int i = 0; i < N; ++i) check(i); for (auto &x : mr) if (x.bad) bad("wrong-resource", x.bad); if (dflt.bad) bad("wrong-resource", std::string("default resource: ") + dflt.bad); c.step(); }
    for (auto &x : m) x.reset();
    for (auto &x : mr) { if (x.bad) bad("wrong-resource", x.bad); if (x.live_bytes) bad("leak", std::to_string(x.live_bytes) + " bytes are never returned to their resource"); }
    if (dflt.bad) bad("wrong-resource", dflt.bad); if (dflt.live_bytes) bad("leak", "bytes are never returned to the default resource");
    if (live_elems != base) bad("leak", std::to_string(live_elems - base) + " elements are never destroyed (or destroyed twice)");
  }
  void op(sim::HeapScope &hs) {
    int i = static_cast<int>(c.pick(N)), k = static_cast<int>(c.pick(12)), s = ++serial; auto &x = *m[i]; auto &mo = w[i];
    bool has = mo.m.count(k); auto at = pos(i, k); std::size_t n = mo.m.size();
    std::map<int, std::vector<std::pair<int, int>>> given; given[k] = {{k, s}, {-1, -1}};
    auto kind = c.pick(35); bool failed = false, arg_moved = false;
    auto hintp = c.pick(static_cast<std::uint32_t>(n) + 1);
    log("#" + std::to_string(i) + "/" + std::to_string(kind) + " k" + std::to_string(k));
    auto j = static_cast<int>(c.pick(N)); if (j == i) j = (i + 1) % N;
    auto expect_it = [&](auto it, std::size_t p) { if (static_cast<std::size_t>(it - x.begin()) != p) { hs.suspend(); bad("wrong-return", "returned an iterator to position " + std::to_string(it - x.begin()) + " instead of " + std::to_string(p)); } };
    auto expect = [&](bool ok, const char *what) { if (!ok) { hs.suspend(); bad("wrong-return", what); } };
    // prepared arguments
    std::optional<K> key(Cfg::mk(k)); std::optional<V> val(std::in_place, k, s); std::optional<Pair> pr(std::in_place, Cfg::mk(k), V(k, s));
    std::vector<Pair> range; std::vector<int> rk;
    if (kind >= 18 && kind <= 20) {
      for (auto q = c.pick(7); q > 0; --q) rk.push_back(static_cast<int>(c.pick(12)));
      if (kind == 19) { std::sort(rk.begin(), rk.end()); rk.erase(std::unique(rk.begin(), rk.end()), rk.end()); if (mo.rev) std::reverse(rk.begin(), rk.end()); }
      range.reserve(rk.size()); for (int q : rk) { ++serial; range.emplace_back(Cfg::mk(q), V(q, serial)); given[q].push_back({q, serial}); }
    }
    bool hinted = true; (void)hinted;
    auto ins = [&](bool inserted, auto it) { if (kind < 100) { expect(inserted == !has, has ? "reported an insertion of a key that was there" : "reported that a new key was there already"); expect_it(it, at); } };
    arm(hs);
    try {
      switch (kind) {
      case 0: opname = "insert(const&)"; { auto [it, b] = x.insert(*pr); ins(b, it); if (!has) mo.m[k] = {k, s}; } break;
      case 1: opname = "insert(&&)"; { auto [it, b] = x.insert(std::move(*pr)); ins(b, it); if (!has) mo.m[k] = {k, s}; } break;
      case 2: opname = "emplace"; { auto [it, b] = x.emplace(*key, *val); ins(b, it); if (!has) mo.m[k] = {k, s}; } break;
      case 3: opname = "try_emplace(const&)"; { auto [it, b] = x.try_emplace(*key, std::move(*val)); ins(b, it); arg_moved = val->b == -2; if (has) expect(!arg_moved, "moved from its argument although the key was there"); if (!has) mo.m[k] = {k, s}; } break;
      case 4: opname = "try_emplace(&&)"; { auto [it, b] = x.try_emplace(std::move(*key), k, s); ins(b, it); if (has) expect(Cfg::k(*key) == k, "moved from the key although it was there"); if (!has) mo.m[k] = {k, s}; } break;
      case 5: opname = "try_emplace(hint, const&)"; { auto it = x.try_emplace(typename Map::const_iterator(it_at(i, hintp)), *key, std::move(*val)); expect_it(it, at); if (has) expect(val->b != -2, "moved from its argument although the key was there"); if (!has) mo.m[k] = {k, s}; } break;
      case 6: opname = "try_emplace(hint, &&)"; { auto it = x.try_emplace(typename Map::const_iterator(it_at(i, hintp)), std::move(*key), k, s); expect_it(it, at); if (!has) mo.m[k] = {k, s}; } break;
      case 7: opname = "insert_or_assign(const&)"; { auto [it, b] = x.insert_or_assign(*key, *val); ins(b, it); mo.m[k] = {k, s}; } break;
      case 8: opname = "insert_or_assign(&&)"; { auto [it, b] = x.insert_or_assign(std::move(*key), std::move(*val)); ins(b, it); mo.m[k] = {k, s}; } break;
      case 9: opname = "insert_or_assign(hint, const&)"; { auto it = x.insert_or_assign(typename Map::const_iterator(it_at(i, hintp)), *key, *val); expect_it(it, at); mo.m[k] = {k, s}; } break;
      case 10: opname = "insert_or_assign(hint, &&)"; { auto it = x.insert_or_assign(typename Map::const_iterator(it_at(i, hintp)), std::move(*key), std::move(*val)); expect_it(it, at); mo.m[k] = {k, s}; } break;
      case 11: opname = "operator[]"; { auto &v = x[*key]; expect(has ? v.b == mo.m[k].second : v.b == -1, "returned the wrong element"); if (!has) mo.m[k] = {-1, -1}; } break;
      case 12: opname = "operator[](&&)"; { auto &v = x[std::move(*key)]; expect(has ? v.b == mo.m[k].second : v.b == -1, "returned the wrong element"); if (!has) mo.m[k] = {-1, -1}; } break;
      case 13: opname = "erase(key)"; { auto r = x.erase(*key); expect(r == (has ? 1u : 0u), "returned the wrong count"); mo.m.erase(k); } break;
      case 14: opname = "erase(iterator)"; if (has) { auto it = c.pick(2) ? x.erase(it_at(i, at)) : x.erase(typename Map::const_iterator(it_at(i, at))); expect_it(it, at); mo.m.erase(k); } break;
      case 15: opname = "erase(first, last)"; { auto a = c.pick(static_cast<std::uint32_t>(n) + 1), b = a + c.pick(static_cast<std::uint32_t>(n - a) + 1); auto it = x.erase(typename Map::const_iterator(it_at(i, a)), typename Map::const_iterator(it_at(i, b))); expect_it(it, a); auto o = mo.order(); for (auto q = a; q < b; ++q) mo.m.erase(o[q]); } break;
      case 16: opname = "clear"; x.clear(); mo.m.clear(); break;
      case 17: opname = "emplace_hint"; { auto it = x.emplace_hint(typename Map::const_iterator(it_at(i, hintp)), *pr); expect_it(it, at); if (!has) mo.m[k] = {k, s}; } break;
      case 18: opname = "insert(first, last)"; x.insert(range.begin(), range.end()); for (auto &p : range) mo.m.emplace(Cfg::k(p.first), std::pair{p.second.a, p.second.b}); break;
      case 19: opname = "insert(sorted_unique, first, last)"; x.insert(stdext::sorted_unique, range.begin(), range.end()); for (auto &p : range) mo.m.emplace(Cfg::k(p.first), std::pair{p.second.a, p.second.b}); break;
      case 20: opname = "extract and replace"; {
          auto cs = std::move(x).extract(); expect(x.empty() && x.values().empty(), "extract left something behind");
          expect(cs.keys.size() == n && cs.values.size() == n, "extract lost something"); auto old = mo.m; mo.m.clear();
          for (auto &[q, v] : old) given[q].push_back(v);
          for (auto &v : cs.values) { int q = v.a; (void)q; }
          if constexpr (pmr) if (c.pick(2)) { // containers of another resource: they are copied element by element, which may fail half way
            opname = "replace with containers of another resource";
            auto *o = &mr[c.pick(2)]; KC ks(o); VC vs(o); for (auto &q : cs.keys) ks.push_back(q); for (auto &q : cs.values) vs.push_back(q);
            x.replace(std::move(ks), std::move(vs)); mo.m = old; break;
          }
          x.replace(std::move(cs.keys), std::move(cs.values)); mo.m = old; } break;
      case 21: opname = "copy construction"; { for (auto &[q, v] : mo.m) given[q].push_back(v); auto cp = [&] { if constexpr (pmr) return Map(x, &mr[res(i)]); else return Map(x); }(); hs.suspend(); expect(cp == x && !(cp != x) && cp.key_comp().rev == mo.rev, "the copy differs"); hs.resume(); x.clear(); mo.m.clear(); for (auto &[q, g2] : given) if (!g2.empty() && cp.find(Cfg::mk(q)) != cp.end()) mo.m[q] = g2.back(); x.swap(cp); } break;
      case 22: opname = "move construction"; if constexpr (std::is_nothrow_move_constructible_v<KC>) { Map cp(std::move(x)); if (x.keys().size() != x.values().size()) bad("unpaired", "moved-from map"); auto old = mo.m; for (auto &[q, v] : old) given[q].push_back(v); mo.m.clear(); if constexpr (!pmr) { x.clear(); x.swap(cp); } else { x = std::move(cp); } mo.m = old; } break;
      case 23: opname = "copy assignment"; { for (auto &[q, v] : w[j].m) given[q].push_back(v); x = *m[j]; mo = w[j]; } break;
      case 24: opname = "move assignment"; { for (auto &[q, v] : w[j].m) given[q].push_back(v); auto sv = w[j]; x = std::move(*m[j]); mo = sv; hs.suspend(); salvage(j, {}, false); hs.resume(); } break;
      case 25: opname = "self assignment"; { auto &y = x; x = y; } break;
      case 26: opname = "swap"; if (!pmr || res(i) == res(j)) { using std::swap; if (c.pick(2)) swap(x, *m[j]); else x.swap(*m[j]); std::swap(mo, w[j]); } break;
      case 27: opname = "initializer list assignment"; { hs.suspend(); std::initializer_list<Pair> il{{Cfg::mk(k), V(k, s)}, {Cfg::mk((k + 1) % 12), V((k + 1) % 12, s)}, {Cfg::mk(k), V(k, s)}}; given[(k + 1) % 12] = {{(k + 1) % 12, s}}; hs.resume(); x = il; mo.m.clear(); mo.m[k] = {k, s}; mo.m[(k + 1) % 12] = {(k + 1) % 12, s}; } break;
      case 28: opname = "relations"; { auto o1 = mo.order(), o2 = w[j].order(); std::vector<std::pair<int, std::pair<int, int>>> a, b; for (int q : o1) a.push_back({q, mo.m[q]}); for (int q : o2) b.push_back({q, w[j].m[q]});
          { expect((x == *m[j]) == (a == b) && (x != *m[j]) == (a != b), "operator== is wrong"); expect((x < *m[j]) == (a < b) && (x > *m[j]) == (a > b) && (x <= *m[j]) == (a <= b) && (x >= *m[j]) == (a >= b), "operator< is wrong"); } } break;
      case 30: opname = "insert(P&&)"; { std::pair<K, V> q(std::move(*key), std::move(*val)); auto [it, b] = x.insert(std::move(q)); ins(b, it); if (!has) mo.m[k] = {k, s}; } break;
      case 31: opname = "insert(hint, ...)"; { auto h = typename Map::const_iterator(it_at(i, hintp)); auto it = hintp % 2 ? x.insert(h, *pr) : x.insert(h, std::move(*pr)); expect_it(it, at); if (!has) mo.m[k] = {k, s}; } break;
      case 32: opname = "insert(initializer list)"; { hs.suspend(); int k2 = (k + 5) % 12; std::initializer_list<Pair> il{{Cfg::mk(k), V(k, s)}, {Cfg::mk(k2), V(k2, s)}, {Cfg::mk(k), V(k, s)}}; given[k2] = {{k2, s}}; hs.resume(); x.insert(il); mo.m.emplace(k, std::pair{k, s}); mo.m.emplace(k2, std::pair{k2, s}); } break;
      case 33: opname = "insert(sorted_unique, initializer list)"; { hs.suspend(); int lo = std::min(k, 10), hi = lo + 1; if (mo.rev) std::swap(lo, hi); given[lo] = {{lo, s}}; given[hi] = {{hi, s}}; std::initializer_list<Pair> il{{Cfg::mk(lo), V(lo, s)}, {Cfg::mk(hi), V(hi, s)}}; hs.resume(); x.insert(stdext::sorted_unique, il); mo.m.emplace(lo, std::pair{lo, s}); mo.m.emplace(hi, std::pair{hi, s}); } break;
      case 34: opname = "iterators"; { auto b = std::as_const(x).cbegin(), e = std::as_const(x).cend(); expect(e - b == static_cast<std::ptrdiff_t>(n) && (b == e) == (n == 0) && (b < e) == (n > 0) && b <= e && e >= b && !(b > e), "iterator arithmetic is wrong");
          if (n > 0) { auto p = c.pick(static_cast<std::uint32_t>(n)); auto o = mo.order(); auto q = static_cast<std::ptrdiff_t>(p); auto it = b + q; expect(Cfg::k(it->first) == o[p] && Cfg::k((*it).first) == o[p] && Cfg::k(b[q].first) == o[p] && (q + b) == it && (it - q) == b && e - (e - it) == it, "iterator access is wrong"); auto jt = it++; expect(jt - b == q && it - b == q + 1, "iterator increment is wrong"); jt = it--; expect(jt - it == 1 && it - b == q, "iterator decrement is wrong"); it += 1; it -= 1; expect((it->second.b) == mo.m[o[p]].second && x.rbegin()->second.b == mo.m[o.back()].second, "iterator access is wrong"); } } break;
      default: opname = "lookup"; {
          expect((x.find(*key) != x.end()) == has && x.contains(*key) == has && x.count(*key) == (has ? 1u : 0u) && (std::as_const(x).find(*key) != std::as_const(x).end()) == has, "find / contains / count is wrong");
          expect_it(x.lower_bound(*key), at); expect_it(x.upper_bound(*key), pos(i, k, true)); auto [a, b] = x.equal_range(*key); expect_it(a, at); expect_it(b, at + (has ? 1 : 0));
          auto [ca, cb] = std::as_const(x).equal_range(*key); expect(ca == a && cb == b && std::as_const(x).lower_bound(*key) == a && std::as_const(x).upper_bound(*key) == b, "the const lookup differs");
          if constexpr (std::is_same_v<Cfg, StrCfg>) { std::string_view sv(*key); expect((x.find(sv) != x.end()) == has && x.contains(sv) == has && x.count(sv) == (has ? 1u : 0u), "heterogeneous find is wrong"); expect_it(x.lower_bound(sv), at); expect_it(x.upper_bound(sv), pos(i, k, true)); auto [ha, hb] = x.equal_range(sv); expect_it(ha, at); expect_it(hb, at + (has ? 1 : 0)); auto &cx = std::as_const(x); auto [ia, ib] = cx.equal_range(sv); expect((cx.find(sv) != cx.end()) == has && cx.contains(sv) == has && cx.lower_bound(sv) == ha && cx.upper_bound(sv) == hb && ia == ha && ib == hb, "the const heterogeneous lookup differs"); }
          bool oor = false; try { expect(&std::as_const(x).at(*key) == &x.at(*key), "the const at() differs"); auto &v = x.at(*key); expect(has && v.b == mo.m[k].second, "at() returned the wrong element"); } catch (const std::out_of_range &) { oor = true; } expect(oor == !has, "at() is wrong about the presence of a key"); } }
    } catch (const std::bad_alloc &) { failed = true; } catch (const Boom &) { failed = true; }
    disarm(hs, failed);
    if (failed) { c.ev("failed"); c.nontrivial(); salvage(i, given, true); if (kind == 24) salvage(j, {}, true); }
  }
};
template <class Cfg> void go(Ctx &c, const char *n) { live_elems = 0; World<Cfg> w(c, n); w.run(); c.nontrivial(); }
void histories(Ctx &c) {
  switch (c.pick(6)) {
  case 0: go<ElCfg<1, SVec>>(c, "flat_map over std::vector"); break;
  case 1: go<ElCfg<1, PVec>>(c, "flat_map over std::pmr::vector"); break;
  case 2: go<ElCfg<2, SVec>>(c, "flat_map over std::vector, throwing moves"); break;
  case 3: go<StrCfg>(c, "flat_map with string keys and a transparent comparator"); break;
  case 4: go<ElCfg<2, PVec>>(c, "flat_map over std::pmr::vector, throwing moves"); break;
  default: go<ElCfg<1, SDeq>>(c, "flat_map over std::deque"); break;
  }
}
SIM_SCENARIO("F01", "histories", 1, histories)
} // namespace
