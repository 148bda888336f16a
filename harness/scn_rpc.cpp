// G01..G05: the gRPC adapter (real client and server reactors, real libgrpc++ callback layer) on the simulated core.
#include "rpc_core.hpp"
#include "rpc.pb.hpp"
#include "rpc.service.hpp"
#include <hpp_proto/grpc/client.hpp>
#include <hpp_proto/grpc/server.hpp>
#include <csetjmp>
#include <memory_resource>
#include <optional>
extern "C" bool is_utf8(const char *p, size_t n) {
  auto *b = reinterpret_cast<const unsigned char *>(p), *e = b + n;
  while (b < e) {
    unsigned c = *b++; int k = c < 0x80 ? 0 : c >> 5 == 6 ? 1 : c >> 4 == 14 ? 2 : c >> 3 == 30 ? 3 : -1;
    if (k < 0 || e - b < k) return false;
    unsigned v = k == 0 ? c : c & (0x3f >> k);
    for (int i = 0; i < k; ++i) { if ((*b & 0xc0) != 0x80) return false; v = v << 6 | (*b++ & 0x3f); }
    if ((k == 1 && v < 0x80) || (k == 2 && (v < 0x800 || (v >= 0xd800 && v < 0xe000))) || (k == 3 && (v < 0x10000 || v > 0x10ffff))) return false;
  }
  return true;
}
using namespace gsim;
namespace hg = hpp_proto::grpc;
namespace {
using grpc::Status;
namespace ES = rpc::Echo;
using Unary = ES::Unary; using Collect = ES::Collect; using Fan = ES::Fan; using Chat = ES::Chat; using Missing = ES::Missing;
using Req = rpc::Req<>; using Resp = rpc::Resp<>; using Sum = rpc::Sum<>;
using ReqV = rpc::Req<hpp_proto::non_owning_traits>; using RespV = rpc::Resp<hpp_proto::non_owning_traits>; using SumV = rpc::Sum<hpp_proto::non_owning_traits>;
using RespP = rpc::Resp<hpp_proto::pmr_traits>;

// ---- what the checks of each property look at
enum Prop : unsigned { P1 = 1, P2 = 2, P3 = 4, P4 = 8, P5 = 16 };
unsigned g_prop;
// another property's violation ends the run without a verdict (its own check reports it)
std::jmp_buf g_abandon;
#define FAILP(mask, ...) do { if (g_prop & (mask)) W->ctx.fail(__VA_ARGS__); else { W->ctx.ev("violation of another property"); std::longjmp(g_abandon, 1); } } while (0)

// ---- content
template <class S> std::string str(const S &s) { return {reinterpret_cast<const char *>(std::data(s)), std::size(s)}; }
template <class T> void put(std::string &o, const T &v) { o += std::to_string(v) + ","; }
template <class R> std::string sig_req(const R &r);
template <class R> std::string sig_req(const R &r) {
  std::string o = "Q"; put(o, r.seq); o += str(r.text); o += '|'; o += str(r.blob); o += '|';
  for (auto v : r.nums) put(o, v);
  std::map<std::string, int> t; for (const auto &[k, v] : r.tags) t[str(k)] = v;
  for (auto &[k, v] : t) { o += k; put(o, v); }
  if (r.inner) o += "(" + sig_req(*r.inner) + ")";
  return o;
}
template <class R> std::string sig(const R &r) {
  if constexpr (requires { r.tags; }) return sig_req(r);
  else if constexpr (requires { r.seqs; }) { std::string o = "S"; put(o, r.count); o += str(r.last); for (auto v : r.seqs) put(o, v); return o; }
  else { std::string o = "R"; put(o, r.seq); o += str(r.text); o += '|'; o += str(r.blob); o += '|'; for (auto v : r.nums) put(o, v); if (r.echo.has_value()) o += "(" + sig_req(*r.echo) + ")"; return o; }
}
unsigned g_big; // 1/n messages of several megabytes
std::string text(Ctx &c) { std::string s; for (unsigned n = c.weighted(3, 2, 1) * c.pick(14); n; --n) s += c.pick(6) ? static_cast<char>('a' + c.pick(26)) : '\0'; if (c.chance(1, 4)) s += "\xc3\xa9"; return s; }
std::vector<std::byte> blob(Ctx &c) {
  std::size_t n = 0;
  switch (c.weighted(6, 3, 2, 1)) { case 0: break; case 1: n = c.pick(40); break; case 2: n = 3900 + c.pick(300); break; case 3: n = c.pick(70000); break; }
  if (g_big && c.pick(g_big) == g_big - 1) { static const std::size_t m[] = {1048576 - 20, 1048576, 1048590, 2097152 + 7, 3500000}; n = m[c.pick(5)] + c.pick(9); c.probe("message larger than a sink chunk"); }
  std::vector<std::byte> v(n); std::uint32_t x = 1 + c.pick(1000);
  for (auto &b : v) { x = x * 1103515245u + 12345u; b = static_cast<std::byte>(x >> 16); }
  return v;
}
Req mk_req(Ctx &c, unsigned seq, bool deep = true) {
  Req r; r.seq = seq; r.text = text(c); r.blob = blob(c);
  for (unsigned n = c.pick(4); n; --n) r.nums.push_back(static_cast<std::int64_t>(c.bits64() >> c.pick(64)));
  for (unsigned n = c.weighted(4, 1, 1); n; --n) r.tags["k" + std::to_string(c.pick(5))] = static_cast<int>(c.pick(100)) - 50;
  if (deep && c.chance(1, 4)) r.inner = mk_req(c, seq + 1000, false);
  return r;
}
Resp mk_resp(Ctx &c, unsigned seq) {
  Resp r; r.seq = seq; r.text = text(c); r.blob = blob(c);
  for (unsigned n = c.pick(4); n; --n) r.nums.push_back(static_cast<std::int32_t>(c.pick(0x7fffffff)) - 1000);
  if (c.chance(1, 4)) r.echo = mk_req(c, seq, false);
  return r;
}
// serialization option of a call site
template <class F> decltype(auto) with_opt(Ctx &c, F f) {
  switch (c.pick(4)) { case 1: return f(hpp_proto::contiguous_mode); case 2: return f(hpp_proto::chunked_mode); case 3: return f(hpp_proto::adaptive_mode); default: return f(); }
}
Status mk_status(Ctx &c) {
  if (c.pick(3) == 0) return Status::OK;
  static const char *m[] = {"", "no", "a longer message with \xc3\xa9 and %20", "x"};
  auto code = static_cast<grpc::StatusCode>(1 + c.pick(16));
  return c.chance(1, 4) ? Status{code, m[c.pick(4)], std::string("de\0tails", 8)} : Status{code, m[c.pick(4)]};
}
bool same(const Status &a, const Status &b) { return a.error_code() == b.error_code() && a.error_message() == b.error_message() && a.error_details() == b.error_details(); }
std::string show(const Status &s) { return std::to_string(s.error_code()) + "/" + s.error_message(); }
const Status kEncode{grpc::StatusCode::INTERNAL, "Failed to serialize message"}, kDecode{grpc::StatusCode::INTERNAL, "Failed to deserialize message"};

// ---- one RPC as both sides saw it
struct Rec {
  int id = 0, kind = 0; // kind: 0 unary, 1 collect, 2 fan, 3 chat, 4 missing
  const char *how = "";
  std::unique_ptr<grpc::ClientContext> ctx = std::make_unique<grpc::ClientContext>();
  Link *link = nullptr;
  // client
  bool started = false, encode_failed = false, done = false, half_closed = false, keep_reading = true, abandoned_reads = false;
  int done_count = 0; Status status;
  std::vector<std::string> wrote, got; // signatures
  std::optional<std::string> reply;    // unary / collect response seen by the client
  bool reply_bad = false;
  int holds = 0, writes_out = 0, reads_out = 0;
  bool cb_alive = false;
  // server
  int created = 0, destroyed = 0, done_calls = 0, cancels = 0, smd = 0;
  std::vector<std::string> s_got, s_wrote;
  std::optional<std::string> s_reply; bool s_reply_none = false;
  bool threw = false, fin = false, lib = false; Status fin_status;
  bool eof_seen = false;
  int s_reads = 0, s_writes = 0, s_read_cbs = 0, s_write_cbs = 0;
  bool s_read_failed = false, s_write_failed = false;
};
struct Sim;
Sim *S = nullptr;
struct Sim {
  bool has_done = false;
  Ctx &c; World w;
  std::vector<std::unique_ptr<Rec>> recs;
  std::map<Link *, Rec *> by_link;
  int live_handlers = 0, live_reactors = 0, live_callbacks = 0;
  std::unique_ptr<grpc::Service> svc;
  std::shared_ptr<grpc::ChannelInterface> ch;
  std::unique_ptr<hg::Stub<ES::_methods>> stub;
  unsigned faults = 0, p_bad = 0, p_cancel = 0, p_deadline = 0, p_reset = 0, p_scancel = 0, p_throw = 0;
  explicit Sim(Ctx &x) : c(x), w(x) { S = this; }
  ~Sim() { S = nullptr; }
};
Ctx &C() { return S->c; }
Rec *rec_of(grpc::CallbackServerContext &x) {
  Link *l = W->link_of(x.c_call());
  return S->by_link[l];
}
template <class F> void later(F f) { W->post(std::move(f)); }
bool bad(unsigned n) { return n && C().pick(n) == n - 1; }
std::string maybe_bad_text() { return "\xff\xfe"; }

// ---------------------------------------------------------------- server
struct HS { // state of a server handler as the harness tracks it
  Rec *r; bool dead = false; bool claimed = false; bool stopped = false; bool deferred = false; // claimed: it told the library that it will finish the call itself
  std::deque<Resp> q; bool eof = false; int target = 0, sent = 0;
};
// the library has ended the call by itself (a handler that takes every callback is told; one that does not, is not)
bool over(Rec *r) { SimCall *s = r->link->s; return !s || s->n_status_ops > 0; }
// may an operation be started from outside of a callback?
bool usable(HS &h) { return !h.dead && !h.stopped && !over(h.r); }
void note_finish(Rec *r, const Status &s, std::optional<std::string> reply = {}) {
  if (r->fin || r->lib || over(r)) { C().probe("handler finishes a call the library has already finished"); return; }
  r->fin = true; r->fin_status = s; if (s.ok() && reply) r->s_reply = reply;
}
bool decode_request(auto &token, Rec *r, std::size_t idx, Status &st, unsigned prop = P2) {
  std::string got; Ctx &c = C();
  if (c.chance(1, 3)) { std::pmr::monotonic_buffer_resource mr; ReqV v; st = token.template get<hpp_proto::non_owning_traits>(v, hpp_proto::alloc_from(mr)); if (st.ok()) got = sig(v); }
  else { Req v; if (c.chance(1, 4)) v = mk_req(c, 77); st = token.get(v); if (st.ok()) got = sig(v); }
  auto &db = r->link->delivered_bad[0];
  if (r->link->got_null_request) { if (!st.ok()) FAILP(P3, "null-request", "a missing request message is reported as %s", show(st).c_str()); return true; }
  if (idx >= db.size()) FAILP(P2 | P5, "read-count", "call %d: handler read message #%zu, only %zu were delivered", r->id, idx, db.size());
  if (db[idx]) { if (st.ok()) FAILP(P3, "damaged-accepted", "call %d: a damaged message was decoded as '%s'", r->id, got.substr(0, 80).c_str()); if (!same(st, kDecode)) FAILP(P3, "decode-status", "damaged message reported as %s", show(st).c_str()); return false; }
  if (!st.ok()) FAILP(P2 | P3, "decode-failed", "call %d message #%zu: intact message rejected with %s", r->id, idx, show(st).c_str());
  if (idx >= r->wrote.size() || got != r->wrote[idx]) FAILP(P2, "request-content", "call %d (%s): the handler's message #%zu differs from the one written: got '%s' want '%s' (%zu written)", r->id, r->how, idx, got.substr(0, 200).c_str(), idx < r->wrote.size() ? r->wrote[idx].substr(0, 200).c_str() : "-", r->wrote.size());
  r->s_got.push_back(got);
  return true;
}
// ends a call with a status and no message
template <class Rpc> void fin_status(Rpc &rpc, Rec *r, Status s) { note_finish(r, s); C().ev("srv %d finish %s", r->id, show(s).c_str()); rpc.finish(s); }
template <class Method, class Rpc> void fin_unary(Rpc &rpc, Rec *r) {
  Ctx &c = C();
  unsigned k = c.weighted(4, 2, 2, 1, 1);
  Resp p = mk_resp(c, static_cast<unsigned>(r->id) + 7);
  if (k != 1 && bad(S->p_bad)) { p.text = maybe_bad_text(); c.fault("unencodable-reply"); note_finish(r, kEncode); C().ev("srv %d finish bad", r->id); if (k == 2) with_opt(c, [&](auto... o) { rpc.finish(p, Status{grpc::StatusCode::OK, ""}, o...); }); else with_opt(c, [&](auto... o) { rpc.finish(p, o...); }); return; }
  switch (k) {
  case 0: note_finish(r, Status::OK, sig(p)); with_opt(c, [&](auto... o) { rpc.finish(p, o...); }); break;
  case 1: fin_status(rpc, r, mk_status(c)); break;
  case 2: { Status s = mk_status(c); note_finish(r, s, sig(p)); with_opt(c, [&](auto... o) { rpc.finish(p, s, o...); }); break; }
  case 3: { Status s = mk_status(c); note_finish(r, s, sig(p)); std::string b; (void)hpp_proto::write_binpb(p, b); grpc::ByteBuffer bb; auto *raw = to_buffer(c, b, 1); grpc::ByteBuffer t; { std::vector<grpc::Slice> sl; for (std::size_t i = 0; i < raw->data.raw.slice_buffer.count; ++i) sl.emplace_back(grpc::Slice(raw->data.raw.slice_buffer.slices[i], grpc::Slice::ADD_REF)); bb = grpc::ByteBuffer(sl.data(), sl.size()); } grpc_byte_buffer_destroy(raw); rpc.finish(bb, s); break; }
  default: { RespV v; v.seq = p.seq; std::string t = p.text; v.text = t; Resp q; q.seq = p.seq; q.text = t; note_finish(r, Status::OK, sig(q)); with_opt(c, [&](auto... o) { rpc.finish(v, o...); }); break; }
  }
  C().ev("srv %d finish", r->id);
}
grpc::ByteBuffer raw_of(const auto &m) { std::vector<std::byte> b; (void)hpp_proto::write_binpb(m, b); grpc::Slice s(b.data(), b.size()); return grpc::ByteBuffer(&s, 1); }

template <class Method> struct HBase {
  using rpc_t = hg::ServerRPC<Method>;
  std::shared_ptr<HS> h = std::make_shared<HS>();
  HBase(const HBase &) = delete;
  explicit HBase(rpc_t &rpc) {
    Rec *r = rec_of(rpc.context()); h->r = r;
    if (++r->created > 1) FAILP(P1, "handler-twice", "call %d: a second handler was created", r->id);
    ++S->live_handlers;
    C().ev("srv %d created", r->id);
  }
  ~HBase() {
    if (!S) return;
    h->dead = true; --S->live_handlers;
    if (h->r->threw) return;
    if (h->claimed && !h->r->fin && !h->r->lib) FAILP(P5, "finished-behind-handler", "call %d: the handler said that it ends the call itself, the call ended without it", h->r->id);
    if (++h->r->destroyed > 1) FAILP(P1, "handler-destroyed", "call %d: handler destroyed twice", h->r->id);
  }
  void alive(const char *what) { if (h->r->done_calls) FAILP(P1 | P5, "callback-after-done", "call %d: %s after on_done", h->r->id, what); }
};
// every callback but those for success is optional: V is the set a handler takes
enum : int { DONE = 1, CANCEL = 2, SMD = 4, EOI = 8, RCANCEL = 16, WERR = 32, EVERY = 63 };
template <class M, int V> struct HOpt : HBase<M> {
  static constexpr int takes = V; static constexpr bool two_ways_to_end = std::is_same_v<M, Chat>;
  using HBase<M>::HBase;
  void on_done() requires ((V & DONE) != 0) { Rec *r = this->h->r; if (++r->done_calls > 1) FAILP(P1 | P5, "done-twice", "call %d: on_done called twice", r->id); C().ev("srv %d on_done", r->id); }
  void on_cancel() requires ((V & CANCEL) != 0) { this->alive("on_cancel"); if (++this->h->r->cancels > 1) FAILP(P5, "cancel-twice", "call %d: on_cancel called twice", this->h->r->id); Rec *r = this->h->r; if (!r->link->s || !r->link->s->ended || r->link->s->normal) FAILP(P5, "cancel-lie", "call %d: on_cancel without cancellation", r->id); C().ev("srv %d on_cancel", r->id); }
  void on_send_initial_metadata_done(bool) requires ((V & SMD) != 0) { this->alive("on_send_initial_metadata_done"); if (++this->h->r->smd > 1) FAILP(P5, "smd-twice", "call %d", this->h->r->id); }
};
template <class H> void maybe_throw(H *h) {
  if (bad(S->p_throw)) { h->h->r->threw = true; C().fault("handler-throws"); C().ev("srv %d throws", h->h->r->id); if (C().pick(2)) throw std::bad_alloc(); throw 7; }
}
template <class Rpc> bool maybe_cancel(Rpc &rpc) {
  if (!bad(S->p_scancel)) return false;
  C().fault("server-cancel"); C().ev("srv TryCancel"); rpc.context().TryCancel(); return true;
}
template <class Svc, int V> struct HUnary : HOpt<Unary, V> {
  using rpc_t = hg::ServerRPC<Unary>;
  HUnary(Svc &, rpc_t &rpc, hg::RequestToken<Unary> token) : HOpt<Unary, V>(rpc) {
    Ctx &c = C(); Rec *r = this->h->r;
    if (c.chance(1, 8)) { // the message is looked at elsewhere
      maybe_throw(this); maybe_cancel(rpc);
      later([h = this->h, &rpc, r, token] { if (h->dead) return; C().probe("message looked at after the callback"); Status st; if (decode_request(token, r, 0, st)) fin_unary<Unary>(rpc, r); else fin_status(rpc, r, st); });
      return;
    }
    Status st; bool ok = decode_request(token, r, 0, st);
    maybe_throw(this);
    if (c.chance(1, 6)) rpc.StartSendInitialMetadata();
    maybe_cancel(rpc);
    auto act = [this, &rpc, r, ok, st] { if (!ok) fin_status(rpc, r, st); else fin_unary<Unary>(rpc, r); };
    if (c.pick(3) == 2) { auto h = this->h; later([h, act] { if (!h->dead) act(); }); } // finish comes from another thread
    else act();
  }
};
void sum_up(Rec *r, Sum &s) { s.count = static_cast<unsigned>(r->s_got.size()); s.last = "n" + std::to_string(s.count); for (auto &x : r->s_got) s.seqs.push_back(static_cast<unsigned>(x.size())); }
template <class Rpc> void fin_collect(Rpc &rpc, Rec *r) {
  Ctx &c = C(); Sum s; sum_up(r, s);
  unsigned k = c.weighted(4, 1, 1, 1);
  if (k == 0 && bad(S->p_bad)) { s.last = maybe_bad_text(); c.fault("unencodable-reply"); note_finish(r, kEncode); C().ev("srv %d finish bad", r->id); rpc.finish(s); return; }
  C().ev("srv %d finish collect", r->id);
  switch (k) {
  case 0: note_finish(r, Status::OK, sig(s)); with_opt(c, [&](auto... o) { rpc.finish(s, o...); }); break;
  case 1: { Status x = mk_status(c); r->s_reply_none = true; fin_status(rpc, r, x); break; }
  case 2: { Status x = mk_status(c); note_finish(r, x, sig(s)); rpc.finish(raw_of(s), x); break; }
  default: note_finish(r, Status::OK, sig(s)); rpc.finish(raw_of(s)); break;
  }
}
// terminal callbacks shared by the reading handlers
// a handler answered that it will end the call; nothing else may end it then, unless another of its callbacks is missing
template <class H> bool claims(H *self) {
  auto &h = *self->h;
  if (!H::two_ways_to_end || (H::takes & (EOI | RCANCEL | WERR)) == (EOI | RCANCEL | WERR)) if (!h.r->fin && !h.r->lib && !over(h.r)) h.claimed = true;
  return true;
}
template <class H, class Rpc> bool terminal_read(H *self, Rpc &rpc, bool cancelled) {
  self->alive("terminal read callback"); auto h = self->h; Rec *r = h->r; Ctx &c = C();
  C().ev("srv %d read end cancelled %d", r->id, cancelled);
  if (++r->s_read_cbs > r->s_reads) FAILP(P5, "unrequested-read", "call %d: more read callbacks than reads", r->id);
  if (r->s_read_failed) FAILP(P5, "read-end-twice", "call %d: two terminal read callbacks", r->id);
  r->s_read_failed = true;
  SimCall *s = r->link->s;
  if (cancelled != rpc.context().IsCancelled()) FAILP(P5, cancelled ? "cancel-lie" : "eof-lie", cancelled ? "call %d: a healthy end of input is reported as cancellation" : "call %d: a cancellation is reported as the end of input", r->id);
  if (!s || (!s->ended && !s->half)) FAILP(P5, "eof-lie", "call %d: end of input reported while the peer is still there", r->id);
  if (cancelled && !(s->ended && !s->normal)) FAILP(P5, "cancel-lie", "call %d: cancellation reported but the call was not cancelled", r->id);
  h->eof = !cancelled;
  if (!cancelled && !r->fin && !r->lib && !over(r)) r->eof_seen = true; // the handler was told that it has everything
  if (r->fin) return c.pick(2); // already finished by this handler: nothing more to do either way
  switch (c.weighted(4, 2, 2)) {
  case 0: h->stopped = true; if constexpr (requires { self->fin_now(rpc); }) self->fin_now(rpc); else fin_collect(rpc, r); return true;
  case 1: h->stopped = true; self->finish_later(rpc); return claims(self);
  default: h->stopped = true; if (!r->lib && !over(r)) { r->lib = true; r->fin_status = cancelled ? Status::CANCELLED : Status::OK; } c.probe("library finishes after a failed read"); return false;
  }
}
template <class Svc, int V> struct HCollectB : HOpt<Collect, V> {
  using rpc_t = hg::ServerRPC<Collect>;
  void read(rpc_t &rpc) { ++this->h->r->s_reads; C().ev("srv %d read", this->h->r->id); rpc.start_read(); }
  void finish_later(rpc_t &rpc) { auto h = this->h; if (h->deferred) return; h->deferred = true; later([h, &rpc] { if (!h->dead && !h->r->fin) { h->stopped = true; fin_collect(rpc, h->r); } }); }
  HCollectB(Svc &, rpc_t &rpc) : HOpt<Collect, V>(rpc) {
    maybe_throw(this);
    Ctx &c = C();
    if (c.chance(1, 8)) rpc.StartSendInitialMetadata();
    if (c.chance(1, 12)) { this->h->stopped = true; fin_collect(rpc, this->h->r); return; } // answers without reading
    if (c.chance(1, 6)) { auto h = this->h; later([this, h, &rpc] { if (usable(*h)) read(rpc); }); }
    else read(rpc);
    if (maybe_cancel(rpc)) {}
  }
  void on_read_ok(rpc_t &rpc, hg::RequestToken<Collect> token) {
    this->alive("on_read_ok"); auto h = this->h; Rec *r = h->r; Ctx &c = C();
    C().ev("srv %d on_read_ok", r->id);
    if (++r->s_read_cbs > r->s_reads) FAILP(P5, "unrequested-read", "call %d: more read callbacks than reads", r->id);
    std::size_t idx = static_cast<std::size_t>(r->s_read_cbs) - 1;
    if (c.chance(1, 10) && usable(*h)) { later([this, h, &rpc, token, idx] { if (usable(*h)) { C().probe("message looked at after the callback"); look(rpc, token, idx); } }); return; }
    look(rpc, token, idx);
  }
  void look(rpc_t &rpc, const hg::RequestToken<Collect> &token, std::size_t idx) {
    auto h = this->h; Rec *r = h->r; Ctx &c = C(); Status st;
    if (!decode_request(token, r, idx, st)) { if (h->stopped) return; h->stopped = true; fin_status(rpc, r, st); return; }
    if (h->stopped) return;
    switch (c.weighted(12, 2, 1, 1, 1)) {
    case 0: read(rpc); break;
    case 1: later([this, h, &rpc] { if (usable(*h)) read(rpc); }); break;
    case 2: h->stopped = true; fin_collect(rpc, r); break;
    case 3: finish_later(rpc); h->stopped = true; break;
    default: read(rpc); finish_later(rpc); break; // will finish while a read is outstanding
    }
  }
};
template <class Svc, int V> struct HCollect : HCollectB<Svc, V> {
  using HCollectB<Svc, V>::HCollectB; using rpc_t = hg::ServerRPC<Collect>;
  bool on_read_eof(rpc_t &rpc) requires ((V & EOI) != 0) { return terminal_read(this, rpc, false); }
  bool on_read_cancel(rpc_t &rpc) requires ((V & RCANCEL) != 0) { return terminal_read(this, rpc, true); }
};
// writes one reply; false: it could not be encoded, so the library has finished the call
template <class Rpc> bool srv_write(Rpc &rpc, Rec *r, HS *h, Resp p) {
  Ctx &c = C();
  if (bad(S->p_bad)) {
    p.text = maybe_bad_text(); c.fault("unencodable-reply"); if (!r->fin && !r->lib && !over(r)) { r->lib = true; r->fin_status = kEncode; }
    h->stopped = true; C().ev("srv %d write bad", r->id);
    if (c.pick(2)) rpc.write(p); else rpc.write(p, grpc::WriteOptions{});
    return false;
  }
  if (!r->fin && !r->lib && !over(r)) r->s_wrote.push_back(sig(p)); // a write after the end goes nowhere
  ++r->s_writes; ++h->sent;
  C().ev("srv %d write #%d", r->id, r->s_writes);
  grpc::WriteOptions wo; if (c.pick(3) == 2) wo.set_buffer_hint(); if (c.pick(4) == 3) wo.set_no_compression();
  switch (c.weighted(4, 2, 1)) {
  case 0: with_opt(c, [&](auto... o) { rpc.write(p, o...); }); break;
  case 1: with_opt(c, [&](auto... o) { rpc.write(p, wo, o...); }); break;
  default: rpc.write(raw_of(p), wo); break;
  }
  return true;
}
template <class Rpc> void srv_fin(Rpc &rpc, Rec *r, HS *h, bool last_message) {
  Ctx &c = C(); h->stopped = true;
  if (!last_message) { fin_status(rpc, r, mk_status(c)); return; }
  Resp p = mk_resp(c, 5000 + static_cast<unsigned>(r->id));
  Status s = c.pick(2) ? Status::OK : mk_status(c); grpc::WriteOptions wo;
  C().ev("srv %d write+finish", r->id);
  if (bad(S->p_bad)) { p.text = maybe_bad_text(); c.fault("unencodable-reply"); note_finish(r, kEncode); rpc.finish(p); return; }
  if (!r->fin && !r->lib && !over(r)) r->s_wrote.push_back(sig(p));
  switch (c.pick(4)) {
  case 0: note_finish(r, Status::OK); with_opt(c, [&](auto... o) { rpc.finish(p, o...); }); break;
  case 1: note_finish(r, Status::OK); with_opt(c, [&](auto... o) { rpc.finish(p, wo, o...); }); break;
  case 2: note_finish(r, s); with_opt(c, [&](auto... o) { rpc.finish(p, wo, s, o...); }); break;
  default: note_finish(r, s); rpc.finish(raw_of(p), wo, s); break;
  }
}
template <class H, class Rpc> bool write_failed(H *self, Rpc &rpc) {
  self->alive("on_write_error"); auto h = self->h; Rec *r = h->r; Ctx &c = C();
  C().ev("srv %d on_write_error", r->id);
  if (++r->s_write_cbs > r->s_writes) FAILP(P5, "unrequested-write", "call %d: more write callbacks than writes", r->id);
  r->s_write_failed = true;
  SimCall *s = r->link->s;
  if (!s || (!s->ended && !s->sent_trl)) FAILP(P5, "write-error-lie", "call %d: a write failed on a healthy call", r->id);
  if (r->fin) return c.pick(2);
  switch (c.weighted(3, 2, 2)) {
  case 0: h->stopped = true; fin_status(rpc, r, mk_status(c)); return true;
  case 1: h->stopped = true; self->finish_later(rpc); return claims(self);
  default:
    h->stopped = true;
    if (!r->lib && !over(r)) { r->lib = true; r->fin_status = rpc.context().IsCancelled() ? Status::CANCELLED : Status{grpc::StatusCode::UNKNOWN, "write failed"}; }
    c.probe("library finishes after a failed write"); return false;
  }
}
template <class Svc, int V> struct HFanB : HOpt<Fan, V> {
  using rpc_t = hg::ServerRPC<Fan>;
  void finish_later(rpc_t &rpc) { auto h = this->h; if (h->deferred) return; h->deferred = true; later([h, &rpc] { if (!h->dead && !h->r->fin) { h->stopped = true; fin_status(rpc, h->r, mk_status(C())); } }); }
  void next(rpc_t &rpc) {
    auto *h = this->h.get();
    if (h->sent < h->target) { bool last = h->sent + 1 == h->target; if (last && C().pick(3) == 2) { srv_fin(rpc, h->r, h, true); return; } srv_write(rpc, h->r, h, mk_resp(C(), static_cast<unsigned>(h->sent))); }
    else srv_fin(rpc, h->r, h, false);
  }
  void next_or_later(rpc_t &rpc) { auto h = this->h; if (C().pick(4) == 3) later([this, h, &rpc] { if (usable(*h)) next(rpc); }); else next(rpc); }
  HFanB(Svc &, rpc_t &rpc, hg::RequestToken<Fan> token) : HOpt<Fan, V>(rpc) {
    Status st; bool ok = decode_request(token, this->h->r, 0, st);
    maybe_throw(this);
    if (!ok) { fin_status(rpc, this->h->r, st); return; }
    this->h->target = static_cast<int>(C().pick(6));
    if (C().chance(1, 8)) rpc.StartSendInitialMetadata();
    maybe_cancel(rpc);
    next_or_later(rpc);
  }
  void on_write_ok(rpc_t &rpc) {
    this->alive("on_write_ok"); Rec *r = this->h->r; C().ev("srv %d on_write_ok", r->id);
    if (++r->s_write_cbs > r->s_writes) FAILP(P5, "unrequested-write", "call %d: more write callbacks than writes", r->id);
    if (this->h->stopped) return;
    next_or_later(rpc);
  }
};
template <class Svc, int V> struct HFan : HFanB<Svc, V> { using HFanB<Svc, V>::HFanB; bool on_write_error(hg::ServerRPC<Fan> &rpc) requires ((V & WERR) != 0) { return write_failed(this, rpc); } };

template <class Svc, int V> struct HChatB : HOpt<Chat, V> {
  using rpc_t = hg::ServerRPC<Chat>;
  bool writing = false;
  void read(rpc_t &rpc) { ++this->h->r->s_reads; C().ev("srv %d read", this->h->r->id); rpc.start_read(); }
  void finish_later(rpc_t &rpc) { auto h = this->h; if (h->deferred) return; h->deferred = true; later([h, &rpc] { if (!h->dead && !h->r->fin) { h->stopped = true; fin_status(rpc, h->r, mk_status(C())); } }); }
  void fin_now(rpc_t &rpc) { srv_fin(rpc, this->h->r, this->h.get(), !writing && C().pick(3) == 2); }
  void pump(rpc_t &rpc) {
    auto *h = this->h.get();
    if (writing || h->stopped) return;
    if (!h->q.empty()) { Resp p = std::move(h->q.front()); h->q.pop_front(); writing = srv_write(rpc, h->r, h, std::move(p)); }
    else if (h->eof) fin_now(rpc);
  }
  HChatB(Svc &, rpc_t &rpc) : HOpt<Chat, V>(rpc) {
    maybe_throw(this);
    auto h = this->h; Ctx &c = C();
    if (c.chance(1, 8)) rpc.StartSendInitialMetadata();
    if (c.chance(1, 3)) h->q.push_back(mk_resp(c, 900)); // speaks first
    if (c.chance(1, 6)) later([this, h, &rpc] { if (usable(*h)) { read(rpc); } });
    else read(rpc);
    maybe_cancel(rpc);
    pump(rpc);
    if (c.chance(1, 10)) finish_later(rpc);
  }
  void on_read_ok(rpc_t &rpc, hg::RequestToken<Chat> token) {
    this->alive("on_read_ok"); auto h = this->h; Rec *r = h->r; Ctx &c = C();
    C().ev("srv %d on_read_ok", r->id);
    if (++r->s_read_cbs > r->s_reads) FAILP(P5, "unrequested-read", "call %d: more read callbacks than reads", r->id);
    if (c.chance(1, 5) && usable(*h)) { c.probe("message looked at after writing"); if (h->q.empty()) h->q.push_back(mk_resp(c, 700)); pump(rpc); }
    std::size_t idx = static_cast<std::size_t>(r->s_read_cbs) - 1;
    if (c.chance(1, 8) && usable(*h)) { // the message is looked at elsewhere, until then nothing more is read
      later([this, h, &rpc, token, idx] { if (usable(*h)) { C().probe("message looked at after the callback"); look(rpc, token, idx); } });
      return;
    }
    look(rpc, token, idx);
  }
  void look(rpc_t &rpc, const hg::RequestToken<Chat> &token, std::size_t idx) {
    auto h = this->h; Rec *r = h->r; Ctx &c = C();
    Status st;
    if (!decode_request(token, r, idx, st)) { if (h->stopped) return; h->stopped = true; fin_status(rpc, r, st); return; }
    if (h->stopped) { if (r->lib && !r->fin && c.pick(2)) { C().probe("handler goes on after the library ended the call"); read(rpc); } return; }
    for (unsigned n = c.weighted(3, 1, 2); n; --n) h->q.push_back(mk_resp(c, static_cast<unsigned>(idx)));
    switch (c.weighted(10, 2, 1, 1)) {
    case 0: read(rpc); break;
    case 1: later([this, h, &rpc] { if (usable(*h)) read(rpc); }); break;
    case 2: read(rpc); finish_later(rpc); break;
    default: if (writing) read(rpc); else { fin_now(rpc); return; } break;
    }
    pump(rpc);
  }
  void on_write_ok(rpc_t &rpc) {
    this->alive("on_write_ok"); auto h = this->h; Rec *r = h->r; C().ev("srv %d on_write_ok", r->id);
    if (++r->s_write_cbs > r->s_writes) FAILP(P5, "unrequested-write", "call %d: more write callbacks than writes", r->id);
    writing = false;
    if (C().pick(5) == 4) later([this, h, &rpc] { if (usable(*h)) pump(rpc); });
    else pump(rpc);
  }
};
template <class Svc, int V> struct HChat : HChatB<Svc, V> {
  using HChatB<Svc, V>::HChatB; using rpc_t = hg::ServerRPC<Chat>;
  bool on_read_eof(rpc_t &rpc) requires ((V & EOI) != 0) {
    auto h = this->h;
    if (rpc.context().IsCancelled()) FAILP(P5, "eof-lie", "call %d: a cancellation is reported as the end of input", h->r->id);
    if (!h->r->fin && !h->stopped && C().pick(2)) { // drain the queue first, then finish
      this->alive("on_read_eof"); if (!h->r->lib && !over(h->r)) h->r->eof_seen = true; ++h->r->s_read_cbs; h->r->s_read_failed = true; h->eof = true; C().ev("srv %d eof, drains", h->r->id);
      SimCall *s = h->r->link->s; if (!s || (!s->ended && !s->half)) FAILP(P5, "eof-lie", "call %d: end of input reported while the peer is still there", h->r->id);
      bool r = claims(this); this->pump(rpc); return r;
    }
    return terminal_read(this, rpc, false);
  }
  bool on_read_cancel(rpc_t &rpc) requires ((V & RCANCEL) != 0) { return terminal_read(this, rpc, true); }
  bool on_write_error(rpc_t &rpc) requires ((V & WERR) != 0) { this->writing = false; return write_failed(this, rpc); }
};
template <int V> struct Svc : hg::CallbackService<Svc<V>, ES::_methods> {
  auto handle(Unary) -> HUnary<Svc, V>;
  auto handle(Collect) -> HCollect<Svc, V>;
  auto handle(Fan) -> HFan<Svc, V>;
  auto handle(Chat) -> HChat<Svc, V>;
};

// ---------------------------------------------------------------- client
void client_done(Rec *r, const Status &s) {
  C().ev("cli %d done %s", r->id, show(s).c_str());
  if (++r->done_count > 1) FAILP(P1, "client-done-twice", "call %d (%s): completion delivered %d times", r->id, r->how, r->done_count);
  r->done = true; r->status = s;
}
void client_cb(Rec *r, const char *what) { if (r->done) FAILP(P1, "client-callback-after-done", "call %d (%s): %s after completion", r->id, r->how, what); C().ev("cli %d %s", r->id, what); }
Rec *new_rec(int kind, const char *how) {
  auto p = std::make_unique<Rec>(); Rec *r = p.get();
  r->id = static_cast<int>(S->recs.size()); r->kind = kind; r->how = how;
  S->recs.push_back(std::move(p));
  Ctx &c = C();
  if (bad(S->p_deadline)) { gpr_timespec t{}; long us = W->now + 1 + c.pick(1500); t.tv_sec = us / 1000000; t.tv_nsec = static_cast<int>(us % 1000000) * 1000; t.clock_type = GPR_CLOCK_REALTIME; r->ctx->set_deadline(t); }
  if (bad(S->p_cancel)) W->at(c.pick(1200), [r] { if (!r->done && r->started) { C().fault("client-cancel"); C().ev("cli %d TryCancel", r->id); r->ctx->TryCancel(); } });
  if (bad(S->p_reset)) W->at(c.pick(1200), [r] { if (r->link) W->reset_link(r->link); });
  return r;
}
Rec *g_cur = nullptr; // the call being created
void on_new_link(Link *l) { if (g_cur) { g_cur->link = l; S->by_link[l] = g_cur; g_cur = nullptr; } }
void starts(Rec *r) { g_cur = r; r->started = true; }
Req client_req(Rec *r, unsigned seq, bool *good) {
  Req q = mk_req(C(), seq); *good = true;
  if (bad(S->p_bad)) { q.text = maybe_bad_text(); *good = false; C().fault("unencodable-request"); }
  return q;
}
// a response message as the client's code reads it
template <class Rx, class M, class MV> bool client_read(Rx *rx, Rec *r, std::string &out, Status *stp = nullptr) {
  Ctx &c = C(); Status st; std::string got;
  if (c.chance(1, 3)) { std::pmr::monotonic_buffer_resource mr; MV v; st = rx->template get_response<hpp_proto::non_owning_traits>(v, hpp_proto::alloc_from(mr)); if (st.ok()) got = sig(v); }
  else { M v; if (c.chance(1, 4)) v = M{}; st = rx->get_response(v); if (st.ok()) got = sig(v); if (c.chance(1, 5)) { M v2; Status s2 = rx->get_response(v2); if (s2.ok() != st.ok() || (st.ok() && sig(v2) != got)) FAILP(P2, "get-response", "reading the response twice gives different results"); } }
  if (stp) *stp = st;
  if (!st.ok() && !same(st, kDecode)) FAILP(P3, "decode-status", "decode failure reported as %s", show(st).c_str());
  out = got;
  return st.ok();
}
struct Counted { Counted() { ++S->live_reactors; } ~Counted() { if (S) --S->live_reactors; } Counted(const Counted &) = delete; };
void unary_result(Rec *r, const Status &s, std::optional<std::string> got) { r->reply = std::move(got); client_done(r, s); }

struct RUnary final : hg::ClientCallbackReactor<Unary>, Counted {
  Rec *r; explicit RUnary(Rec *x) : r(x) {}
  void OnReadInitialMetadataDone(bool) override { client_cb(r, "OnReadInitialMetadataDone"); }
  void OnDone(const Status &s) override {
    std::optional<std::string> got;
    if (s.ok()) { std::string g; if (client_read<RUnary, Resp, RespV>(this, r, g)) got = g; else r->reply_bad = true; }
    unary_result(r, s, got);
    delete this;
  }
};
struct RMissing final : hg::ClientCallbackReactor<Missing>, Counted {
  Rec *r; explicit RMissing(Rec *x) : r(x) {}
  void OnReadInitialMetadataDone(bool) override { client_cb(r, "OnReadInitialMetadataDone"); }
  void OnDone(const Status &s) override { client_done(r, s); delete this; }
};
struct Tok { Tok() { ++S->live_callbacks; } Tok(const Tok &) { ++S->live_callbacks; } ~Tok() { if (S) --S->live_callbacks; } };
void do_unary() {
  Ctx &c = C();
  unsigned how = c.pick(3);
  if (c.chance(1, 15)) {
    Rec *r = new_rec(4, "missing"); Req q = mk_req(c, 1); starts(r);
    auto *rx = new RMissing(r); S->stub->async_call<Missing>(*r->ctx, q, rx); rx->start_call(); return;
  }
  Rec *r = new_rec(0, how == 0 ? "reactor" : how == 1 ? "callback" : "sync");
  bool good; Req q = client_req(r, static_cast<unsigned>(r->id), &good);
  if (good) r->wrote.push_back(sig(q)); else r->encode_failed = true;
  starts(r);
  c.ev("cli %d unary %s good %d", r->id, r->how, good);
  if (how == 0) {
    auto *rx = new RUnary(r);
    if (c.chance(1, 4)) with_opt(c, [&](auto... o) { rx->prepare(*S->stub, *r->ctx, q, o...); });
    else S->stub->async_call<Unary>(*r->ctx, q, rx);
   
    if (c.chance(1, 4)) later([rx] { rx->start_call(); });
    else rx->start_call();
  } else if (how == 1) {
    switch (c.pick(3)) {
    case 0: { auto resp = std::make_shared<Resp>(); S->stub->async_call<Unary>(*r->ctx, q, *resp, [r, resp, t = Tok{}](const Status &s) { unary_result(r, s, s.ok() ? std::optional(sig(*resp)) : std::nullopt); }); break; }
    case 1: { auto resp = std::make_shared<RespV>(); auto mr = std::make_shared<std::pmr::monotonic_buffer_resource>(); S->stub->async_call<Unary>(*r->ctx, q, *resp, [r, resp, mr, t = Tok{}](Status s) { unary_result(r, s, s.ok() ? std::optional(sig(*resp)) : std::nullopt); }, hpp_proto::alloc_from(*mr)); break; }
    default: { auto mr = std::make_shared<std::pmr::monotonic_buffer_resource>(); auto resp = std::make_shared<RespP>(RespP{}); S->stub->async_call<Unary>(*r->ctx, q, *resp, [r, resp, mr, t = Tok{}](const Status &s) { unary_result(r, s, s.ok() ? std::optional(sig(*resp)) : std::nullopt); }); break; }
    }
   
  } else {
    // other events run while this thread is blocked in the call
    Status s; std::optional<std::string> got;
    switch (c.pick(3)) {
    case 0: { Resp resp; if (c.pick(2)) resp = mk_resp(c, 3); with_opt(c, [&](auto... o) { s = S->stub->call<Unary>(*r->ctx, q, resp, o...); }); if (s.ok()) got = sig(resp); break; }
    case 1: { RespV resp; std::pmr::monotonic_buffer_resource mr; s = S->stub->call<Unary>(*r->ctx, q, resp, hpp_proto::alloc_from(mr)); if (s.ok()) got = sig(resp); break; }
    default: { RespP resp; s = S->stub->call<Unary>(*r->ctx, q, resp); if (s.ok()) got = sig(resp); break; }
    }
    unary_result(r, s, got);
  }
}
// client end of the writing methods
// holds keep a call open; n of them need n removals
template <class Rx> int put_holds(Rx *rx) {
  Ctx &c = C(); int n = c.pick(3) == 2 ? 2 + static_cast<int>(c.pick(3)) : 1;
  if (n > 1) { c.probe("several holds at once"); rx->add_multiple_holds(n); } else if (c.pick(2)) rx->add_hold(); else rx->add_multiple_holds(1);
  return n;
}
template <class Rx> void drop_holds(Rx *rx, Rec *r, int &held) {
  int n = held;
  for (int i = 0; i < n; ++i) { if (i + 1 == n) held = 0; C().ev("cli %d remove_hold", r->id); rx->remove_hold(); }
}
template <class Method> struct RWriteBase : hg::ClientCallbackReactor<Method>, Counted {
  Rec *r; int left = 0, held = 0; bool closed = false, waiting = false;
  explicit RWriteBase(Rec *x) : r(x), left(static_cast<int>(C().weighted(2, 3, 3, 2, 1)) + static_cast<int>(C().chance(1, 8) ? C().pick(8) : 0)) {}
  void drop() { drop_holds(this, r, held); }
  // starts the next write or closes the stream
  void next() {
    Ctx &c = C();
    while (left > 0) {
      --left; bool good; Req q = client_req(r, static_cast<unsigned>(r->wrote.size()), &good);
      grpc::WriteOptions wo; if (c.pick(4) == 3) wo.set_buffer_hint();
      bool last = left == 0 && c.pick(2);
      if (good) r->wrote.push_back(sig(q));
      Status st;
      C().ev("cli %d write good %d last %d", r->id, good, last);
      ++r->writes_out;
      if (last) with_opt(c, [&](auto... o) { st = this->write_last(q, wo, o...); });
      else if (c.pick(2)) with_opt(c, [&](auto... o) { st = this->write(q, o...); });
      else with_opt(c, [&](auto... o) { st = this->write(q, wo, o...); });
      if (st.ok() != good) FAILP(P3, "write-status", "writing a %s message returned %s", good ? "good" : "bad", show(st).c_str());
      if (good) { if (last) { closed = true; r->half_closed = true; } waiting = true; return; }
      if (!same(st, kEncode)) FAILP(P3, "write-status", "encode failure reported as %s", show(st).c_str());
      --r->writes_out;
    }
    if (!closed) { closed = true; r->half_closed = true; C().ev("cli %d writes_done", r->id); this->write_done(); }
    drop();
  }
  void wrote(bool ok) {
    client_cb(r, ok ? "OnWriteDone 1" : "OnWriteDone 0");
    if (--r->writes_out < 0) FAILP(P1 | P5, "unrequested-write", "call %d: write completion without a write", r->id);
    waiting = false;
    if (!ok) { left = 0; closed = true; drop(); return; }
    if (closed) { drop(); return; }
    if (held && C().pick(3) == 2) { later([this] { next(); }); return; }
    next();
  }
  void begin() {
    Ctx &c = C();
    if (c.chance(1, 3)) held = put_holds(this);
    bool early = c.chance(1, 3); // the first write may precede start_call
    if (early) next();
    this->start_call();
    if (!early) { if (held && c.pick(2)) later([this] { next(); }); else if (held || c.pick(2)) next(); else next_nohold(); }
  }
  void next_nohold() { next(); }
};
struct RCollect final : RWriteBase<Collect> {
  using RWriteBase::RWriteBase;
  void OnReadInitialMetadataDone(bool) override { client_cb(r, "OnReadInitialMetadataDone"); }
  void OnWriteDone(bool ok) override { wrote(ok); }
  void OnWritesDoneDone(bool) override { client_cb(r, "OnWritesDoneDone"); }
  void OnDone(const Status &s) override {
    if (held) FAILP(P1, "done-under-hold", "call %d: completion while a hold is in place", r->id);
    std::optional<std::string> got;
    if (s.ok()) { std::string g; if (client_read<RCollect, Sum, SumV>(this, r, g)) got = g; else r->reply_bad = true; }
    unary_result(r, s, got);
    delete this;
  }
};
// a received stream message; false: stop reading
template <class Rx> bool stream_message(Rx *rx, Rec *r) {
  auto &db = r->link->delivered_bad[1]; std::size_t idx = r->got.size();
  std::string g; bool ok = client_read<Rx, Resp, RespV>(rx, r, g);
  if (idx >= db.size()) FAILP(P2, "read-count", "call %d: the client read message #%zu, only %zu were delivered", r->id, idx, db.size());
  if (db[idx] && ok) FAILP(P3, "damaged-accepted", "call %d: a damaged message was decoded", r->id);
  if (!db[idx] && !ok) FAILP(P2 | P3, "decode-failed", "call %d: intact message #%zu rejected by the client", r->id, idx);
  if (ok && (idx >= r->s_wrote.size() || g != r->s_wrote[idx])) FAILP(P2, "response-content", "call %d: the client's message #%zu differs from the one written: got '%s' want '%s'", r->id, idx, g.substr(0, 200).c_str(), idx < r->s_wrote.size() ? r->s_wrote[idx].substr(0, 200).c_str() : "-");
  r->got.push_back(ok ? g : "?");
  return ok || C().pick(2);
}
struct RFan final : hg::ClientCallbackReactor<Fan>, Counted {
  Rec *r; int held = 0;
  explicit RFan(Rec *x) : r(x) {}
  void OnReadInitialMetadataDone(bool) override { client_cb(r, "OnReadInitialMetadataDone"); }
  void read() { ++r->reads_out; C().ev("cli %d read", r->id); start_read(); }
  void drop() { drop_holds(this, r, held); }
  void OnReadDone(bool ok) override {
    client_cb(r, ok ? "OnReadDone 1" : "OnReadDone 0");
    if (--r->reads_out < 0) FAILP(P1 | P5, "unrequested-read", "call %d: read completion without a read", r->id);
    if (!ok) { drop(); return; }
    if (!stream_message(this, r)) { r->abandoned_reads = true; C().ev("cli %d gives up", r->id); r->ctx->TryCancel(); drop(); return; }
    if (held && C().pick(3) == 2) { later([this] { read(); }); return; }
    read();
  }
  void OnDone(const Status &s) override { if (held) FAILP(P1, "done-under-hold", "call %d: completion while a hold is in place", r->id); client_done(r, s); delete this; }
};
void do_fan() {
  Ctx &c = C(); Rec *r = new_rec(2, "fan"); bool good; Req q = client_req(r, 3, &good);
  if (good) r->wrote.push_back(sig(q)); else r->encode_failed = true;
  starts(r); auto *rx = new RFan(r);
  c.ev("cli %d fan good %d", r->id, good);
  if (c.chance(1, 4)) with_opt(c, [&](auto... o) { rx->prepare(*S->stub, *r->ctx, q, o...); });
  else S->stub->async_call<Fan>(*r->ctx, q, rx);
 
  if (c.chance(1, 3)) rx->held = put_holds(rx);
  if (!good) { // whatever the application does next, the call ends exactly once
    if (rx->held || c.pick(2)) rx->start_read();
    int h = rx->held; rx->held = 0;
    rx->start_call();
    for (int i = 0; i < h; ++i) later([rx, r] {
      if (r->done) FAILP(P1, "done-under-hold", "call %d: completion while a hold is in place", r->id);
      rx->remove_hold();
    });
    return;
  }
  bool early = c.pick(2);
  if (early) rx->read();
  if (!early && rx->held && c.pick(2)) { rx->start_call(); later([rx] { rx->read(); }); return; }
  if (!early) rx->read();
  rx->start_call();
}
void do_collect() {
  Rec *r = new_rec(1, "collect"); starts(r); auto *rx = new RCollect(r);
  C().ev("cli %d collect", r->id);
  S->stub->async_call<Collect>(*r->ctx, rx);
  rx->begin();
}
struct RChat final : RWriteBase<Chat> {
  int rheld = 0;
  using RWriteBase::RWriteBase;
  void rdrop() { drop_holds(this, r, rheld); }
  void read() { ++r->reads_out; C().ev("cli %d read", r->id); start_read(); }
  void OnReadInitialMetadataDone(bool) override { client_cb(r, "OnReadInitialMetadataDone"); }
  void OnWriteDone(bool ok) override { wrote(ok); }
  void OnWritesDoneDone(bool) override { client_cb(r, "OnWritesDoneDone"); }
  void OnReadDone(bool ok) override {
    client_cb(r, ok ? "OnReadDone 1" : "OnReadDone 0");
    if (--r->reads_out < 0) FAILP(P1 | P5, "unrequested-read", "call %d: read completion without a read", r->id);
    if (!ok) { rdrop(); return; }
    if (!stream_message(this, r)) { r->abandoned_reads = true; C().ev("cli %d gives up", r->id); r->ctx->TryCancel(); rdrop(); return; }
    if (rheld && C().pick(3) == 2) { later([this] { read(); }); return; }
    read();
  }
  void OnDone(const Status &s) override { if (held || rheld) FAILP(P1, "done-under-hold", "call %d: completion while a hold is in place", r->id); client_done(r, s); delete this; }
};
void do_chat() {
  Rec *r = new_rec(3, "chat"); starts(r); auto *rx = new RChat(r);
  C().ev("cli %d chat", r->id);
  S->stub->async_call<Chat>(*r->ctx, rx);
  if (C().chance(1, 3)) rx->rheld = put_holds(rx);
  rx->read();
  rx->begin();
}

// ---------------------------------------------------------------- checks over the finished history
void check_call(Rec *r) {
  Link *l = r->link;
  if (!r->done) {
    std::string why = "client completion missing";
    FAILP(P1 | P4, "stall", "call %d (%s, kind %d): nothing left to happen but the call never completed for the client (handler %s, final status %s)", r->id, r->how, r->kind, r->created ? "exists" : "never created", l && l->status_sent ? "sent" : "not sent");
  }
  if (r->created && !r->threw && !r->destroyed) FAILP(P1 | P4, "stall-server", "call %d (%s): the server handler was never released (finished: %d, by library: %d)", r->id, r->how, r->fin, r->lib);
  if (r->encode_failed) {
    if (!same(r->status, kEncode)) FAILP(P3, "encode-status", "call %d (%s): request could not be encoded, client was told %s", r->id, r->how, show(r->status).c_str());
    if (r->created) FAILP(P3, "encode-status", "call %d: a request that could not be encoded reached the server", r->id);
    return;
  }
  bool faulty = l->reset || l->client_cancel || l->server_cancel || l->deadline_hit;
  Status sent{static_cast<grpc::StatusCode>(l->st_code), l->st_msg, l->st_details};
  // what the server put on the wire against what was asked for
  if (l->status_sent && r->kind != 4) {
    if (r->threw) { if (sent.error_code() != grpc::StatusCode::UNIMPLEMENTED) FAILP(P3, "throw-status", "handler construction failed, server sent %s", show(sent).c_str()); }
    else if (r->fin || r->lib) { if (!same(sent, r->fin_status)) FAILP(P3 | P5, "server-status", "call %d (%s): the %s finished with %s, the server sent %s", r->id, r->how, r->fin ? "handler" : "library", show(r->fin_status).c_str(), show(sent).c_str()); }
    else { // a handler without terminal callbacks: the library finished
      bool ok = (sent.ok() && (r->kind == 1 || r->kind == 3)) || same(sent, Status::CANCELLED) || (r->kind >= 2 && same(sent, Status{grpc::StatusCode::UNKNOWN, "write failed"}));
      if (!ok) FAILP(P3 | P5, "library-status", "call %d: the library finished with %s", r->id, show(sent).c_str());
      if (!sent.ok() && !faulty) FAILP(P3 | P5, "library-status", "call %d: the library finished a healthy call with %s", r->id, show(sent).c_str());
    }
  }
  bool dmg_reply = r->kind <= 1 && !l->delivered_bad[1].empty() && l->delivered_bad[1][0];
  Status want = sent;
  bool sync_like = r->kind == 0 && r->how[0] != 'r';
  if (want.ok() && dmg_reply && sync_like) want = r->how[0] == 's' && r->status.error_code() == grpc::StatusCode::UNIMPLEMENTED ? r->status : kDecode; // libgrpc++ words it its own way for blocking calls
  bool match = l->status_sent && same(r->status, want);
  if (!faulty) {
    if (!l->status_sent) FAILP(P3 | P4, "no-status", "call %d: completed for the client with %s although the server never finished", r->id, show(r->status).c_str());
    if (!match) FAILP(P3, "status", "call %d (%s): the server finished with %s, the client saw %s", r->id, r->how, show(want).c_str(), show(r->status).c_str());
  } else if (!match) {
    int k = r->status.error_code();
    bool ok = (k == GRPC_STATUS_CANCELLED && (l->client_cancel || l->server_cancel || l->deadline_hit)) || (k == GRPC_STATUS_UNAVAILABLE && l->reset) || (k == GRPC_STATUS_DEADLINE_EXCEEDED && l->deadline_hit);
    if (!ok) FAILP(P3, "status", "call %d (%s): client saw %s, server %s %s, reset %d cancel %d/%d deadline %d", r->id, r->how, show(r->status).c_str(), l->status_sent ? "sent" : "never sent", show(want).c_str(), l->reset, l->client_cancel, l->server_cancel, l->deadline_hit);
  }
  if (r->kind <= 1 && r->status.ok()) {
    if (dmg_reply) { if (!r->reply_bad) FAILP(P3, "damaged-accepted", "call %d: damaged response accepted", r->id); }
    else if (r->s_reply) { if (r->reply != r->s_reply) FAILP(P2 | P3, "response-content", "call %d (%s): response '%s' differs from what the handler gave '%s'", r->id, r->how, r->reply ? r->reply->substr(0, 200).c_str() : "none", r->s_reply->substr(0, 200).c_str()); }
    else if (r->reply_bad) FAILP(P3, "decode-failed", "call %d: an empty response cannot be read", r->id);
  }
  if (r->kind <= 1 && !r->status.ok() && r->reply) FAILP(P3, "response-with-error", "call %d: a response came with status %s", r->id, show(r->status).c_str());
  // streams
  if (r->kind == 1 || r->kind == 3) {
    if (r->s_got.size() > r->wrote.size()) FAILP(P2, "more-than-written", "call %d: server read %zu messages, client wrote %zu", r->id, r->s_got.size(), r->wrote.size());
    bool dam = false; for (bool b : l->bad[0]) dam |= b;
    if (!faulty && !dam && r->half_closed && r->eof_seen && r->s_got.size() != r->wrote.size()) FAILP(P2, "lost-message", "call %d: end of stream after %zu of %zu messages", r->id, r->s_got.size(), r->wrote.size());
  }
  if (r->kind >= 2 && r->kind <= 3) {
    if (!faulty && !r->abandoned_reads && r->status.error_code() == l->st_code && r->got.size() != r->s_wrote.size()) FAILP(P2, "lost-message", "call %d: the client read %zu of %zu messages before the final status", r->id, r->got.size(), r->s_wrote.size());
  }
  if (l->status_sent && r->kind != 4 && r->done_calls == 0 && S->p_throw == 0) {} // handlers without on_done
  if (r->created && !r->threw) {
    bool has_done = r->done_calls > 0;
    if (!has_done && S->svc && S->has_done) FAILP(P1 | P5, "no-done", "call %d: handler released without on_done", r->id);
  }
}
void run(Ctx &c, unsigned prop, bool faults) {
  g_prop = prop;
  g_big = c.chance(1, 12) ? 3 : 0;
  g_cur = nullptr;
  if (setjmp(g_abandon)) { S = nullptr; W = nullptr; return; } // whatever the run held is leaked
  auto *sp = new Sim(c);
  Sim &s = *sp;
  s.w.on_new_link = on_new_link;
  for (auto &x : s.w.w) { static const unsigned ws[] = {4, 1, 16, 60}; x = ws[c.pick(4)]; }
  s.w.frag = 1;
  static const unsigned rate[] = {0, 3, 8, 30};
  if (faults) {
    s.w.damage = rate[c.weighted(5, 1, 1, 1)];
    s.p_bad = rate[c.weighted(3, 1, 2, 2)]; s.p_cancel = rate[c.weighted(2, 2, 1, 1)]; s.p_deadline = rate[c.weighted(2, 1, 1, 1)];
    s.p_reset = rate[c.weighted(2, 2, 1, 1)]; s.p_scancel = rate[c.weighted(4, 1, 1, 1)]; s.p_throw = rate[c.weighted(5, 0, 1, 1)];
  }
  switch (c.weighted(8, 3, 2, 2, 2, 2)) {
  case 0: s.svc = std::make_unique<Svc<EVERY>>(); s.has_done = true; break;
  case 1: s.svc = std::make_unique<Svc<0>>(); break;
  case 2: s.svc = std::make_unique<Svc<DONE | EOI>>(); s.has_done = true; break;
  case 3: s.svc = std::make_unique<Svc<CANCEL | RCANCEL>>(); break;
  case 4: s.svc = std::make_unique<Svc<DONE | SMD | WERR>>(); s.has_done = true; break;
  default: s.svc = std::make_unique<Svc<CANCEL | EOI | WERR>>(); break;
  }
  for (auto &m : methods_of(*s.svc)) if (m) s.w.methods[m->name()] = m.get();
  if (s.w.methods.size() != 4) c.fail("service", "the service registered %zu methods instead of the 4 it handles", s.w.methods.size());
  s.w.on_status_op = [](Link *l, bool) {
    if (l->s->n_status_ops > 1) FAILP(P5, "double-finish", "call %d: a second final status was sent", l->id);
  };
  s.ch = s.w.channel();
  s.stub = std::make_unique<hg::Stub<ES::_methods>>(s.ch, grpc::StubOptions{});
  unsigned n = 1 + c.weighted(4, 3, 2, 1, 1);
  if (g_big) n = 1;
  for (unsigned i = 0; i < n; ++i) {
    unsigned kind = c.pick(4);
    auto go = [kind] { switch (kind) { case 0: do_unary(); break; case 1: do_collect(); break; case 2: do_fan(); break; default: do_chat(); } };
    if (i == 0 || c.pick(2)) s.w.post(go); else s.w.at(c.pick(800), go);
  }
  s.w.run([] { return false; });
  for (auto &r : s.recs) check_call(r.get());
  for (auto &r : s.recs) if (r->status.ok() && r->done) c.nontrivial();
  if (s.live_handlers) FAILP(P1 | P4, "handler-leak", "%d handlers left", s.live_handlers);
  if (s.live_reactors || s.live_callbacks) FAILP(P1 | P4, "reactor-leak", "%d client reactors and %d callbacks left", s.live_reactors, s.live_callbacks);
  for (auto &r : s.recs) r->ctx.reset();
  if (s.w.live_calls) FAILP(P1 | P4, "call-leak", "%d call objects left after everything completed", s.w.live_calls);
  s.svc.reset();
  delete sp;
}
template <unsigned P> void healthy(Ctx &c) { run(c, P, false); }
template <unsigned P> void faulty(Ctx &c) { run(c, P, true); }
SIM_SCENARIO("G01", "faults", 5, faulty<P1>)
SIM_SCENARIO("G01", "healthy", 1, healthy<P1>)
SIM_SCENARIO("G02", "faults", 3, faulty<P2>)
SIM_SCENARIO("G02", "healthy", 3, healthy<P2>)
SIM_SCENARIO("G03", "faults", 4, faulty<P3>)
SIM_SCENARIO("G03", "healthy", 2, healthy<P3>)
SIM_SCENARIO("G04", "faults", 5, faulty<P4>)
SIM_SCENARIO("G04", "healthy", 1, healthy<P4>)
SIM_SCENARIO("G05", "faults", 5, faulty<P5>)
SIM_SCENARIO("G05", "healthy", 1, healthy<P5>)
} // namespace
