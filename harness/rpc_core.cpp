#include "rpc_core.hpp"
#include <absl/status/status.h>
#include <cstring>
#include <grpc/byte_buffer.h>
#include <grpc/byte_buffer_reader.h>
#include <grpc/support/alloc.h>
#include <grpcpp/impl/service_type.h>
#include <stdexcept>

namespace gsim {
World *W = nullptr;
namespace {
SimCall *SC(grpc_call *c) { return reinterpret_cast<SimCall *>(c); }
grpc_call *GC(SimCall *c) { return reinterpret_cast<grpc_call *>(c); }
SimCall *new_call(Link *l, bool server) {
  auto *c = new SimCall; c->link = l; c->server = server; c->id = l->id * 2 + server;
  (server ? l->s : l->c) = c;
  ++W->live_calls;
  return c;
}
void maybe_free(SimCall *c) {
  if (c->refs > 0 || c->inflight > 0 || c->dead) return;
  c->dead = true;
  if (c->server) c->link->server_gone = true;
  for (auto *p : c->arena) free(p);
  c->arena.clear();
  for (auto &s : c->owned) grpc_slice_unref(s);
  c->owned.clear();
  (c->server ? c->link->s : c->link->c) = nullptr;
  --W->live_calls;
  delete c;
}
void finish_slot(SimCall *c, SlotId s, bool ok) {
  Batch *b = c->slot[s].b;
  c->slot[s].b = nullptr;
  if (!ok) b->ok = false;
  if (--b->pending == 0) W->ready.push_back(b);
}
void give_message(SimCall *c, const Frame *f) {
  auto *out = c->slot[S_RMSG].op.data.recv_message.recv_message;
  *out = f ? to_buffer(W->ctx, f->bytes, W->frag) : nullptr;
  if (f) c->link->delivered_bad[c->server ? 0 : 1].push_back(f->bad);
}
void fill_status(SimCall *c) {
  auto &op = c->slot[S_RST].op.data.recv_status_on_client;
  *op.status = static_cast<grpc_status_code>(c->code);
  *op.status_details = grpc_slice_from_copied_buffer(c->msg.data(), c->msg.size());
  if (op.error_string) *op.error_string = nullptr;
  if (!c->details.empty()) {
    auto *a = op.trailing_metadata;
    if (a->capacity < a->count + 1) { a->capacity = a->count + 1; a->metadata = static_cast<grpc_metadata *>(gpr_realloc(a->metadata, a->capacity * sizeof(grpc_metadata))); }
    auto k = grpc_slice_from_copied_string("grpc-status-details-bin"), v = grpc_slice_from_copied_buffer(c->details.data(), c->details.size());
    c->owned.push_back(k); c->owned.push_back(v);
    grpc_metadata m{}; m.key = k; m.value = v;
    a->metadata[a->count++] = m;
  }
}
// receive side of a call: whatever can complete now completes
void progress(SimCall *c) {
  if (!c) return;
  if (c->slot[S_RMD].b) {
    if (c->hdr) finish_slot(c, S_RMD, true);
    else if (c->ended) { c->trailers_only = c->normal; finish_slot(c, S_RMD, c->normal); }
  }
  if (c->slot[S_RMSG].b) {
    if (!c->arr.empty()) { Frame f = std::move(c->arr.front()); c->arr.pop_front(); give_message(c, &f); finish_slot(c, S_RMSG, true); }
    else if (c->ended || (c->server && c->half)) { give_message(c, nullptr); finish_slot(c, S_RMSG, true); }
  }
  if (c->slot[S_RST].b && c->ended && (c->server || c->arr.empty())) {
    if (c->server) *c->slot[S_RST].op.data.recv_close_on_server.cancelled = c->normal ? 0 : 1;
    else { fill_status(c); c->status_given = true; }
    finish_slot(c, S_RST, true);
  }
}
void end_call(SimCall *c, bool normal, int code, std::string msg, std::string details = {}) {
  if (c->ended) return;
  c->ended = true; c->normal = normal; c->code = code; c->msg = std::move(msg); c->details = std::move(details);
  if (!normal) {
    if (!c->arr.empty() && (!c->server || W->ctx.pick(2))) { c->arr.clear(); c->link->unread_dropped = true; } // the transport drops what nobody has read
    c->fail_before = W->ctx.pick(2);
    W->ctx.probe(c->server ? "server call ended abnormally" : "client call ended abnormally");
  }
  progress(c);
}
void rst(Link *l, int dir, int code, const char *msg) { l->fly[dir].push_back({F_RST, {}, code, msg}); }
// the application (or its deadline) gives up on a call
void cancel(SimCall *c, int code, const char *msg) {
  if (c->ended) {
    if (!c->server && !c->status_given && !c->arr.empty()) { // trailers are here, messages still unread
      c->arr.clear(); c->link->unread_dropped = true;
      if (W->ctx.pick(2)) { c->code = code; c->msg = msg; c->details.clear(); }
      progress(c);
    }
    return;
  }
  if (c->server) { if (!c->sent_trl || !c->trl_flushed) rst(c->link, 1, GRPC_STATUS_CANCELLED, "peer cancelled"); }
  else if (c->started) rst(c->link, 0, code, msg);
  end_call(c, false, code, msg);
}
void deliver(Link *l, int dir) {
  Frame f = std::move(l->fly[dir].front());
  l->fly[dir].pop_front();
  if (dir == 0 && !l->accepted) { // the server does not know this call yet: it is created when its head arrives
    throw std::logic_error("deliver before accept");
  }
  SimCall *c = dir == 0 ? l->s : l->c;
  if (!c) return;
  switch (f.k) {
  case F_HDR: c->hdr = true; break;
  case F_MSG: if (!c->ended) c->arr.push_back(std::move(f)); break;
  case F_HALF: c->half = true; break;
  case F_TRL: l->status_delivered = !c->ended; end_call(c, true, f.code, f.msg, f.details); break;
  case F_RST:
    if (c->server) end_call(c, false, GRPC_STATUS_CANCELLED, "reset");
    else end_call(c, false, f.code, f.msg);
    break;
  }
  progress(c);
}
bool can_accept(Link *l) { // head of the request has arrived
  if (l->accepted || l->dropped || l->fly[0].empty()) return false;
  if (l->fly[0].front().k == F_RST) return true;
  if (l->type == grpc::internal::RpcMethod::NORMAL_RPC || l->type == grpc::internal::RpcMethod::SERVER_STREAMING) return l->fly[0].size() >= 2;
  return true;
}
} // namespace
} // namespace gsim
namespace grpc::testing {
class ServerContextTestSpouse {
public:
  static void bind(grpc::CallbackServerContext *x, grpc_call *c, grpc::CompletionQueue *cq) {
    auto *b = static_cast<grpc::ServerContextBase *>(x);
    b->set_call(c); b->cq_ = cq;
  }
};
class ClientContextTestPeer {
public:
  static void set_call(grpc::ClientContext *c, grpc_call *call) { c->set_call(call, nullptr); }
};
} // namespace grpc::testing
namespace gsim {
namespace {
template <class Tag, typename Tag::type M> struct Rob { friend typename Tag::type get(Tag) { return M; } };
struct MethodsTag { using type = std::vector<std::unique_ptr<grpc::internal::RpcServiceMethod>> grpc::Service::*; friend type get(MethodsTag); };
template struct Rob<MethodsTag, &grpc::Service::methods_>;

void accept(Link *l) {
  Ctx &c = W->ctx;
  if (l->fly[0].front().k == F_RST) { l->dropped = true; l->fly[0].clear(); return; } // gone before it was ever seen
  l->fly[0].pop_front();
  l->accepted = true;
  auto it = W->methods.find(l->method);
  if (it == W->methods.end()) { // a server without this method
    l->dropped = true; l->fly[0].clear();
    l->status_sent = true; l->st_code = GRPC_STATUS_UNIMPLEMENTED; l->st_msg = "";
    l->fly[1].push_back({F_TRL, {}, GRPC_STATUS_UNIMPLEMENTED, ""});
    c.probe("call of a method the service does not handle");
    return;
  }
  SimCall *s = new_call(l, true);
  s->hdr = true; s->started = true;
  auto *m = it->second;
  grpc::Status st; void *hd = nullptr; void *req = nullptr;
  auto *ctx = new grpc::CallbackServerContext;
  grpc::testing::ServerContextTestSpouse::bind(ctx, GC(s), W->cq);
  if (l->type == grpc::internal::RpcMethod::NORMAL_RPC || l->type == grpc::internal::RpcMethod::SERVER_STREAMING) {
    grpc_byte_buffer *bb = nullptr;
    Frame f = std::move(l->fly[0].front());
    if (f.k == F_MSG) { l->fly[0].pop_front(); bb = to_buffer(c, f.bytes, W->frag); l->delivered_bad[0].push_back(f.bad); }
    else l->got_null_request = true;
    req = m->handler()->Deserialize(GC(s), bb, &st, &hd);
  }
  auto *call = static_cast<grpc::internal::Call *>(malloc(sizeof(grpc::internal::Call)));
  new (call) grpc::internal::Call(GC(s), W->hook, W->cq, -1, static_cast<grpc::experimental::ServerRpcInfo *>(nullptr));
  c.ev("accept %d", l->id);
  m->handler()->RunHandler(grpc::internal::MethodHandler::HandlerParameter(call, ctx, req, st, hd, [ctx] { delete ctx; }));
  free(call);
}
struct Hook final : grpc::internal::CallHook {
  void PerformOpsOnCall(grpc::internal::CallOpSetInterface *ops, grpc::internal::Call *call) override { ops->FillOps(call); }
};
Hook g_hook;
struct Chan final : grpc::ChannelInterface {
  grpc::CompletionQueue *cq;
  explicit Chan(grpc::CompletionQueue *q) : cq(q) {}
  grpc_connectivity_state GetState(bool) override { return GRPC_CHANNEL_READY; }
  grpc::internal::Call CreateCall(const grpc::internal::RpcMethod &m, grpc::ClientContext *ctx, grpc::CompletionQueue *q) override {
    auto l = std::make_unique<Link>();
    l->id = static_cast<int>(W->links.size()); l->method = m.name(); l->type = m.method_type(); l->plucked = q != cq;
    SimCall *c = new_call(l.get(), false);
    Link *lp = l.get();
    W->links.push_back(std::move(l));
    if (W->on_new_link) W->on_new_link(lp);
    auto dl = ctx->raw_deadline();
    if (dl.tv_sec < 1000000000) {
      long t = static_cast<long>(dl.tv_sec) * 1000000 + dl.tv_nsec / 1000;
      W->timers.emplace(t, [lp] {
        bool cl = lp->c && !lp->c->status_given, sv = lp->s && !lp->s->ended;
        if (!cl && !sv) return;
        lp->deadline_hit = true; W->ctx.fault("deadline"); W->ctx.ev("deadline %d", lp->id);
        if (lp->c) cancel(lp->c, GRPC_STATUS_DEADLINE_EXCEEDED, "Deadline Exceeded");
        if (lp->s && W->ctx.pick(2)) cancel(lp->s, GRPC_STATUS_DEADLINE_EXCEEDED, "Deadline Exceeded");
      });
    }
    grpc::testing::ClientContextTestPeer::set_call(ctx, GC(c));
    return grpc::internal::Call(GC(c), &g_hook, q);
  }
  void PerformOpsOnCall(grpc::internal::CallOpSetInterface *ops, grpc::internal::Call *call) override { ops->FillOps(call); }
  void *RegisterMethod(const char *) override { return nullptr; }
  void NotifyOnStateChangeImpl(grpc_connectivity_state, gpr_timespec, grpc::CompletionQueue *, void *) override {}
  bool WaitForStateChangeImpl(grpc_connectivity_state, gpr_timespec) override { return true; }
  grpc::CompletionQueue *CallbackCQ() override { return cq; }
};
struct GClosure { void *next; void (*cb)(void *, absl::Status); void *arg; std::uintptr_t err; };
int g_cq_dummy;
} // namespace
std::vector<std::unique_ptr<grpc::internal::RpcServiceMethod>> &methods_of(grpc::Service &s) { return s.*get(MethodsTag{}); }
std::shared_ptr<grpc::ChannelInterface> World::channel() { return std::make_shared<Chan>(cq); }

World::World(Ctx &c) : ctx(c) {
  W = this;
  hook = &g_hook;
  cq = new grpc::CompletionQueue(reinterpret_cast<grpc_completion_queue *>(&g_cq_dummy));
}
World::~World() {
  for (auto *b : ready) delete b;
  delete cq;
  W = nullptr;
}
void World::reset_link(Link *l) {
  if ((!l->c || l->c->ended) && (!l->s || l->s->ended)) return;
  ctx.fault("connection-reset"); ctx.ev("reset %d", l->id);
  l->reset = true;
  if (!l->accepted) l->dropped = true;
  // each direction loses a drawn suffix of what is in flight
  for (int d = 0; d < 2; ++d) {
    auto keep = l->accepted ? ctx.pick(static_cast<std::uint32_t>(l->fly[d].size()) + 1) : 0;
    l->fly[d].resize(keep);
    l->fly[d].push_back({F_RST, {}, GRPC_STATUS_UNAVAILABLE, "Connection reset"});
  }
  if (!l->accepted) { l->fly[0].clear(); }
}
bool World::step() {
  if (++events > 30000) ctx.fail("livelock", "30000 events without reaching a quiet state");
  struct E { std::uint8_t cls; std::uint32_t i; void *p; };
  std::vector<E> ev;
  for (std::uint32_t i = 0; i < tasks.size(); ++i) ev.push_back({0, i, nullptr});
  for (std::uint32_t i = 0; i < ready.size(); ++i) ev.push_back({1, i, nullptr});
  for (std::uint32_t i = 0; i < closures.size(); ++i) ev.push_back({2, i, nullptr});
  for (auto &l : links) {
    if (can_accept(l.get())) ev.push_back({3, 0, l.get()});
    if (l->accepted && !l->fly[0].empty()) ev.push_back({4, 0, l.get()});
    if (!l->fly[1].empty()) ev.push_back({5, 0, l.get()});
    for (int k = 0; k < 2; ++k)
      if (SimCall *c = k ? l->s : l->c)
        for (int s = S_SMD; s <= S_CLOSE; ++s) if (c->slot[s].b) { ev.push_back({6, static_cast<std::uint32_t>(s), c}); break; } // in stream order
  }
  bool timer = !timers.empty() && (timers.begin()->first <= now || ev.empty());
  if (!timer && ev.empty()) return false;
  if (timer) {
    auto it = timers.begin();
    now = std::max(now, it->first);
    auto f = std::move(it->second);
    timers.erase(it);
    f();
    return true;
  }
  std::uint32_t tot = 0;
  for (auto &e : ev) tot += w[e.cls];
  std::uint32_t r = ctx.pick(tot), i = 0;
  while (r >= w[ev[i].cls]) r -= w[ev[i++].cls];
  long dt = 1 + ctx.pick(16);
  now += dt; ctx.step(static_cast<std::uint64_t>(dt));
  E e = ev[i];
  switch (e.cls) {
  case 0: { auto f = std::move(tasks[e.i]); tasks.erase(tasks.begin() + e.i); f(); break; }
  case 1: {
    Batch *b = ready[e.i];
    ready.erase(ready.begin() + e.i);
    SimCall *c = b->call;
    ctx.ev("cb %d mask %x ok %d", c->id, b->mask, b->ok || b->always_ok);
    bool ok = b->ok || b->always_ok;
    if (b->plucked) plucked.emplace_back(b->tag, ok);
    else { auto *f = static_cast<grpc_completion_queue_functor *>(b->tag); f->functor_run(f, ok); }
    delete b;
    --c->inflight;
    maybe_free(c);
    break;
  }
  case 2: {
    auto *cl = static_cast<GClosure *>(closures[e.i]);
    closures.erase(closures.begin() + e.i);
    ctx.ev("closure");
    cl->cb(cl->arg, absl::OkStatus());
    break;
  }
  case 3: accept(static_cast<Link *>(e.p)); break;
  case 4: case 5: { auto *l = static_cast<Link *>(e.p); ctx.ev("deliver %d/%d kind %d", l->id, e.cls - 4, l->fly[e.cls - 4].front().k); deliver(l, e.cls - 4); break; }
  case 6: { // a write leaves the local buffers (or fails because the call is over)
    auto *c = static_cast<SimCall *>(e.p);
    auto s = static_cast<SlotId>(e.i);
    bool ok = !c->ended;
    if (c->slot[s].late) ok = false;
    if (!ok) ctx.probe("write on a finished call");
    if (s == S_CLOSE && c->server && ok) c->trl_flushed = true;
    finish_slot(c, s, ok);
    if (s == S_CLOSE && c->server && ok) end_call(c, true, 0, "");
    break;
  }
  }
  ctx.state(sim::mix(sim::mix(tasks.size() * 64 + ready.size(), closures.size() * 64 + links.size()), e.cls));
  return true;
}
void World::run(const std::function<bool()> &until) { while (!until() && step()) {} }

std::string damaged(Ctx &c, std::string b) {
  switch (c.pick(4)) {
  case 0: b += '\x07'; break;                        // field 0, wire type 7
  case 1: b += "\x08\xff"; break;                    // varint cut short
  case 2: b += std::string("\x12\x7f", 2) + "abc"; break; // length beyond the end
  default: b += "\x7b\x08\x01"; break; // group that never ends
  }
  return b;
}
grpc_byte_buffer *to_buffer(Ctx &c, std::string_view b, unsigned frag) {
  std::vector<grpc_slice> sl;
  unsigned mode = frag ? c.pick(4) : 0;
  std::size_t p = 0;
  auto add = [&](std::size_t n) { sl.push_back(grpc_slice_from_copied_buffer(b.data() + p, n)); p += n; };
  if (mode == 0) add(b.size());
  else if (mode == 1 && b.size() < 400) while (p < b.size()) add(1);
  else {
    std::size_t cap = mode == 2 ? 40 : 3000;
    while (p < b.size()) {
      if (sl.size() > 60) { add(b.size() - p); break; }
      add(std::min<std::size_t>(b.size() - p, c.pick(8) ? 1 + c.pick(static_cast<std::uint32_t>(cap)) : 0));
    }
  }
  if (mode == 3 && c.pick(2)) sl.push_back(grpc_empty_slice());
  auto *r = grpc_raw_byte_buffer_create(sl.data(), sl.size());
  for (auto &s : sl) grpc_slice_unref(s);
  return r;
}
std::string from_buffer(grpc_byte_buffer *b) {
  std::string r;
  if (!b) return r;
  auto &sb = b->data.raw.slice_buffer;
  for (std::size_t i = 0; i < sb.count; ++i) r.append(reinterpret_cast<const char *>(GRPC_SLICE_START_PTR(sb.slices[i])), GRPC_SLICE_LENGTH(sb.slices[i]));
  return r;
}
} // namespace gsim

using namespace gsim;
// ------------------------------------------------------------------ C-core entry points
extern "C" {
void grpc_init(void) {}
void grpc_shutdown(void) {}
void grpc_call_ref(grpc_call *c) { if (SC(c)->refs <= 0) W->ctx.fail("call-ref", "a call object is referenced after its last reference was dropped"); ++SC(c)->refs; }
void grpc_call_unref(grpc_call *c) {
  auto *s = SC(c);
  if (s->refs <= 0) W->ctx.fail("call-ref", "a call object is released twice");
  if (--s->refs == 0) {
    if (!s->ended && s->started) cancel(s, GRPC_STATUS_CANCELLED, "call released");
    maybe_free(s);
  }
}
void *grpc_call_arena_alloc(grpc_call *c, size_t n) { void *p = aligned_alloc(16, (n + 15) / 16 * 16); memset(p, 0xbe, n); SC(c)->arena.push_back(p); return p; }
grpc_call_error grpc_call_cancel(grpc_call *c, void *) { auto *s = SC(c); s->link->client_cancel |= !s->server && !s->status_given; cancel(s, GRPC_STATUS_CANCELLED, "Cancelled"); return GRPC_CALL_OK; }
grpc_call_error grpc_call_cancel_with_status(grpc_call *c, grpc_status_code st, const char *d, void *) { auto *s = SC(c); (s->server ? s->link->server_cancel : s->link->client_cancel) |= s->server ? !s->ended : !s->status_given; cancel(s, st, d); return GRPC_CALL_OK; }
int grpc_call_failed_before_recv_message(const grpc_call *c) { auto *s = reinterpret_cast<const SimCall *>(c); return s->ended && !s->normal && s->fail_before; }
grpc_call_error grpc_call_start_batch(grpc_call *gc, const grpc_op *ops, size_t n, void *tag, void *) {
  SimCall *c = SC(gc);
  Link *l = c->link;
  if (c->refs <= 0) W->ctx.fail("call-ref", "an operation is started on a released call");
  static const SlotId map[] = {S_SMD, S_SMSG, S_CLOSE, S_CLOSE, S_RMD, S_RMSG, S_RST, S_RST};
  unsigned mask = 0;
  for (size_t i = 0; i < n; ++i) {
    SlotId s = map[ops[i].op];
    if (c->slot[s].b || mask & 1u << s || (s == S_CLOSE && c->writes_closed)) return GRPC_CALL_ERROR_TOO_MANY_OPERATIONS;
    mask |= 1u << s;
    if (ops[i].op == GRPC_OP_SEND_MESSAGE && !ops[i].data.send_message.send_message) return GRPC_CALL_ERROR_INVALID_MESSAGE;
  }
  auto *b = new Batch{tag, static_cast<int>(n), true, false, false, c, 0};
  b->plucked = !c->server && l->plucked;
  ++c->inflight;
  W->ctx.ev("start %d mask %x", c->id, mask);
  b->mask = mask;
  if (n == 0) { W->ready.push_back(b); return GRPC_CALL_OK; }
  int dir = c->server ? 1 : 0;
  // sends enter the stream in protocol order whatever their position in the batch
  for (int pass = 0; pass < NSLOT; ++pass)
    for (size_t i = 0; i < n; ++i) {
      SlotId s = map[ops[i].op];
      if (s != pass) continue;
      c->slot[s].b = b; c->slot[s].op = ops[i]; c->slot[s].late = false;
      switch (ops[i].op) {
      case GRPC_OP_SEND_INITIAL_METADATA:
        c->started = true;
        if (!c->ended) l->fly[dir].push_back({F_HDR, {}});
        break;
      case GRPC_OP_SEND_MESSAGE: {
        Frame f{F_MSG, from_buffer(ops[i].data.send_message.send_message)};
        if (W->damage && W->ctx.pick(W->damage) == W->damage - 1) { f.bytes = damaged(W->ctx, std::move(f.bytes)); f.bad = true; W->ctx.fault("message-damaged"); }
        grpc_slice_buffer_reset_and_unref(&ops[i].data.send_message.send_message->data.raw.slice_buffer);
        if (c->writes_closed) { c->slot[s].late = true; W->ctx.probe("write after the final status"); break; } // the stream is closed: goes nowhere
        l->bad[dir].push_back(f.bad); ++l->sent[dir];
        if (!c->ended) l->fly[dir].push_back(std::move(f));
        break;
      }
      case GRPC_OP_SEND_CLOSE_FROM_CLIENT: c->writes_closed = true; if (!c->ended) l->fly[dir].push_back({F_HALF, {}}); break;
      case GRPC_OP_SEND_STATUS_FROM_SERVER: {
        auto &d = ops[i].data.send_status_from_server;
        c->writes_closed = true; c->sent_trl = true;
        ++c->n_status_ops;
        Frame f{F_TRL, {}, d.status};
        if (d.status_details) f.msg.assign(reinterpret_cast<const char *>(GRPC_SLICE_START_PTR(*d.status_details)), GRPC_SLICE_LENGTH(*d.status_details));
        for (size_t k = 0; k < d.trailing_metadata_count; ++k) {
          auto &m = d.trailing_metadata[k];
          if (std::string_view(reinterpret_cast<const char *>(GRPC_SLICE_START_PTR(m.key)), GRPC_SLICE_LENGTH(m.key)) == "grpc-status-details-bin")
            f.details.assign(reinterpret_cast<const char *>(GRPC_SLICE_START_PTR(m.value)), GRPC_SLICE_LENGTH(m.value));
        }
        l->status_sent = true; l->st_code = f.code; l->st_msg = f.msg; l->st_details = f.details;
        if (W->on_status_op) W->on_status_op(l, n > 1);
        if (!c->ended) l->fly[dir].push_back(std::move(f));
        break;
      }
      case GRPC_OP_RECV_STATUS_ON_CLIENT: case GRPC_OP_RECV_CLOSE_ON_SERVER: b->always_ok = true; break;
      default: break;
      }
    }
  progress(c);
  return GRPC_CALL_OK;
}
const grpc_completion_queue_factory *grpc_completion_queue_factory_lookup(const grpc_completion_queue_attributes *) { return reinterpret_cast<const grpc_completion_queue_factory *>(&g_cq_dummy); }
grpc_completion_queue *grpc_completion_queue_create(const grpc_completion_queue_factory *, const grpc_completion_queue_attributes *, void *) { return reinterpret_cast<grpc_completion_queue *>(&g_cq_dummy); }
void grpc_completion_queue_shutdown(grpc_completion_queue *) {}
void grpc_completion_queue_destroy(grpc_completion_queue *) {}
grpc_event grpc_completion_queue_pluck(grpc_completion_queue *, void *tag, gpr_timespec, void *) {
  grpc_event e{}; e.type = GRPC_OP_COMPLETE; e.tag = tag;
  auto find = [&] { for (auto it = W->plucked.begin(); it != W->plucked.end(); ++it) if (it->first == tag) { e.success = it->second; W->plucked.erase(it); return true; } return false; };
  while (!find()) if (!W->step()) W->ctx.fail("stall", "a blocking call waits although nothing is left to happen");
  return e;
}
}
struct grpc_closure;
bool grpc_call_is_trailers_only(const grpc_call *c) { return reinterpret_cast<const SimCall *>(c)->trailers_only; }
namespace grpc_core {
enum class ExecutorType { DEFAULT = 0, RESOLVER, NUM_EXECUTORS };
enum class ExecutorJobType { SHORT = 0, LONG, NUM_JOB_TYPES };
class Executor { public: static void Run(::grpc_closure *, absl::Status, ExecutorType, ExecutorJobType); };
__attribute__((used)) void Executor::Run(::grpc_closure *cl, absl::Status, ExecutorType, ExecutorJobType) { gsim::W->closures.push_back(cl); }
} // namespace grpc_core
