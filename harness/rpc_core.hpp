// A simulated gRPC core: calls, completion queues, executor, network and clock, behind the C-core
// entry points that libgrpc++ and the generated-code headers call. One World at a time, single threaded;
// every delivery, completion, callback and fault is one event chosen by the seeded scheduler.
#pragma once
#include "../sim/core.hpp"
#include <deque>
#include <functional>
#include <grpcpp/grpcpp.h>
#include <grpcpp/impl/rpc_service_method.h>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace gsim {
using sim::Ctx;
enum FrameKind { F_HDR, F_MSG, F_HALF, F_TRL, F_RST };
struct Frame { FrameKind k; std::string bytes; int code = 0; std::string msg, details; bool bad = false; };
struct Link;
struct SimCall;
enum SlotId { S_SMD, S_SMSG, S_CLOSE, S_RMD, S_RMSG, S_RST, NSLOT };
struct Batch { void *tag; int pending; bool ok, always_ok, plucked; SimCall *call; unsigned mask; };
struct SimCall {
  int id = 0; bool server = false; int refs = 1; int inflight = 0; bool dead = false;
  Link *link = nullptr;
  std::vector<void *> arena;
  struct { Batch *b = nullptr; grpc_op op{}; bool late = false; } slot[NSLOT];
  bool started = false, ended = false, normal = false, status_given = false, trailers_only = false, fail_before = false, sent_trl = false, trl_flushed = false;
  int code = 0; std::string msg, details;
  std::deque<Frame> arr; // received messages nobody has read yet
  bool hdr = false, half = false, writes_closed = false;
  int n_status_ops = 0;
  std::vector<grpc_slice> owned;
};
struct Link { // one RPC on the simulated network
  int id = 0; std::string method; int type = 0;
  std::deque<Frame> fly[2]; // 0: to server, 1: to client
  SimCall *c = nullptr, *s = nullptr;
  bool accepted = false, dropped = false, server_gone = false;
  bool plucked = false;
  // history for the checks
  bool reset = false, client_cancel = false, server_cancel = false, deadline_hit = false, unread_dropped = false;
  std::vector<bool> bad[2]; std::vector<bool> delivered_bad[2];
  int sent[2] = {0, 0};
  bool status_sent = false, got_null_request = false; int st_code = 0; std::string st_msg, st_details;
  bool status_delivered = false;
  void *user = nullptr;
};
struct World {
  explicit World(Ctx &c);
  ~World();
  Ctx &ctx;
  std::vector<std::unique_ptr<Link>> links;
  std::vector<Batch *> ready;                                      // completed operations whose callback has not run yet
  struct Closure { void *cl; };
  std::vector<void *> closures;
  std::vector<std::function<void()>> tasks;                        // application actions waiting for their turn
  std::multimap<long, std::function<void()>> timers;
  std::vector<std::pair<void *, int>> plucked;
  long now = 0;
  unsigned w[8]{};                                                 // scheduling weight per event class
  unsigned damage = 0;                                             // 1/n messages damaged in flight (0: none)
  unsigned frag = 1;
  bool null_request = false;
  long events = 0;
  int live_calls = 0;
  std::map<std::string, grpc::internal::RpcServiceMethod *> methods;
  grpc::internal::CallHook *hook = nullptr;
  grpc::CompletionQueue *cq = nullptr;
  std::function<void(Link *, bool)> on_status_op;                   // a server issued its final status
  std::function<void(Link *)> on_new_link;                         // a client opened a call
  void post(std::function<void()> f) { tasks.push_back(std::move(f)); }
  void at(long t, std::function<void()> f) { timers.emplace(now + t, std::move(f)); }
  bool step();                                                     // one event; false: nothing left
  void run(const std::function<bool()> &until);
  void reset_link(Link *l);                                        // the transport under one call dies
  Link *link_of(grpc_call *c) { return reinterpret_cast<SimCall *>(c)->link; }
  std::shared_ptr<grpc::ChannelInterface> channel();
};
extern World *W;
std::vector<std::unique_ptr<grpc::internal::RpcServiceMethod>> &methods_of(grpc::Service &s);
std::string damaged(Ctx &c, std::string b); // no longer a decodable message, whatever it was
grpc_byte_buffer *to_buffer(Ctx &c, std::string_view bytes, unsigned frag);
std::string from_buffer(grpc_byte_buffer *b);
} // namespace gsim
