// Type-erased adapters around the real hpp-proto codec, one per (message type, storage trait).
#pragma once
#include "mem.hpp"
#include "tree.hpp"
#include <functional>
#include <span>
#include <string>
#include <vector>

namespace hv {
using Bytes = std::span<const std::byte>;
// A byte buffer whose end is guarded by ASan (exact allocation) - `pad` readable bytes after it.
struct Guarded {
  std::byte *p = nullptr; std::size_t n = 0;
  Guarded() = default;
  explicit Guarded(std::string_view s, std::size_t pad = 0, int fill = 0);
  Guarded(Guarded &&o) noexcept : p(o.p), n(o.n) { o.p = nullptr; o.n = 0; }
  Guarded &operator=(Guarded &&o) noexcept { std::swap(p, o.p); std::swap(n, o.n); return *this; }
  ~Guarded();
  Bytes bytes() const { return {p, n}; }
};
enum DecMode { D_CONTIG, D_CHUNK, D_PADDED, D_CONTIG_CACHE, D_CHUNK_CACHE, D_LIM1, D_LIM5, D_LIM5_CHUNK, D_LIM100X, D_LIM0_CHUNK, D_LIM5_PADDED };
struct DecArgs {
  DecMode mode = D_CONTIG;
  Bytes in;
  std::span<const Bytes> chunks;
  TrackMR *mr = nullptr;      // arena for non-owning storage
  TrackMR *cache = nullptr;   // cache resource
};
// simulated output sink: hands out exactly sized guarded chunks according to a plan
struct Sink {
  using slice_type = std::span<std::byte>;
  std::vector<std::size_t> plan;     // sizes of successive chunks
  std::size_t idx = 0, tail = 64;    // size once the plan is exhausted
  std::size_t msg_size = ~std::size_t{0};
  int size_calls = 0;
  bool exact_first = false;          // first chunk must hold the whole message (contiguous mode contract)
  std::size_t advertised = 0;        // chunk_size() result
  std::int64_t throw_at = -1;        // throw on the n-th next_chunk
  std::size_t limit = ~std::size_t{0}; // total bytes that may be offered
  std::vector<Guarded> bufs;
  std::vector<std::size_t> sizes;
  std::size_t offered = 0;
  bool short_given = false, empty_given = false;
  void set_message_size(std::size_t n) { msg_size = n; ++size_calls; }
  std::size_t chunk_size() const { return advertised; }
  std::span<std::byte> next_chunk();
  std::string written(std::size_t n) const; // first n bytes over all chunks
  bool rest_untouched(std::size_t n) const; // bytes after n still carry the fill pattern
  struct Fault {};
};
enum EncMode { E_VECTOR, E_STRING, E_RETURN, E_APPEND, E_SPAN, E_ARRAYBYTES, E_SINK_CONTIG, E_SINK_ADAPT, E_SINK_CHUNK, E_SINK_DEFAULT, E_NONOWN, E_VECTOR_CACHE, E_LIM1, E_LIM5, E_LIM5_SINK };
struct EncArgs {
  EncMode mode = E_VECTOR;
  std::string *out = nullptr;        // E_VECTOR.. : receives bytes; initial content used for E_APPEND / dirty buffers
  std::span<std::byte> fixed;        // E_SPAN
  Sink *sink = nullptr;
  TrackMR *mr = nullptr, *cache = nullptr;
  std::pair<const void *, std::size_t> *view = nullptr; // E_NONOWN: where the result lies
};
// typed access to one extension of a message type
struct ExtOp {
  const FieldS *f;
  int (*get)(const void *m, Msg &out, TrackMR *mr); // the value lands in out.f[number] if the extension object holds one
  int (*set)(void *m, std::string_view wire, Msg &held, TrackMR *mr); // sets the value that `wire` denotes; held = what was set
  bool (*has)(const void *m);
};
struct Codec {
  const char *name = "", *trait = "";
  const MsgS *s = nullptr;
  bool owning = true, pmr = false, keeps = false, stable = false;
  void *(*create)() = nullptr;
  void (*destroy)(void *) = nullptr;
  int (*decode)(void *, const DecArgs &) = nullptr;      // 0 ok, otherwise errc value
  int (*encode)(const void *, const EncArgs &) = nullptr;
  void (*tree)(const void *, Msg &) = nullptr;
  bool (*equal)(const void *, const void *) = nullptr;
  void *(*copy)(const void *) = nullptr;
  void (*assign)(void *, const void *) = nullptr;
  void (*move_assign)(void *, void *) = nullptr;
  void *(*move)(void *) = nullptr;
  void (*merge)(void *, const void *, TrackMR *) = nullptr;
  void (*merge_x)(void *, const void *default_traits_obj, TrackMR *) = nullptr; // source of the same message type with default_traits
  void (*merge_move)(void *, void *, TrackMR *) = nullptr;
  // memory the message refers to: calls back with every (ptr,len) reachable from the message
  void (*reach)(const void *, const std::function<void(const void *, std::size_t, const char *)> &) = nullptr;
  // sets scalar / string field `num` (implicit, explicit or required) to v, or clears a repeated/map/optional one
  bool (*set_field)(void *, std::uint32_t num, std::uint64_t v, const char *str) = nullptr;
  std::vector<ExtOp> exts;
  std::size_t obj_size = 0;
};
std::vector<Codec> &codecs();
std::vector<const Schema *> &schemas();
const MsgS *find_msg(const char *name); // in the schemas linked in
const Codec *find_codec(const MsgS *s, const char *trait);
std::vector<const Codec *> codecs_of(const MsgS *s);
struct RegisterCodec { explicit RegisterCodec(Codec c) { codecs().push_back(c); } };

// an object of a codec together with everything it may refer to
struct Obj {
  const Codec *c;
  void *p;
  explicit Obj(const Codec *cc) : c(cc), p(cc->create()) {}
  Obj(const Codec *cc, void *q) : c(cc), p(q) {}
  Obj(Obj &&o) noexcept : c(o.c), p(o.p) { o.p = nullptr; }
  Obj(const Obj &) = delete;
  Obj &operator=(Obj &&o) noexcept { std::swap(c, o.c); std::swap(p, o.p); return *this; }
  ~Obj() { if (p) c->destroy(p); }
  Msg tree() const { Msg m; m.t = c->s; c->tree(p, m); return m; }
};
std::string to_hex(std::string_view s, std::size_t max = 200);
} // namespace hv
