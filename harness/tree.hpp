// Independent reference model of protobuf messages: schema tables, value trees, a reference
// decoder, a "peer" encoder able to produce every legal encoding, generators and damage models.
#pragma once
#include "../sim/core.hpp"
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace hv {
enum Kind : std::uint8_t { I32, I64, U32, U64, S32, S64, F32, F64, SF32, SF64, FLT, DBL, BOOL, STR, BYT, MSG, GRP, ENUM };
enum Card : std::uint8_t { IMP, EXP, REQ, REP, MAP };

struct Tag {}; // makes hv:: an associated namespace of schema_of()
struct FieldS {
  std::uint32_t num;
  const char *name;
  Kind kind;
  Card card;
  bool packed, utf8;
  int oneof, msg, enm;
  std::uint64_t dflt;
  std::string dflts;
  const struct MsgS *m = nullptr;
  const struct EnumS *e = nullptr;
  bool ext = false;
  FieldS(std::uint32_t n, const char *nm, Kind k, Card c, int p, int u, int o, int ms, int en, std::uint64_t d, std::string ds)
      : num(n), name(nm), kind(k), card(c), packed(p), utf8(u), oneof(o), msg(ms), enm(en), dflt(d), dflts(std::move(ds)) {}
  bool is_msg() const { return kind == MSG || kind == GRP; }
  bool is_len() const { return kind == STR || kind == BYT; }
  bool packable() const { return (card == REP) && !is_msg() && !is_len(); }
};
struct EnumS {
  const char *name;
  bool closed;
  std::vector<int> values;
  bool valid(std::int64_t v) const { for (int x : values) if (x == v) return true; return false; }
  EnumS(const char *n, int c, std::vector<int> v) : name(n), closed(c), values(std::move(v)) {}
};
struct MsgS {
  const char *name;
  bool map_entry;
  std::vector<FieldS> fields, exts;
  std::vector<std::pair<int, int>> ranges;
  int noneof = 0;
  bool recursive = false;
  std::map<std::uint32_t, const FieldS *> by_num;      // declared fields
  std::map<std::uint32_t, const FieldS *> by_num_ext;  // known extensions
  const FieldS *find(std::uint32_t n, bool exts_too) const;
  MsgS(const char *n, int me, std::vector<FieldS> f, std::vector<FieldS> x, std::vector<std::pair<int, int>> r)
      : name(n), map_entry(me), fields(std::move(f)), exts(std::move(x)), ranges(std::move(r)) {}
};
struct Schema {
  std::vector<EnumS> enums;
  std::vector<MsgS> msgs;
  void link();
  const MsgS *msg(const char *name) const;
  Schema() { enums.reserve(256); msgs.reserve(1024); }
  Schema(const Schema &o);
};

struct Msg;
struct Val {
  std::uint64_t u = 0;          // scalars: sign-extended integers, IEEE bits for floats
  std::string s;                // string / bytes
  std::shared_ptr<Msg> m;       // messages (never shared between trees that are edited)
};
struct Fld {
  const FieldS *f = nullptr;
  std::vector<Val> v;                       // singular (1 element) and repeated
  std::map<std::string, std::pair<Val, Val>> kv; // maps, keyed by canonical key text
};
struct Msg {
  const MsgS *t = nullptr;
  std::map<std::uint32_t, Fld> f;
  std::map<std::uint32_t, std::string> unk;  // raw records (tag included), concatenated per field number
  bool keeps = true;                         // whether the C++ type retains unknown fields
  bool empty() const { return f.empty() && unk.empty(); }
};
std::string show(const Msg &m, int depth = 0);
// compares content; unknown fields only if b.keeps; returns "" or a path describing the difference
std::string diff(const Msg &a, const Msg &b, const std::string &path = "");
std::shared_ptr<Msg> clone(const Msg &m);
std::uint64_t hash(const Msg &m);
std::string key_of(Kind k, const Val &v);
std::uint64_t norm(Kind k, std::uint64_t u);      // canonical scalar representation
unsigned wt_of(Kind k);
bool is_default(const FieldS &f, const Val &v);
bool valid_utf8(std::string_view s);
std::size_t node_count(const Msg &m);

// ---- reference decoder
struct RefOpt {
  bool exts = false;      // decode known extensions as fields
  int limit = 100;        // nested scopes allowed below the root
  bool known_dialect = false; // map entries must be non-empty and start with the key
  bool lenient_closed_map = false; // an unlisted closed-enum map value is kept as the value
  bool u32_max5 = false;           // uint32 varints of more than five bytes are malformed
  bool validate_utf8 = true;
  bool overlong_tags_ok = true;
  bool as_declared = false;       // only the representation the schema asks an encoder for
};
struct RefErr { const char *what = nullptr; };
void fill_required(Msg &m);
bool ref_decode(std::string_view in, Msg &m, const RefOpt &o, RefErr *err = nullptr, int depth = 0);
// number of nested scopes below the root a decoder must open (max over the input); -1 if malformed
// ---- peer encoder
struct PeerOpt {
  bool shuffle = false, interleave = false, overlong_val = false, overlong_len = false, overlong_tag = false;
  bool packing = false;         // arbitrary packed/unpacked/mixed
  bool split_sub = false;       // singular messages in pieces
  bool dup = false;             // earlier occurrences of singular fields with other values
  bool other_oneof = false;     // earlier members of a oneof
  bool unknown = false;         // unknown fields interleaved (everywhere)
  bool map_missing_value = false, map_dup = false, map_unknown = false, map_reorder = false, map_unlisted = false, wide = false;
  bool explicit_default = false; // implicit-presence fields sent although default
  bool unknown_enum = false;    // closed enums carrying unlisted numbers
  int unk_depth = 3;
  void swarm(sim::Ctx &c);
  void no_known() { map_reorder = map_unlisted = wide = false; } // without what the known findings of C05 are about
};
std::string encode_canonical(const Msg &m);               // field order, packed as declared
std::string encode_peer(sim::Ctx &c, const Msg &m, const PeerOpt &o, bool top = true);
void put_varint(std::string &o, std::uint64_t v, int extra = 0);
void put_unknown(sim::Ctx &c, std::string &o, const MsgS *t, int depth, bool known_exts, bool ol_tag = false);
std::uint32_t pick_unknown_number(sim::Ctx &c, const MsgS *t, bool known_exts);

// ---- generator
struct GenOpt {
  int budget = 24;        // approximate number of values
  int max_depth = 5;
  int max_len = 40;       // string length
  bool big = false;       // occasionally long strings / packed runs
  bool exts = false;      // also set known extensions
  bool unknown = false;   // add unknown raw fields to the tree
  bool invalid_enum = false;
  bool neg_zero = true;
};
std::shared_ptr<Msg> gen(sim::Ctx &c, const MsgS *t, GenOpt o);
Val gen_val(sim::Ctx &c, const FieldS &f, const GenOpt &o, int &budget, int depth);
std::string gen_string(sim::Ctx &c, bool utf8, int max_len);
// ---- damage
std::string damage(sim::Ctx &c, std::string in);
std::string gen_garbage(sim::Ctx &c, const MsgS *t, int depth = 0);
// ---- fragmentation: returns chunk sizes that sum to n
std::vector<std::size_t> fragments(sim::Ctx &c, std::size_t n);
} // namespace hv
