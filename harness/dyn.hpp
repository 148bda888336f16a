// Dynamic messages in the simulator: an arena the simulator controls, reading a dynamic message back as a value tree
// through every part of its reflective API, and an adapter that makes dynamic messages one more codec.
#pragma once
#include "codec.hpp"
#include <hpp_proto/dynamic_message/binpb.hpp>
#include <hpp_proto/dynamic_message/factory.hpp>

namespace hv {
// what a user passes as std::pmr::monotonic_buffer_resource: every block is an exactly sized, guarded allocation that
// lives as long as the arena; it can be made to fail
struct ArenaMR final : std::pmr::monotonic_buffer_resource {
  TrackMR t{true};
  ArenaMR() : std::pmr::monotonic_buffer_resource(std::pmr::null_memory_resource()) {}
  void *do_allocate(std::size_t n, std::size_t al) override { return t.allocate(n, al); }
  void do_deallocate(void *p, std::size_t n, std::size_t al) override { t.deallocate(p, n, al); }
  bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override { return this == &o; }
};
hpp_proto::dynamic_message_factory &dyn_factory(const MsgS *s); // the factory that knows the type
struct DynObj {
  ArenaMR mr;
  hpp_proto::message_value_mref m;
  const MsgS *s;
  explicit DynObj(const MsgS *t) : m(dyn_factory(t).get_message(t->name, mr).value()), s(t) {}
};
// Reads the message through fields(), look-ups by name / number / JSON name, typed and untyped references and range access;
// returns "" or the first contradiction between two ways of asking the same thing
std::string dyn_read(const hpp_proto::message_value_cref &m, const MsgS *s, Msg &out, bool top = true, bool raw_maps = false);
std::string dyn_read_mref(const hpp_proto::message_value_mref &m, const MsgS *s); // the same questions through mutable references
const MsgS *dyn_schema(std::string_view full_name);
} // namespace hv
