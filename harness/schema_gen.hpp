// Drawn schemas: sets of .proto files a compiler would accept, as serialized FileDescriptorProto messages.
#pragma once
#include "tree.hpp"

namespace hv {
struct Wire { // a protobuf encoding under construction
  std::string s;
  Wire &vi(std::uint32_t f, std::uint64_t v) { put_varint(s, f << 3); put_varint(s, v); return *this; }
  Wire &str(std::uint32_t f, std::string_view v) { put_varint(s, f << 3 | 2); put_varint(s, v.size()); s += v; return *this; }
  Wire &msg(std::uint32_t f, const Wire &w) { return str(f, w.s); }
};
struct ProtoFile {
  std::string name, bytes;
  std::vector<std::string> deps;
  std::vector<std::string> messages; // full names of the message types in it (map entries excluded)
};
struct SchemaOpt {
  unsigned max_files = 5;
  bool services = true, odd_names = true;
  int size = 24; // approximate number of fields
  std::string prefix; // put into a directory and package of this name
};
// in an order in which every file follows what it imports
std::vector<ProtoFile> gen_schema(sim::Ctx &c, const SchemaOpt &o = {});
std::vector<ProtoFile> load_set(const std::string &descriptor_set_file); // a compiled FileDescriptorSet
std::string make_request(const std::vector<const ProtoFile *> &files, const std::vector<std::string> &to_generate, std::string_view parameter);
} // namespace hv
