// Schema tables from serialized file descriptors, at run time.
#pragma once
#include "schema_gen.hpp"
#include <deque>
namespace hv {
struct DrawnSchema {
  Schema s;
  std::deque<std::string> names; // what the tables' name pointers refer to
  std::vector<const MsgS *> msgs, usable; // without map entries; those whose values are finite
  DrawnSchema() = default;
  DrawnSchema(const DrawnSchema &) = delete;
  // false if the files are not what a compiler would produce (`why` says where)
  bool build(const std::vector<ProtoFile> &files, std::string *why = nullptr);
};
} // namespace hv
