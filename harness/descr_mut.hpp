// Descriptor sets and generator requests that no compiler would produce: well-formed messages with inconsistent content.
#pragma once
#include "tree.hpp"
namespace hv {
const MsgS *descriptor_type(const char *full_name); // of google.protobuf / google.protobuf.compiler
// decodes, changes `edits` places of the tree, encodes again; `what` receives a description of the edits
std::string mutate_descriptors(sim::Ctx &c, const MsgS *type, const std::string &bytes, unsigned edits, std::string *what = nullptr);
// one fault in a set's structure that leaves it without a meaning (a name that leads nowhere, two things of one name or
// number, files importing each other, ...); "" if the drawn fault finds no place
std::string break_structure(sim::Ctx &c, const std::string &set, std::string *what);
} // namespace hv
