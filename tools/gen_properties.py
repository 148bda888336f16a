#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
R = []
B = "include/hpp_proto/"
def P(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    R.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        mechanism=[dict(name=n, where=w) for n, w in mech],
        observe_at=observe, hook_needed=None)))

# ---------------------------------------------------------------- codec over an unreliable byte stream
P("C01", "Decoding does not depend on how the input bytes are fragmented",
  "Decoding a message from a sequence of byte chunks gives the same outcome (success with an equal message, or failure) as decoding the same bytes from one contiguous buffer, for every way of cutting the bytes into chunks, including one-byte and empty chunks. This holds for valid, truncated and corrupted input alike and for every storage trait.",
  ["inputs", "schedules"], "every byte string, every fragmentation of it, every message type and storage trait",
  "Existing tests decode from a handful of fixed two-to-three-way splits; the cut may fall inside any tag, varint, fixed-width value, length prefix, string, packed run, group or map entry, interacting with the 16-byte patch buffers.",
  [B+"binpb/deserialize.hpp", B+"binpb/varint.hpp", B+"binpb.hpp"],
  [("multi-region archive with patch buffers and slope handling", B+"binpb/deserialize.hpp basic_in / input_buffer_region_base"),
   ("varint and packed parsing across region boundary", B+"binpb/deserialize.hpp deserialize_packed_*")],
  ["read_binpb status", "decoded message value"])
P("C02", "Encoding yields the same bytes whatever buffer or sink receives it",
  "For every message, encoding into a growable buffer, a fixed buffer, an appended-to buffer, or a chunk-providing sink, in contiguous, adaptive or chunked mode, with any sequence of chunk sizes, produces exactly the same byte sequence. Appending leaves the bytes already in the buffer untouched, and writing replaces whatever the buffer held before.",
  ["inputs", "schedules", "configurations"], "every message, every output mode and every sequence of chunk sizes the sink chooses to hand out",
  "Tests use a few chunk sizes on small messages; a chunk boundary may fall in any tag, varint, fixed-width value, string or packed array.",
  [B+"binpb/serialize.hpp", B+"binpb.hpp", "docs/frontend_apis.md"],
  [("contiguous / chunked output archives", B+"binpb/serialize.hpp basic_out, serialize_*_sink"),
   ("append vs overwrite", B+"binpb.hpp append_binpb")],
  ["bytes in the destination after write_binpb / append_binpb"])
P("C03", "The encoder never writes outside the space the destination offers",
  "While encoding, the library writes only inside the bytes the destination buffer or sink currently offers, and reports exactly the written size. When a fixed buffer is too small, or a sink hands out a short or empty chunk where more is required, the call reports failure (or raises the sink's own exception) and never touches memory beyond what was offered.",
  ["inputs", "fault_sequences"], "every message, every destination size, and every sequence of short, empty or failing chunks a sink may hand out at any point of the encoding",
  "Tests cover one too-small buffer; a sink that runs short or fails at an arbitrary instant is never simulated.",
  [B+"binpb/serialize.hpp"],
  [("bounds check before raw copy", B+"binpb/serialize.hpp serialize_contiguous*, chunked_out_buffer"),
   ("size precomputation", B+"binpb/serialize.hpp message_size_calculator / size_cache")],
  ["guard bytes around every chunk", "set_message_size / next_chunk call history", "status"])
P("C04", "Hostile or damaged wire bytes are never a memory-safety or liveness hazard",
  "Decoding arbitrary bytes - truncated, bit-flipped, spliced, or adversarially built, whole or fragmented - always terminates, and either succeeds or returns an error without reading outside the input, corrupting memory, throwing anything but an allocation failure, or allocating memory out of proportion to the input. Bytes that are not a sequence of complete fields - a field or tag cut off, a group that is not closed by its own number, a field number 0, a wire type that does not exist - are refused wherever they stand. Whatever is decoded can be used, re-encoded and decoded again.",
  ["inputs", "fault_sequences"], "every byte string reachable by corrupting, truncating, duplicating or splicing encodings in transit, any fragmentation, any decode option and storage trait",
  "Only a small descriptor seed corpus is replayed by the stable tests; message types with groups, maps, oneofs, closed enums, non-owning views and chunked input are not fuzzed.",
  [B+"binpb/deserialize.hpp", B+"binpb/varint.hpp", B+"field_types.hpp"],
  [("length checks on every read", B+"binpb/deserialize.hpp"), ("bounded varints", B+"binpb/varint.hpp"),
   ("non-owning views into input", B+"binpb/deserialize.hpp read_bytes / padded input")],
  ["AddressSanitizer and UBSan reports", "CPU time", "allocator byte counts", "status"])
P("C05", "Every valid encoding a peer may send decodes to the value it denotes",
  "Any wire-format encoding that a conforming protobuf peer may legally send - fields in any order, packed, unpacked or mixed repeated scalars, over-long varints, repeated occurrences of singular fields, singular messages split in pieces, map entries with missing value, interleaved unknown fields and groups - decodes successfully to the value the protobuf specification assigns it. Last-one-wins, submessage merge, oneof replacement, defaults, presence, and closed-enum handling all follow the schema.",
  ["inputs", "histories"], "every message value, every legal encoding of it by a peer of any schema version, any fragmentation in transit",
  "Tests decode canonical encodings plus a few hand-written irregular ones; the space of legal encodings is unbounded.",
  [B+"binpb/deserialize.hpp", B+"binpb/meta.hpp", "src/protoc-plugin/hpp_generator.cpp"],
  [("per-field dispatch on tag", B+"binpb/deserialize.hpp deserialize_field_by_tag"),
   ("generated field metadata (number, encoding rule, presence, default)", "src/protoc-plugin/hpp_generator.cpp pb_meta emission")],
  ["decoded field values, presence and active oneof alternative, compared with the reference protobuf runtime"])
P("C06", "What is encoded is what every conforming peer decodes",
  "Encoding any message value yields bytes that a conforming protobuf peer, and this library itself, decode back to exactly that value, with all field kinds, presence, defaults, oneofs, maps, groups, extremes and NaNs intact. Repeated numbers are sent packed or one by one as the schema says, and no field that needs sending once is sent twice or although it is unset. The number of bytes produced equals the size reported in advance, and encoding the same value twice yields the same bytes.",
  ["inputs", "histories"], "every message value reachable through the generated types, every storage trait, through any number of decode/encode hops",
  "Tests check a fixed table of values; the value space including boundary lengths (128, 16384, ...) where size prefixes change width is unbounded.",
  [B+"binpb/serialize.hpp", B+"binpb/varint.hpp", B+"binpb/meta.hpp", "src/protoc-plugin/hpp_generator.cpp"],
  [("size computation then single-pass encode", B+"binpb/serialize.hpp message_size_calculator, serialize_field"),
   ("varint / zigzag", B+"binpb/varint.hpp")],
  ["reference runtime's parse of the encoded bytes", "binpb_size / reported size"])
P("C07", "Unknown fields and extensions survive store-and-forward unchanged",
  "When a node compiled against an older schema, using a storage trait that keeps unknown fields, decodes a message, possibly modifies known fields, and re-encodes it, a newer peer that receives the result sees every unknown field's content exactly as sent, in an equivalent order per field number, over any number of hops. Extensions set on a message are seen by every peer that knows them, reading one returns exactly what the wire carried, and setting one replaces or supplements only that extension.",
  ["inputs", "histories", "configurations"], "every message of the newer schema, every legal encoding, every chain of old-schema hops, every unknown-field storage kind",
  "Tests forward a few hand-written unknown fields once; mixed-version chains with groups, repeated unknowns and fragmentation are not explored.",
  [B+"binpb/deserialize.hpp", B+"binpb/serialize.hpp", B+"binpb.hpp", B+"field_types.hpp"],
  [("unknown field capture", B+"binpb/deserialize.hpp deserialize_unknown / skip_field"),
   ("extension access over unknown fields", B+"binpb.hpp extension_base")],
  ["final receiver's view via the reference protobuf runtime", "extension get_from / set_to / in"])
P("C08", "Merging equals decoding the concatenated encodings",
  "For any two messages, merging the second into the first yields the message obtained by decoding the concatenation of their encodings: set scalars overwrite, repeated fields append, maps override per key, submessages and same-case oneof messages merge recursively. The source is unchanged when merged by const reference, and the law holds along any sequence of merges, for every storage trait.",
  ["inputs", "histories", "configurations"], "every pair and every sequence of messages, every storage trait including non-owning",
  "Tests merge a couple of fixed messages; the combinations of presence, oneof case and recursion are unbounded.",
  [B+"merge.hpp", B+"binpb/deserialize.hpp", B+"flat_map.hpp"],
  [("per-kind merge rules", B+"merge.hpp"), ("map overwrite", B+"flat_map.hpp insert_or_assign / insert range")],
  ["merged message compared with decode of concatenation and with the reference runtime"])
P("C09", "The recursion limit is exact and the same on every path",
  "Decoding or encoding a message nested no deeper than the configured recursion limit succeeds, and one level deeper fails with an error, identically for submessages, groups, map values, repeated messages, oneof members and unknown groups, for contiguous and fragmented input, for every output mode and for dynamic messages. No input, however deeply nested, overflows the stack, and a failed attempt never affects later calls.",
  ["inputs", "configurations", "histories"], "every mix of nesting constructs, every configured limit, every fragmentation and output mode",
  "Tests check the limit for one or two nesting constructs at a fixed depth.",
  [B+"recursion.hpp", B+"binpb/deserialize.hpp", B+"binpb/serialize.hpp", B+"dynamic_message/pb_serializer_ext.hpp"],
  [("depth guard", B+"recursion.hpp"), ("guards on each recursive path", B+"binpb/deserialize.hpp, serialize.hpp, dynamic_message/pb_serializer_ext.hpp")],
  ["status of decode/encode at depth limit-1, limit, limit+1 and far beyond"])
P("C10", "All memory of a decode or encode comes from the resource the caller gave",
  "When the caller supplies a memory resource (or uses polymorphic-allocator or arena-backed messages), every byte the decoded message retains, and every scratch allocation designated for a cache resource, is obtained from that resource and returned to it; the global heap is not used behind the caller's back. The message stays valid as long as the resource and, for non-owning types, the input live, and never refers to anything else.",
  ["inputs", "configurations", "schedules"], "every input, fragmentation, trait and combination of memory-resource options",
  "Tests inspect a few fields; a single field kind or fragmentation case that falls back to a heap or to a temporary buffer escapes them.",
  [B+"memory_resource_utils.hpp", B+"binpb/deserialize.hpp", B+"binpb/serialize.hpp", B+"field_types.hpp"],
  [("alloc_from / cache_alloc_from options", B+"memory_resource_utils.hpp"), ("arena_vector / as_modifiable", B+"memory_resource_utils.hpp")],
  ["instrumented global allocator and memory resources", "poisoned temporaries after the call"])
P("C11", "An allocation failure during any codec operation leaves nothing broken or leaked",
  "If memory allocation fails at any point while decoding, encoding, merging, copying or assigning messages, the failure reaches the caller as an allocation exception or error, no memory is leaked or released twice, the source operands are unchanged, and every object involved can still be destroyed, assigned and reused. Retrying the operation with memory available gives the correct result.",
  ["inputs", "fault_sequences"], "every operation, every message, every allocation instant at which failure strikes, repeated failures",
  "No existing test makes an allocation fail.",
  [B+"binpb/deserialize.hpp", B+"binpb/serialize.hpp", B+"merge.hpp", B+"indirect.hpp", B+"optional_indirect.hpp", B+"flat_map.hpp", B+"memory_resource_utils.hpp"],
  [("RAII containers; no raw ownership across throwing calls", "include/hpp_proto/*.hpp")],
  ["live-allocation ledger", "AddressSanitizer", "retry result"])
# ---------------------------------------------------------------- containers
P("F01", "flat_map behaves as an ordered unique-key map, also when operations fail",
  "Under any history of insertions, emplacements, assignments, erasures, lookups, range inserts, extractions, replacements, copies, moves and swaps, a flat_map holds exactly the key/value pairs an ordinary ordered map would hold, in key order, with the same return values. If a key or value operation or an allocation throws in the middle, keys and values remain paired one-to-one, sorted and unique, and pairs not touched by the failing operation are not mismatched.",
  ["histories", "fault_sequences"], "every operation history and every instant at which a copy, move, comparison or allocation throws",
  "Tests run short fixed histories on success paths; failure inside a two-container update is not exercised.",
  [B+"flat_map.hpp"], [("parallel key and value containers", B+"flat_map.hpp"), ("exception restoration", B+"flat_map.hpp clear-on-failure guards")],
  ["contents after every operation versus std::map"])
P("F02", "Owning indirection keeps value semantics, also when operations fail",
  "The heap-indirection types used for recursive fields behave as plain values and optionals do under every history of construction, copy, move, assignment, swap, reset, emplace and comparison with equal or unequal allocators: copies are deep and independent, moves transfer, emptiness is tracked exactly. If an allocation or the construction of a copy throws in the middle, the target keeps its old value (an assignment or swap of the elements themselves gives the guarantee the element gives), nothing leaks and nothing is destroyed twice.",
  ["histories", "fault_sequences"], "every operation history, allocator combination, and instant of failure",
  "Tests call each operation once on the success path.",
  [B+"indirect.hpp", B+"optional_indirect.hpp"], [("allocator-aware owning pointers", B+"indirect.hpp, optional_indirect.hpp")],
  ["values versus a plain optional model", "live-object and live-allocation ledgers"])
# ---------------------------------------------------------------- dynamic messages
P("D01", "Dynamic messages and generated messages are interchangeable on the wire",
  "For every schema and every byte string, however fragmented, decoding through the descriptor-driven runtime message and decoding through the generated type agree on acceptance and on the decoded content, and re-encoding through either gives messages any conforming peer decodes to the same value. Field values, presence and oneof state read through the runtime API are the values the wire carried.",
  ["inputs", "configurations", "schedules"], "every schema, message, legal or damaged encoding, fragmentation and output mode",
  "Tests round-trip a few golden messages through the runtime codec.",
  [B+"dynamic_message/pb_serializer_ext.hpp", B+"dynamic_message/binpb.hpp", B+"dynamic_message/storage.hpp", "src/dynamic_message/factory.cpp"],
  [("descriptor-driven codec", B+"dynamic_message/pb_serializer_ext.hpp"), ("field storage union", B+"dynamic_message/storage.hpp")],
  ["dynamic field values versus generated-message decode and the reference runtime"])
P("D02", "A factory serves exactly its descriptor set, or refuses it cleanly",
  "From any descriptor set a compiler can produce, whatever mix of syntaxes, editions, features, nesting, imports and extensions it uses and in whatever order its files come, a factory is made that gives out exactly the message types the set defines, with the defaults, presence, packing, delimiting, UTF-8 and enum rules each field's resolved features ask for; moving the factory, or making another for the same set, disturbs nothing. Bytes that are no descriptor set, and sets whose structure is broken (missing or circular imports, names that lead nowhere, things of one name or number, members of no oneof, empty enums), are refused with the matching error; parsable but inconsistent sets never make it crash or hang. Whatever the outcome, an allocation failure at any point included, nothing stays allocated and the next attempt is as good as the first.",
  ["inputs", "fault_sequences", "histories", "configurations"], "every descriptor set a compiler can produce, every corruption of one, every allocation failure instant, every sequence of attempts",
  "The tests use the schemas in the repository; the space of schemas, and of sets damaged on the way, is not sampled, and allocations never fail.",
  ["src/dynamic_message/factory.cpp", B+"dynamic_message/factory.hpp", B+"dynamic_message/factory_addons.hpp", B+"descriptor_pool.hpp"],
  [("descriptor pool construction and validation", B+"descriptor_pool.hpp"), ("factory setup", "src/dynamic_message/factory.cpp")],
  ["result of create() and get_message()", "messages decoded and encoded against reference tables made at run time", "allocation ledgers", "AddressSanitizer"])
P("D03", "A factory and unmodified messages can be shared by concurrent threads",
  "After initialisation, any number of threads may concurrently use one factory to look up types and create, decode and encode their own messages, and may concurrently read, encode, copy or merge from one shared unmodified message, dynamic or generated, with no data race and with the same results as running alone. No interleaving of such operations changes any thread's outcome.",
  ["schedules", "histories"], "every interleaving of factory use and const message access by several threads",
  "No existing test runs anything concurrently; a lazily filled cache or mutable scratch would pass them all.",
  [B+"dynamic_message/factory.hpp", B+"dynamic_message/factory_addons.hpp", "src/dynamic_message/factory.cpp", B+"binpb/serialize.hpp", B+"descriptor_pool.hpp"],
  [("immutable after init", "src/dynamic_message/factory.cpp"), ("caller-owned scratch memory", B+"dynamic_message/types.hpp")],
  ["happens-before race detector over every simulated memory access", "results versus solo run"])
P("D04", "Runtime field access behaves as a typed record under any edit history",
  "Any history of set, clear, append, resize, element assignment, oneof switching, adoption, cloning and nested edits through the runtime field API leaves the message with exactly the content a plain typed record would have, and encoding it sends exactly that content. Wrong-type, unknown-name or out-of-range access reports an error and changes nothing, and an allocation failure in the middle leaves the message valid with fields not being edited unchanged.",
  ["histories", "fault_sequences"], "every history of field operations on every field kind, and every allocation failure instant",
  "Tests apply each operation once or twice per field kind.",
  [B+"dynamic_message/field_refs.hpp", B+"dynamic_message/scalar_fields.hpp", B+"dynamic_message/repeated_scalar_fields.hpp", B+"dynamic_message/message_fields.hpp", B+"dynamic_message/repeated_message_fields.hpp", B+"dynamic_message/string_fields.hpp", B+"dynamic_message/bytes_fields.hpp", B+"dynamic_message/enum_fields.hpp", B+"dynamic_message/repeated_enum_fields.hpp", B+"dynamic_message/repeated_string_fields.hpp", B+"dynamic_message/repeated_bytes_fields.hpp", B+"dynamic_message/types.hpp"],
  [("typed field references over shared storage", B+"dynamic_message/*_fields.hpp")],
  ["field contents after every operation versus a plain model", "encoded bytes as parsed by the reference runtime"])
# ---------------------------------------------------------------- gRPC
P("G01", "Every RPC ends exactly once on both sides",
  "For every RPC of every kind, under any interleaving of network delivery, failure, cancellation and deadline, the client's completion callback runs exactly once, with no other callback of that call after it, and the server handler for a call is created once and told it is done exactly once after all its other callbacks. No call object is used after it is released, released twice, or leaked.",
  ["schedules", "fault_sequences"], "every interleaving of callbacks, deliveries, resets, cancellations, deadlines and handler actions over any number of concurrent calls",
  "The one gRPC test runs over real sockets with whatever schedule occurs; cancellation racing completion is not controlled.",
  [B+"grpc/client.hpp", B+"grpc/server.hpp"],
  [("reactor lifetime and OnDone forwarding", B+"grpc/client.hpp, grpc/server.hpp")],
  ["callback history per call", "live-object ledger", "AddressSanitizer"])
P("G02", "Streamed messages arrive intact, in order, at most once",
  "In any streaming RPC the sequence of messages one side's handler receives is a prefix of the sequence the other side wrote, each equal in content to what was written, whatever the message sizes, output mode, transport fragmentation and pacing; when the stream ends normally it is the whole sequence. Unary requests and responses arrive with the content sent.",
  ["schedules", "inputs", "fault_sequences"], "every sequence of written messages, serialization option, fragmentation of payloads, delivery schedule and fault",
  "The greeter test streams a few tiny messages in one slice each.",
  [B+"grpc/client.hpp", B+"grpc/server.hpp", B+"grpc/serialization.hpp"],
  [("byte buffer sink and slice reader", B+"grpc/serialization.hpp"), ("per-read and per-write buffers in reactors", B+"grpc/client.hpp, grpc/server.hpp")],
  ["message sequences written and received in each direction"])
P("G03", "The status a server finishes with is the status the client sees",
  "When a server handler finishes a call and the transport stays up, the client receives exactly the code and message the handler gave, and the response exactly when the status is OK; when the call is instead cancelled, times out or the transport fails, the client receives the corresponding error and never a fabricated success. A failure to encode or decode a payload on either side surfaces as an error status of that call only.",
  ["schedules", "fault_sequences", "inputs"], "every finishing status, RPC kind and finishing overload, raced against every transport fault and cancellation, with damaged payloads on any message",
  "The greeter test checks a few statuses on a healthy connection; payload damage in transit is never simulated.",
  [B+"grpc/client.hpp", B+"grpc/server.hpp", B+"grpc/serialization.hpp"],
  [("status propagation in finish overloads", B+"grpc/server.hpp"), ("decode status mapping", B+"grpc/serialization.hpp, client.hpp")],
  ["status passed by handler versus status delivered to client", "effect on other concurrent calls"])
P("G04", "An RPC whose handler keeps its contract never stalls",
  "Once faults stop and peers have acted, every RPC whose server handler and client follow the documented contract reaches completion within a bounded number of further delivery steps, including calls cancelled or reset at any instant, calls with failed reads, writes or serialization, and handlers that leave termination after cancellation to the library. No completed call leaves an operation or a call object outstanding.",
  ["schedules", "fault_sequences"], "every interleaving of deliveries, handler actions, cancellations and faults, followed by a fault-free suffix",
  "A stall needs a specific interleaving of cancellation and outstanding operations that real-socket tests do not control.",
  [B+"grpc/client.hpp", B+"grpc/server.hpp", "docs/grpc-adapter.md"],
  [("fallback termination in server reactors", B+"grpc/server.hpp"), ("client reactor holds and start_call", B+"grpc/client.hpp")],
  ["outstanding operations and unfinished calls when the simulator has nothing left to deliver"])
P("G05", "Terminal events reach the server handler as documented, and finish is sent once",
  "For every server call, the library invokes the handler's read, write, cancel and completion callbacks only for operations the handler started, with truthful success flags, in the documented order, and sends at most one final status per call whatever the race between handler finish, failed reads or writes, and cancellation. When a read or a write fails (or the input ends) and the handler's terminal callback does not claim the event, the library finishes the call itself - with OK at the end of the input, CANCELLED after a cancellation, UNKNOWN after another failed write; when handler and library both finish, the first of them decides the status and the other has no effect.",
  ["schedules", "fault_sequences"], "every race between handler actions, read and write completions, half-close, cancellation and the library's fallback termination",
  "Needs simultaneous outstanding reads and writes at the instant of cancellation; not controllable over real sockets.",
  [B+"grpc/server.hpp", "docs/grpc-adapter.md"],
  [("terminal callback fallback", B+"grpc/server.hpp BasicServerReactor")],
  ["handler callback history against operations started", "send-status operations per call"])
# ---------------------------------------------------------------- generator program
P("L01", "The code generator never reports success for output it did not deliver",
  "When run as a protoc plugin, the generator exits successfully only if the whole request was read and the complete response was written to its output; if reading its input fails, or its input ends inside a field, or any write to its output or to an exported request file fails or hits a full disk or closed pipe, it exits with failure; so it does when memory runs out, unless the response is complete all the same. Short reads and short writes alone never change its output.",
  ["fault_sequences", "inputs"], "every request and every sequence of short or failing reads and writes on its input, output and export file, and every allocation failure instant",
  "The plugin is only ever run by protoc on healthy pipes.",
  ["src/protoc-plugin/protoc-gen-hpp.cpp"],
  [("request read loop and response write", "src/protoc-plugin/protoc-gen-hpp.cpp read_request / write_response")],
  ["exit status versus bytes delivered"])
P("L02", "Generated code depends only on the requested schema",
  "For the same files and options the generator's output is byte-identical on every run, whatever the order in which unrelated files are listed, the addresses memory happens to have, the environment, and whether files are generated together or one per invocation.",
  ["inputs", "configurations", "schedules"], "every schema set and every permutation, batching and memory layout of the run",
  "Tests generate each file once, in one order.",
  ["src/protoc-plugin/hpp_generator.cpp", "src/protoc-plugin/protoc-gen-hpp.cpp", B+"descriptor_pool.hpp"],
  [("descriptor pool ordering and dependency emission", B+"descriptor_pool.hpp, src/protoc-plugin/hpp_generator.cpp")],
  ["files in the generator response across perturbed runs"])
P("L03", "The code generator survives any request bytes",
  "Whatever bytes it is given as its request, the generator terminates promptly, without memory errors and with output and memory bounded by the size of the request. Bytes that do not decode as a request end in failure with nothing written. A request whose descriptors are valid is always answered, with code or with an error message, whatever its size, nesting, names and option texts; every text it carries (defaults, comments, JSON names, file names and options) is encoded for its place: it never becomes code or breaks a literal of a generated file, and the literals for defaults, JSON names and the embedded descriptors (comments aside) hold exactly what was given. An answer with code is whole: each file asked for has the four headers the documentation names, which include each other, once. When memory runs out it ends in failure. (The structure of descriptors that do decode is trusted to have been validated by protoc.)",
  ["inputs", "fault_sequences"], "every damaged request, every valid schema and option text, every allocation failure instant",
  "The plugin is only run on healthy requests of ordinary size and spelling.",
  ["src/protoc-plugin/protoc-gen-hpp.cpp", "src/protoc-plugin/hpp_generator.cpp", "src/protoc-plugin/cpp_lexical_emitter.cpp", B+"descriptor_pool.hpp"],
  [("request decoding", "src/protoc-plugin/protoc-gen-hpp.cpp"), ("encoding of texts for C++", "src/protoc-plugin/cpp_lexical_emitter.cpp")],
  ["process outcome under AddressSanitizer", "exit status, output size, peak memory", "lexical structure and literal values of generated files"])
# ---------------------------------------------------------------- not addressed here
P("N01", "JSON encoding round-trips and agrees with binary and other runtimes",
  "For every message, JSON written by the library (generated or dynamic) is canonical ProtoJSON that conforming peers read back to the same value, and any valid ProtoJSON is read to the value it denotes. Malformed JSON is rejected without memory errors.",
  ["inputs"], "every message and every JSON text",
  "Tests cover fixed samples; the value space is unbounded.",
  [B+"json.hpp", B+"json/util.hpp", B+"json/field_wrappers.hpp", B+"dynamic_message/json.hpp"],
  [("glaze-based codec", B+"json.hpp")], ["JSON text", "decoded message"])
P("N02", "Base64, timestamp, duration and field-mask text codecs are exact inverses",
  "Encoding and decoding bytes, timestamps, durations and field masks to their text forms are exact inverses over the whole valid range, and out-of-range or malformed text is rejected.",
  ["inputs"], "every value and every text", "Tests cover fixed samples.",
  [B+"json/base64.hpp", B+"json/timestamp_codec.hpp", B+"json/duration_codec.hpp", B+"json/field_mask_codec.hpp"],
  [("text codecs", B+"json/*_codec.hpp")], ["text and decoded value"])
P("N03", "Compile-time encoding equals run-time encoding",
  "A message encoded during constant evaluation yields exactly the bytes the same message yields at run time, and a message too deeply nested is rejected at compile time.",
  ["programs"], "every constant message", "Tests have a few constants.",
  [B+"binpb.hpp", B+"binpb/serialize.hpp"], [("consteval write_binpb", B+"binpb.hpp")], ["constant bytes"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in R: f.write(json.dumps(r) + "\n")
print(len(R), "properties")
