"""Which code each property's simulator is made of."""
TRAITS = {
    'default': 'hpp_proto::default_traits', 'stable': 'hpp_proto::stable_traits', 'pmr': 'hpp_proto::pmr_traits', 'pmr_stable': 'hpp_proto::pmr_stable_traits',
    'non_owning': 'hpp_proto::non_owning_traits', 'keep': 'hpp_proto::keep_unknown_fields<hpp_proto::default_traits>',
    'keep_pmr': 'hpp_proto::keep_unknown_fields<hpp_proto::pmr_traits>', 'keep_stable': 'hpp_proto::keep_unknown_fields<hpp_proto::stable_traits>',
    'keep_non_owning': 'hpp_proto::keep_unknown_fields<hpp_proto::non_owning_traits>',
}
CODEC_REAL = ['generated message code (regenerated with the generator built from the current tree)', 'hpp_proto binpb codec headers', 'field/container types', 'protoc-gen-hpp']
CODEC_STUB = ['is_utf8 (linked-in simdutf replaced by a table-free reference)', 'network/links and peers (simulated)', 'memory resources (simulated)']


def codec(feats, cus, scn, rule, **kw):
    d = dict(gen=sorted({c[0] for c in cus}), harness=['tree.cpp', 'codec.cpp'], cus=[(a, b, t, f'({feats}){"|" + x[0] if x else ""}') for a, b, t, *x in cus],
             scn=scn, rule=rule, real=CODEC_REAL, stub=CODEC_STUB)
    d.update(kw)
    return d


PROPS = {
    'C01': codec('F_CHUNK', [('p2', 'All2', 'default'), ('p3', 'All3', 'default'), ('pe', 'AllE', 'default'), ('p2', 'Mid2,Req2', 'stable'), ('p3', 'Mid3,Tree', 'non_owning'),
                             ('p3', 'Mid3,Old3', 'keep_pmr'), ('p2', 'Mid2', 'keep_non_owning'), ('pe', 'MidE,Tree', 'keep'), ('pf', 'AllF', 'default'), ('pf', 'AllF', 'non_owning')],
                 ['scn_c01.cpp'],
                 'A run draws a message type and storage trait, generates a value, lets a simulated peer encode it in one of the legal ways (or damages it in flight), then decodes the bytes contiguously and under several chunkings; non-trivial = more than one byte of input.'),
    'C05': codec('F_CHUNK|F_PADDED', [('p2', 'All2,Edge2', 'default'), ('p3', 'All3', 'default'), ('pe', 'AllE', 'default'), ('p2', 'Mid2,Req2', 'stable'), ('p3', 'Mid3,Tree', 'pmr'),
                                      ('p3', 'Mid3', 'keep_non_owning'), ('p2', 'Mid2,Req2', 'non_owning'), ('pe', 'MidE,Tree', 'keep'), ('pf', 'AllF', 'default'), ('pf', 'AllF', 'non_owning')],
                 ['scn_c05.cpp'],
                 'A run draws a message type and storage trait, generates a value, lets a simulated peer encode it using a random mix of every liberty the wire format allows, and compares the decoded object with an independent reference decoder; non-trivial = more than two bytes of input.'),
    'C02': codec('F_ENC|F_SINK|F_ENCMORE|F_CACHE', [('p2', 'All2', 'default'), ('p3', 'Mid3,Tree', 'default'), ('pe', 'MidE', 'stable'), ('p2', 'Mid2,Req2', 'non_owning'), ('p3', 'Mid3', 'keep_pmr'), ('p2', 'Mid2', 'keep_non_owning'), ('pe', 'AllE', 'keep'), ('pf', 'AllF', 'default')],
                 ['scn_c02.cpp'],
                 'A run builds a value of a drawn message type and storage trait and encodes it through several destinations - growable, fixed, appended-to, non-owning, cached, and simulated sinks with drawn chunk sizes in contiguous, adaptive and chunked mode - comparing every result byte for byte; non-trivial = more than two bytes of output.'),
    'C03': codec('F_ENC|F_SINK|F_ENCMORE', [('p2', 'All2', 'default'), ('p3', 'Mid3,Tree', 'default'), ('pe', 'MidE', 'stable'), ('p2', 'Mid2,Req2', 'non_owning'), ('p3', 'Mid3', 'keep_pmr'), ('p2', 'Mid2', 'keep_non_owning'), ('pe', 'AllE', 'keep')],
                 ['scn_c03.cpp'],
                 'A run builds a value and encodes it into destinations that fail: fixed buffers of any smaller size, sinks handing out short, empty or too few chunks, lying about their chunk size, or throwing; each chunk is an exactly sized allocation with guarded ends; non-trivial = more than two bytes of output.'),
    'C06': codec('F_ENC|F_SINK|F_CHUNK', [('p2', 'All2,Edge2', 'default'), ('p3', 'All3', 'default'), ('pe', 'AllE', 'default'), ('p2', 'Mid2,Req2', 'stable'), ('p2', 'Mid2,Req2', 'non_owning'), ('p3', 'Mid3,Tree', 'pmr'), ('p3', 'Mid3,Tree', 'keep_non_owning'), ('pe', 'MidE', 'keep'), ('pe', 'MidE', 'default'), ('pf', 'AllF', 'default'), ('pf', 'AllF', 'keep_non_owning')],
                 ['scn_c06.cpp'],
                 'A run draws a message type and storage trait, builds a value, encodes it, and lets an independent peer (reference decoder) and the library itself (another trait, random fragmentation) decode it, for one or several hops; non-trivial = more than two bytes on the wire.'),
    'C07': codec('F_ENC|F_CHUNK|F_COPY|F_EXT|F_SET', [('p2', 'All2', 'default'), ('p2', 'Old2,OldX2,Mid2', 'keep'), ('p2', 'Old2,OldX2,Mid2', 'keep_non_owning'), ('p3', 'Old3', 'keep_stable'), ('p3', 'Old3', 'keep_non_owning'), ('p3', 'Old3', 'keep_pmr'),
                                              ('p2', 'OldX2,Mid2', 'default'), ('p2', 'OldX2,Mid2', 'non_owning'), ('pe', 'MidE', 'stable'), ('pe', 'MidE', 'keep_non_owning'), ('pf', 'AllF', 'default')],
                 ['scn_c07.cpp'],
                 'A run lets a peer with a newer schema send a value through 1-4 older nodes (drawn storage traits, fragmentation, edits of known fields, forwarding of copies), and compares what a newer peer sees after every hop; or runs a history of set/get/has extension calls and transfers against a model; non-trivial = more than two bytes on the wire.'),
    'C08': codec('F_ENC|F_CHUNK|F_MERGE|F_COPY', [('p2', 'All2', 'default'), ('p3', 'All3', 'default'), ('p2', 'Flat2,Req2,Mid2', 'default', 'F_EXT'), ('p3', 'Flat3,Mid3', 'default'), ('pe', 'MidE', 'stable'), ('p2', 'Flat2,Mid2', 'keep'), ('p2', 'FlatN', 'keep_non_owning'), ('p2', 'FlatN', 'non_owning'),
                                              ('p2', 'FlatN,Flat2', 'pmr_stable'), ('p3', 'Mid3,Flat3', 'keep_pmr'), ('p3', 'Flat3', 'keep_stable')],
                 ['scn_c08.cpp'],
                 'A run builds 2-5 objects of one message type from drawn values (some already used, fragmented, or with unknown fields), merges them pairwise by copy, by move, across storage traits and in sequences, and compares each result with the decode of the concatenated encodings; non-trivial = both operands non-empty.'),
    'C09': codec('F_ENC|F_CHUNK|F_PADDED|F_SINK|F_LIMIT', [('p2', 'All2', 'default'), ('p2', 'Mid2,Req2,Tree,Branch', 'stable'), ('p2', 'Mid2,Tree', 'keep_non_owning'), ('p3', 'Mid3,Tree', 'non_owning'), ('p3', 'Mid3,Dir', 'keep_pmr'), ('pe', 'MidE,Tree', 'default'), ('pe', 'AllE', 'keep'), ('pf', 'AllF', 'default')],
                 ['scn_c09.cpp'],
                 'A run builds an encoding nested along a random path of submessages, groups, map values, repeated, oneof and extension messages and unknown groups, at a depth around a limit (0, 1, 5, 100) or far beyond it, and decodes and re-encodes it with that limit through every mode; the depth at which a reference decoder first succeeds decides what must happen; non-trivial = nested at least once.'),
    'C10': codec('F_ENC|F_CHUNK|F_PADDED|F_CACHE|F_REACH|F_ENCMORE', [('p2', 'All2', 'non_owning', 'F_EXT'), ('p3', 'All3', 'pmr', 'F_COPY'), ('p2', 'Mid2,Req2', 'keep_non_owning', 'F_EXT'), ('p2', 'Mid2,Flat2', 'keep_pmr', 'F_EXT|F_COPY|F_MERGE'),
                                              ('p3', 'Mid3,Tree', 'keep_non_owning'), ('pe', 'MidE,Tree', 'pmr_stable', 'F_COPY'), ('p2', 'FlatN', 'non_owning', 'F_MERGE'), ('p2', 'FlatN', 'keep_non_owning', 'F_MERGE'), ('pe', 'AllE', 'non_owning')],
                 ['scn_c10.cpp'],
                 'A run draws a non-owning or polymorphic-allocator message type, decodes 1-3 drawn inputs (valid, damaged, fragmented, padded) into one object with tracked arena, default and cache resources and an instrumented global heap, encodes it, merges, copies and edits it, and checks every address reachable from it; non-trivial = more than two bytes of input.'),
    'C11': codec('F_ENC|F_CHUNK|F_CACHE|F_ENCMORE|F_SINK|F_COPY', [('p2', 'All2', 'default'), ('p3', 'All3', 'pmr'), ('p2', 'Mid2,Flat2', 'keep', 'F_EXT|F_MERGE'), ('p3', 'Mid3', 'stable', 'F_MERGE'), ('pe', 'MidE', 'keep_pmr', 'F_EXT|F_MERGE'),
                                              ('p2', 'Mid2', 'keep_non_owning', 'F_EXT'), ('p2', 'FlatN', 'non_owning', 'F_MERGE'), ('p2', 'FlatN', 'keep_non_owning', 'F_MERGE'), ('p3', 'Mid3,Tree', 'non_owning'), ('pe', 'Tree', 'default'), ('p2', 'Tree', 'pmr_stable')],
                 ['scn_c11.cpp'],
                 'A run draws a message type, two values and one operation (decode, encode, copy, assign, merge, get/set extension), counts its allocations, and repeats it in a fresh simulated world once per chosen allocation instant (every instant when there are at most 24) with one or several allocations in a row failing there; non-trivial = the operation allocates at all.'),
    'C04': codec('F_CHUNK|F_PADDED|F_CACHE|F_ENC', [('p2', 'All2', 'default'), ('p3', 'All3', 'non_owning'), ('pe', 'AllE', 'keep'), ('p2', 'Mid2,Req2,Flat2', 'keep_non_owning'), ('p3', 'Mid3,Tree', 'non_owning'),
                                              ('p3', 'Mid3,Old3', 'keep_pmr'), ('pe', 'MidE,Tree', 'stable'), ('p2', 'Mid2,Old2', 'keep')],
                 ['scn_c04.cpp'],
                 'A run draws a message type and storage trait and decodes damaged traffic, garbage, fields that claim more than there is, or long inputs of unfavourable shape, in a drawn mode and fragmentation, with every allocation accounted for; what is accepted is re-encoded and decoded again; non-trivial = more than two bytes of input.'),
    'F01': dict(scn=['scn_f01.cpp'], real=['hpp_proto::flat_map (include/hpp_proto/flat_map.hpp)', 'libstdc++ vector, deque and pmr containers'], stub=['element types (instrumented, failing on command)', 'memory resources and global heap (simulated)'],
        rule='A run draws a container configuration (std / pmr vector, deque, throwing moves, transparent comparator), builds three maps and applies 4-43 drawn operations, two out of five of which fail at a drawn allocation, comparison, copy or move; contents, order, return values and iteration are compared with an ordered-map model after every operation; non-trivial = the run completed its operations.',
        state='contents of each map after each operation'),
    'F02': dict(scn=['scn_f02.cpp'], real=['hpp_proto::indirect, hpp_proto::optional_indirect'], stub=['element types (instrumented, failing on command)', 'allocators and global heap (simulated)'],
        rule='A run draws one of indirect / optional_indirect and an allocator kind (always equal, stateful, stateful and propagating), and either applies 4-43 drawn operations to three objects or 3-22 drawn edits to a recursive chain, with drawn failures of allocations, copies and moves; every value, emptiness, allocator and return value is compared with plain optionals; non-trivial = the run completed its operations.',
        state='emptiness, moved-from state and allocator of the three objects'),
}

# dynamic messages as one more codec
DYN = ('dyn.cpp', '--embed-dir={B}/gen')
DYN_KW = dict(wkt=True, inc='-I{V}/harness/stub', repo_src=[('src/dynamic_message/factory.cpp', '-DHPP_PROTO_NO_UTF8_VALIDATION=1')])
DYN_REAL = ['dynamic message runtime (dynamic_message/*.hpp, factory.cpp, descriptor_pool.hpp)']
PROPS['D01'] = codec('F_CHUNK|F_PADDED|F_LIMIT|F_ENC|F_CACHE', [('p2', 'All2,Edge2', 'default'), ('p3', 'All3', 'default'), ('pe', 'AllE', 'default'), ('pf', 'AllF', 'default'), ('p2', 'Mid2,Req2', 'non_owning'), ('p3', 'Mid3,Tree', 'non_owning')],
                     ['scn_d01.cpp', DYN],
                     'A run draws a message type and inputs (a peer\'s legal encoding, damaged traffic, garbage), decodes them with the dynamic message and the generated types in a drawn mode and fragmentation, compares acceptance and content with each other and with the reference decoder, reads the dynamic message through every part of its reflective API, and re-encodes through drawn buffers and simulated sinks for any of them to decode; non-trivial = more than two bytes of input.', **DYN_KW)
PROPS['D01']['real'] = DYN_REAL + CODEC_REAL
PROPS['D04'] = dict(gen=['p2', 'p3', 'pe', 'pf'], harness=['tree.cpp', 'codec.cpp'], cus=[], scn=['scn_d04.cpp', DYN], real=DYN_REAL + CODEC_REAL[1:3], stub=CODEC_STUB,
    rule='A run draws a message type, and applies 6-45 drawn operations - typed and untyped sets, clears, appends, resizes, element assignments, oneof switches, adoptions, clones, aliases, nested edits, misuse, encodings and decodes in place - to two messages of it on separate arenas, in half of the runs with arena allocations failing at drawn instants; both messages are read back completely through the API after every operation and compared with plain records; non-trivial = the run completed its operations.', **DYN_KW)

RPC_REAL = ['hpp_proto gRPC adapter (client.hpp, server.hpp, serialization.hpp)', 'generated service and message code', 'binpb codec headers', 'libgrpc++ callback API layer (reactors, callback handlers, op sets, byte buffers)']
RPC_STUB = ['gRPC C core: calls, batches, completion queues, executor (simulated)', 'network, clock, deadlines (simulated)', 'is_utf8']
for _p, _r in {
    'G01': 'a client completion or a handler that is delivered, created or released other than exactly once',
    'G02': 'any message that is lost, duplicated, reordered or altered on either side',
    'G03': 'a final status that differs from the one its cause defines',
    'G04': 'a call, handler, reactor or callback that is still there when nothing is left to happen',
    'G05': 'a handler callback out of order, unrequested, repeated or untrue, or a second finish',
}.items():
    PROPS[_p] = dict(gen=['rpc'], san='-O0 -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern', scn=['rpc_core.cpp', 'scn_rpc.cpp'], real=RPC_REAL, stub=RPC_STUB, libs='-lgrpc++ -lgrpc -lgpr -labsl_status -labsl_synchronization',
        rule='A run starts 1-5 calls of the four kinds (reactor, callback and blocking clients) against a service with drawn behaviour, under a drawn scheduling bias, with deadlines, cancellation by either side, connection resets, damaged messages, unencodable messages and throwing handlers, until nothing is left to happen; it reports ' + _r + '; non-trivial = a call completed with OK.',
        state='sizes of the runnable queues at each event')

# the generator as a process
_PI = '-I{R}/src/protoc-plugin'
_PF = '-DHPP_PROTO_NO_UTF8_VALIDATION=1 -DHPP_PROTO_VERSION=\\"1.0.0\\"'
PLUGIN_SRC = [('src/protoc-plugin/cpp_lexical_emitter.cpp', _PF), ('src/protoc-plugin/hpp_generator.cpp', _PF), ('src/protoc-plugin/protoc-gen-hpp.cpp', _PF + ' -Dmain=plugin_main')]
PLUGIN_REAL = ['protoc-gen-hpp (protoc-gen-hpp.cpp, hpp_generator.cpp, cpp_lexical_emitter.cpp, descriptor_pool.hpp, binpb codec)', 'libstdc++ streams, glibc stdio']
PLUGIN_STUB = ['kernel side of stdin, stdout and of files (trapped system calls answered by the simulator)', 'clock, process id, random numbers', 'heap placement and failures (simulated)', 'protoc (requests are made by the simulator)']
def plugin(scn, rule, **kw):
    return dict(gen=['p2', 'p3', 'pe', 'rpc'], harness=['tree.cpp'], scn=([scn] if isinstance(scn, str) else scn) + ['plugin_sim.cpp', 'schema_gen.cpp'], repo_src=PLUGIN_SRC, inc=_PI, tools=['plugin_sets'], env={'VP_GEN': '{B}/gen', 'ASAN_OPTIONS': 'symbolize=0', 'UBSAN_OPTIONS': 'symbolize=0:print_stacktrace=1:halt_on_error=1:exitcode=78'}, real=PLUGIN_REAL, stub=PLUGIN_STUB, rule=rule, **kw)
PROPS['L01'] = plugin('scn_l01.cpp', 'A run draws a schema, options and a request, lets the real generator process it on healthy streams, and then again with drawn transfer sizes, stream and file-system errors at drawn byte positions, input that ends early, or failing allocations; success is only accepted with the whole request seen and every byte of the same response and exported request delivered; non-trivial = every run.', state='exit status, completeness and number of errors per stream')

PROPS['L02'] = plugin('scn_l02.cpp', 'A run draws a schema of one to five files (or one compiled by protoc) and options, generates everything once, and three times more with other heap and stack placement and contents, clock, process id, environment and transfer sizes, for subsets, singly, in other orders, with only the needed or with unrelated files present; every generated file must be the same byte for byte; non-trivial = every run.', state='hash of each response')
PROPS['L02']['san'] = '-O0 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer'
PROPS['L02']['env'] = dict(PROPS['L02']['env'], ASAN_OPTIONS='symbolize=0:detect_stack_use_after_return=0')
PROPS['L03'] = plugin(['scn_l03.cpp', 'descr_mut.cpp'], 'A run draws a schema and a request for it and damages its bytes (truncation, flips, splices, hostile lengths), or puts hostile texts into defaults, comments, JSON names and options, or builds an extreme but valid schema (nesting, names, import chains, many fields or values), or uses odd options, or lets allocations fail, and observes how the generator ends, under AddressSanitizer and UBSan with CPU, memory and output limits, and whether texts stay inside literals and comments; non-trivial = runs in which the generator was given what the scenario is about.', state='exit status and beginning of the response')
PROPS['D02'] = dict(gen=['p2', 'p3', 'pe', 'pf', 'rpc'], harness=['tree.cpp', 'codec.cpp'], cus=[], scn=['scn_d02.cpp', 'ds_schema.cpp', 'descr_mut.cpp', 'schema_gen.cpp', DYN], tools=['plugin_sets'], env={'VP_GEN': '{B}/gen'}, real=DYN_REAL + CODEC_REAL[1:3], stub=CODEC_STUB, state='hash of each decoded message',
    rule='A run draws a schema of one to five files (any syntax, edition and feature combination the language allows, nested types, oneofs, maps, groups, extensions) or takes a compiled one, and hands it to create() as one set or file by file, in a drawn order, from memory that is gone afterwards, allocating from a resource the simulator owns. Every type of the set must be given out and no other name; messages of drawn types must decode what a peer sends (drawn legal encodings, some damaged), read back and encode as reference tables built at run time from the same files say, also after the factory was moved or another one made and destroyed. Other scenarios damage the bytes, break the structure in one of 17 ways (must be refused with the right error), mutate descriptors freely (must not crash or hang), or make a drawn allocation of create() or get_message() fail and try again; each ends with nothing left in the resource or on the heap.', **DYN_KW)
PROPS['D03'] = codec('F_ENC|F_SINK|F_ENCMORE|F_COPY', [('p2', 'Mid2,Req2', 'default', 'F_MERGE'), ('p3', 'All3', 'default', 'F_MERGE'), ('p3', 'Mid3,Tree', 'non_owning'), ('pe', 'MidE', 'keep', 'F_MERGE'), ('pf', 'AllF', 'default', 'F_MERGE')],
    ['scn_d03.cpp', 'ds_schema.cpp', 'descr_mut.cpp', 'schema_gen.cpp', DYN, ('mt.cpp', '-fno-sanitize=thread')],
    'A run draws a schema, makes one factory from it and up to four messages (dynamic and generated) that nobody changes afterwards, and lets two to four threads use them at the same time, each with a drawn list of operations: looking up types and making, decoding and encoding messages of its own, reading, encoding, cloning, copying and merging from the shared ones, asking for unknown names, making and destroying another factory. Threads are real, but one runs at a time, chosen by the seed at every lock and at drawn memory accesses; every access of instrumented code is checked for a race under the happens-before order of locks, guards and atomics, and every result is compared with the same operation done alone and with the reference model; non-trivial = at least two threads did something between which the scheduler switched.', **DYN_KW)
PROPS['D03'].update(assume=['Executions are sequentially consistent interleavings; missing ordering is found by the happens-before analysis, not by simulating weak memory.', 'Accesses inside uninstrumented libraries (libstdc++.so, libc other than memcpy-like calls, malloc) are seen only as far as their interposed entry points tell.', 'Condition variables and atomic waits are not scheduled (the code under test uses none).'])
PROPS['D03'].update(gen=['p2', 'p3', 'pe', 'pf', 'rpc'], tools=['plugin_sets'], env={'VP_GEN': '{B}/gen'}, real=DYN_REAL + CODEC_REAL, san='-O1 -g1 -fsanitize=thread -fno-builtin-memcmp -fno-builtin-bcmp', alloc_flags='-O1', tree_flags='-O1 -g1 -fsanitize=thread', ldflags='-rdynamic -pthread -Wl,--wrap=memcmp,--wrap=bcmp,--wrap=strlen,--wrap=memchr')
NOT_APPLICABLE = {
    'N01': 'JSON encoding and decoding are pure functions of one in-memory value and one in-memory string: no thread, clock, I/O, peer or history for a simulated schedule or fault to vary; deciding it would be plain property-based testing, a different technique.',
    'N02': 'The base64, timestamp, duration and field-mask text codecs are pure functions of their argument: there is no schedule, time, I/O or fault for a simulator to control.',
    'N03': 'The property compares constant evaluation by the compiler with run-time evaluation: the former happens inside the compiler, where no simulator can schedule or inject anything.',
}
