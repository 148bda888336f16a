#!/usr/bin/env python3
"""Schema tables and C++ field visitors from a FileDescriptorSet (run with the protoc venv python).
usage: gen_schema.py in.ds out.schema.hpp namespace"""
import sys
from google.protobuf import descriptor_pb2, descriptor_pool
from google.protobuf.descriptor import FieldDescriptor as FD

KIND = {FD.TYPE_INT32: 'I32', FD.TYPE_INT64: 'I64', FD.TYPE_UINT32: 'U32', FD.TYPE_UINT64: 'U64', FD.TYPE_SINT32: 'S32',
        FD.TYPE_SINT64: 'S64', FD.TYPE_FIXED32: 'F32', FD.TYPE_FIXED64: 'F64', FD.TYPE_SFIXED32: 'SF32',
        FD.TYPE_SFIXED64: 'SF64', FD.TYPE_FLOAT: 'FLT', FD.TYPE_DOUBLE: 'DBL', FD.TYPE_BOOL: 'BOOL',
        FD.TYPE_STRING: 'STR', FD.TYPE_BYTES: 'BYT', FD.TYPE_MESSAGE: 'MSG', FD.TYPE_GROUP: 'GRP', FD.TYPE_ENUM: 'ENUM'}


def features(fs_set, default_edition):
    pass


def main():
    src, out, ns = sys.argv[1:4]
    fds = descriptor_pb2.FileDescriptorSet.FromString(open(src, 'rb').read())
    pool = descriptor_pool.DescriptorPool()
    files = [pool.AddSerializedFile(f.SerializeToString()) and None or pool.FindFileByName(f.name) for f in fds.file]
    main_file = files[-1]
    main_proto = fds.file[-1]
    msgs, enums = [], []

    def feat(o, name, inherited):
        f = o.options.features if o.HasField('options') else None
        return getattr(f, name) if f is not None and f.HasField(name) else inherited

    ext_fields = {}

    def walk(d):
        msgs.append(d)
        for n in d.nested_types:
            walk(n)
    for f in files:
        for d in f.message_types_by_name.values():
            walk(d)
    index = {d.full_name: i for i, d in enumerate(msgs)}
    for f in files:
        for e in f.enum_types_by_name.values():
            enums.append(e)
    for d in msgs:
        enums.extend(d.enum_types)
    eindex = {e.full_name: i for i, e in enumerate(enums)}

    proto_fields = {}

    def collect(prefix, mp, utf8):
        u = feat(mp, 'utf8_validation', utf8)
        for fp in mp.field:
            proto_fields[prefix + '.' + mp.name + '.' + fp.name] = (fp, feat(fp, 'utf8_validation', u))
        for n in mp.nested_type:
            collect(prefix + '.' + mp.name, n, u)
        for fp in mp.extension:
            proto_fields[prefix + '.' + mp.name + '.' + fp.name] = (fp, feat(fp, 'utf8_validation', u))
    for fp in fds.file:
        base = 2 if fp.syntax != 'proto2' and fp.syntax != '' else 3  # VERIFY=2 NONE=3
        u = feat(fp, 'utf8_validation', base)
        for m in fp.message_type:
            collect(fp.package, m, u)
        for x in fp.extension:
            proto_fields[fp.package + '.' + x.name] = (x, feat(x, 'utf8_validation', u))

    def cxx(d, traits='T'):
        parts = []
        c = d.containing_type
        while c is not None:
            parts.append(c.name + '_')
            c = c.containing_type
        nsp = '::'.join(['', *d.file.package.split('.'), *reversed(parts)])
        return f'{nsp}::{d.name}<{traits}>'

    def is_utf8(f):
        return f.type == FD.TYPE_STRING and proto_fields[f.full_name][1] == 2

    def cstr(b):
        return '"' + ''.join('\\%03o' % c for c in b) + '"s'

    def field(f):
        k = KIND[f.type]
        ft = f.message_type
        is_map = ft is not None and ft.GetOptions().map_entry
        rep = f.is_repeated if hasattr(f, 'is_repeated') else f.label == FD.LABEL_REPEATED
        card = 'MAP' if is_map else 'REP' if rep else 'REQ' if (f.is_required if hasattr(f,'is_required') else f.label == FD.LABEL_REQUIRED) else 'EXP' if f.has_presence else 'IMP'
        packed = 1 if rep and f.is_packed else 0
        oneof = f.containing_oneof.index if f.containing_oneof is not None and not proto_fields[f.full_name][0].proto3_optional else -1
        m = index[ft.full_name] if ft is not None else -1
        e = eindex[f.enum_type.full_name] if f.enum_type is not None else -1
        dv, ds = '0', '""s'
        if f.has_default_value and not rep:
            v = f.default_value
            import struct
            if k == 'STR': ds = cstr(v.encode())
            elif k == 'BYT': ds = cstr(v)
            elif k == 'FLT': dv = '0x%xull' % struct.unpack('<I', struct.pack('<f', v))[0]
            elif k == 'DBL': dv = '0x%xull' % struct.unpack('<Q', struct.pack('<d', v))[0]
            else: dv = '0x%xull' % (int(v) & 0xffffffffffffffff)
        elif k == 'ENUM' and not rep:
            dv = '0x%xull' % (f.default_value & 0xffffffffffffffff)
        return (f'{{{f.number}, "{f.name}", {k}, {card}, {packed}, {int(is_utf8(f))}, {oneof}, {m}, {e}, {dv}, {ds}}}')

    o = []
    o.append('#pragma once')
    o.append('// generated by gen_schema.py')
    o.append('namespace hv {')
    o.append(f'inline const Schema &schema_{ns}() {{ using namespace std::string_literals; static const Schema S = [] {{ Schema s;')
    for e in enums:
        closed = int(e.is_closed)
        vals = ','.join(str(v.number) for v in e.values)
        o.append(f's.enums.push_back({{"{e.full_name}", {closed}, {{{vals}}}}});')
    exts = {}
    for f in files:
        for x in f.extensions_by_name.values():
            exts.setdefault(x.containing_type.full_name, []).append(x)
    for d in msgs:
        fl = ',\n  '.join(field(f) for f in sorted(d.fields, key=lambda f: f.number))
        xl = ',\n  '.join(field(f) for f in sorted(exts.get(d.full_name, []), key=lambda f: f.number))
        er = ','.join('{%d,%d}' % (a, b) for a, b in d.extension_ranges)
        o.append(f's.msgs.push_back({{"{d.full_name}", {int(d.GetOptions().map_entry)}, {{{fl}}}, {{{xl}}}, {{{er}}}}});')
    o.append('s.link(); return s; }(); return S; }')
    o.append('} // namespace hv')
    # visitors
    o.append('#ifdef HV_VISITORS')
    o.append('namespace hv {')
    real = [d for d in msgs if not d.GetOptions().map_entry and d.file is main_file]
    for d in real:
        o.append(f'template <class T, class V> void visit(V &v, const {cxx(d)} &m);')
        o.append(f'template <class T> const MsgS *schema_of(Tag, const {cxx(d)} *) {{ return &schema_{ns}().msgs[{index[d.full_name]}]; }}')
    for d in real:
        o.append(f'template <class T, class V> void visit(V &v, const {cxx(d)} &m) {{ const MsgS *S = &schema_{ns}().msgs[{index[d.full_name]}]; (void)S; (void)m; (void)v;')
        fs = sorted(d.fields, key=lambda f: f.number)
        for i, f in enumerate(fs):
            if f.containing_oneof is not None and not proto_fields[f.full_name][0].proto3_optional:
                continue
            o.append(f'  v.f(S->fields[{i}], m.{f.name.lower() if f.type == FD.TYPE_GROUP and f.message_type.name.lower() == f.name else f.name});')
        for oo in d.oneofs:
            ofs = [f for f in oo.fields]
            if proto_fields[ofs[0].full_name][0].proto3_optional:
                continue
            # alternatives in declaration order
            order = [f for f in d.fields if f.containing_oneof is oo or (f.containing_oneof is not None and f.containing_oneof.name == oo.name)]
            idx = ','.join(str(fs.index(f)) for f in order)
            o.append(f'  {{ static constexpr int ix[] = {{{idx}}}; v.oneof(S, ix, m.{oo.name}); }}')
        o.append('  v.unknown(m.unknown_fields_);')
        o.append('}')
    ext_owner = {}
    for x in main_file.extensions_by_name.values():
        ext_owner.setdefault(x.containing_type.full_name, []).append(x)
    for d in real:
        xs = sorted(ext_owner.get(d.full_name, []), key=lambda f: f.number)
        if not xs:
            continue
        o.append(f'template <class T, class V> void visit_exts(V &v, const {cxx(d)} *) {{ const MsgS *S = &schema_{ns}().msgs[{index[d.full_name]}];')
        allx = sorted(exts.get(d.full_name, []), key=lambda f: f.number)
        for x in xs:
            tmpl = x.is_repeated if hasattr(x, 'is_repeated') else x.label == FD.LABEL_REPEATED
            tmpl = tmpl or x.message_type is not None or KIND[x.type] in ('STR', 'BYT')
            nsp = '::'.join(['', *main_file.package.split('.')])
            o.append(f'  v.template ext<{nsp}::{x.name}{"<T>" if tmpl else ""}>(S->exts[{allx.index(x)}]);')
        o.append('}')
    o.append('} // namespace hv')
    o.append('#endif')
    open(out, 'w').write('\n'.join(o) + '\n')


main()
