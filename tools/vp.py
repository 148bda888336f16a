#!/usr/bin/env python3
"""Builds the simulator of a property from /repo's current tree, runs it, and reports.
  vp.py check PROP [--thorough] [--seed N] [--seconds S] [--only SCENARIO]
  vp.py check --replay FILE
  vp.py build PROP..."""
import hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('VP_REPO', '/repo')
B = os.path.join(V, 'build')
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS, TRAITS  # noqa: E402

PROTOC = '/opt/vp/protoc/bin/protoc'
PY = '/opt/vp/protoc-venv/bin/python'
CXX = 'clang++-20'
COMMON = '-std=c++23 -fconstexpr-steps=67108864 -DNDEBUG -g1 -ftemplate-backtrace-limit=2 -w'
SAN = '-O0 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern'
GEN = f'{B}/gen'
INC = f'-I{R}/include -I{GEN} -I{V}'
WKT = ['any', 'duration', 'empty', 'field_mask', 'source_context', 'struct', 'timestamp', 'wrappers', 'api', 'type']


class Ninja:
    def __init__(self):
        self.out = [f'builddir = {B}', '''rule cxx
  command = $cxx $flags -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = CXX $out
rule link
  command = $cxx $flags $in -o $out $libs
  description = LINK $out
rule run
  command = $cmd
  restat = 1
  description = $desc
''']
        self.done = set()

    def build(self, outs, rule, ins, implicit=(), order=(), **v):
        outs = [outs] if isinstance(outs, str) else list(outs)
        if outs[0] in self.done:
            return outs[0]
        self.done.add(outs[0])
        s = f"build {' '.join(outs)}: {rule} {' '.join(ins)}"
        if implicit: s += ' | ' + ' '.join(implicit)
        if order: s += ' || ' + ' '.join(order)
        self.out.append(s)
        for k, x in v.items():
            self.out.append(f'  {k} = {x}')
        return outs[0]


def sh(s):
    return s.replace('$', '$$')


class Builder:
    def __init__(self):
        self.n = Ninja()

    def obj(self, src, flags=SAN, inc=INC, order=(), tag='', cxx=CXX, implicit=()):
        key = hashlib.sha1((src + flags + inc + cxx + tag).encode()).hexdigest()[:8]
        o = f"{B}/obj/{os.path.basename(src).rsplit('.', 1)[0]}-{key}.o"
        return self.n.build(o, 'cxx', [src], order=order, implicit=implicit, cxx=cxx, flags=f'{COMMON} {flags} {inc}')

    def plugin(self, flags='-O0 -DHPP_PROTO_NO_UTF8_VALIDATION=1', name='protoc-gen-hpp'):
        d = f'{R}/src/protoc-plugin'
        objs = [self.obj(f'{d}/{f}.cpp', flags + ' -DHPP_PROTO_VERSION=\\"1.0.0\\"', f'-I{R}/include -I{d}') for f in ('cpp_lexical_emitter', 'hpp_generator', 'protoc-gen-hpp')]
        return self.n.build(f'{B}/{name}', 'link', objs, cxx=CXX, flags='', libs='')

    def gen(self, ns):
        p = self.plugin()
        src = f'{V}/protos/{ns}.proto'
        outs = [f'{GEN}/{ns}.{k}.hpp' for k in ('msg', 'pb', 'desc', 'glz')] + [f'{GEN}/{ns}.ds', f'{GEN}/{ns}.schema.hpp']
        cmd = (f'mkdir -p {GEN} && {PROTOC} --plugin=protoc-gen-hpp={p} --hpp_out={GEN} --include_imports -I{V}/protos {ns}.proto -o{GEN}/{ns}.ds '
               f'&& {PY} {V}/tools/gen_schema.py {GEN}/{ns}.ds {GEN}/{ns}.schema.hpp {ns}')
        self.n.build(outs, 'run', [src, p, f'{V}/tools/gen_schema.py'], cmd=cmd, desc=f'GEN {ns}')
        return outs

    def wkt(self):
        p = self.plugin()
        outs = [f'{GEN}/google/protobuf/{n}.pb.hpp' for n in WKT]
        cmd = f"mkdir -p {GEN} && cd {GEN} && {PROTOC} --plugin=protoc-gen-hpp={p} --hpp_out={GEN} -I/opt/vp/protoc/include {' '.join(f'google/protobuf/{n}.proto' for n in WKT)}"
        self.n.build(outs, 'run', [p], cmd=cmd, desc='GEN well-known types')
        return outs

    def plugin_sets(self): # descriptor sets of real schemas
        out = [f'{GEN}/plugin.ds', f'{GEN}/wktset.ds']
        inc = '/opt/vp/protoc/include'
        cmd = (f"mkdir -p {GEN} && {PROTOC} --include_imports -I{inc} google/protobuf/compiler/plugin.proto -o{GEN}/plugin.ds && "
               f"{PROTOC} --include_imports -I{inc} {' '.join(f'google/protobuf/{n}.proto' for n in WKT)} -o{GEN}/wktset.ds && "
               f"{PY} {V}/tools/gen_schema.py {GEN}/plugin.ds {GEN}/plugin.schema.hpp plugin")
        self.n.build(out + [f'{GEN}/plugin.schema.hpp'], 'run', [f'{V}/tools/gen_schema.py'], cmd=cmd, desc='descriptor sets')
        return out[0]

    def cu(self, ns, msgs, trait, feats, flags=SAN):
        msgs = msgs.split(',')
        tr = TRAITS[trait]
        body = ''.join(f'static RegisterCodec r{i}(make_codec<{ns}::{m}<{tr}>, {f}>("{trait}"));\n' for i, (m, f) in enumerate((x.split(':') + [feats])[:2] for x in msgs))
        txt = (f'#include "{ns}.pb.hpp"\n#include "harness/codec_impl.hpp"\n#define HV_VISITORS\n#include "{ns}.schema.hpp"\nusing namespace hv;\nstatic const bool rs = (schemas().push_back(&schema_{ns}()), true);\n{body}')
        key = hashlib.sha1(txt.encode()).hexdigest()[:8]
        f = f'{B}/cu/{ns}_{msgs[0].split(":")[0]}_{trait}_{key}.cpp'
        write(f, txt)
        g = self.gen(ns)
        return self.obj(f, flags, order=g)

    def sim(self, prop):
        P = PROPS[prop]
        fm = lambda x: x.replace('{V}', V).replace('{B}', B).replace('{R}', R)
        pinc = fm(P.get('inc', ''))
        san = P.get('san', SAN)
        objs = [self.obj(f'{V}/sim/core.cpp', '-O1'), self.obj(f'{V}/sim/alloc.cpp', P.get('alloc_flags', SAN)), self.obj(f'{V}/sim/main.cpp', '-O0')]
        order = []
        for ns in P.get('gen', []):
            order += self.gen(ns)
        if P.get('wkt'):
            order += self.wkt()
        for s in P.get('harness', []):
            objs.append(self.obj(f'{V}/harness/{s}', P.get('tree_flags', '-O1 -g1 -fsanitize=address') if s == 'tree.cpp' else san))
        for c in P.get('cus', []):
            objs.append(self.cu(*c, flags=san))
        for s in P['scn']:
            if isinstance(s, tuple):
                s, fl = s
            else:
                fl = ''
            objs.append(self.obj(f'{V}/harness/{s}', (san + ' ' + fm(fl)).strip(), inc=INC + ' ' + pinc, order=order))
        for s, fl in P.get('repo_src', []):
            objs.append(self.obj(f'{R}/{s}', san + ' ' + fl, inc=f'{INC} ' + pinc, order=order))
        libs = P.get('libs', '')
        deps = []
        for t in P.get('tools', []):
            deps.append(getattr(self, t)())
        out = f'{B}/sim_{prop}'
        self.n.build(out, 'link', objs, implicit=deps, cxx=CXX, flags=P.get('ldflags', '-fsanitize=address,undefined'), libs=libs)
        return out

    def finish(self):
        write(f'{B}/build.ninja', '\n'.join(self.n.out) + '\n')


def write(f, txt):
    os.makedirs(os.path.dirname(f), exist_ok=True)
    if os.path.exists(f) and open(f).read() == txt:
        return
    open(f, 'w').write(txt)


def build(props):
    os.makedirs(B, exist_ok=True)
    os.makedirs(f'{B}/obj', exist_ok=True)
    b = Builder()
    outs = [b.sim(p) for p in props]
    nf = f'{B}/build_{"_".join(props) if len(props) < 3 else "all"}.ninja'
    write(nf, '\n'.join(b.n.out) + '\n')
    r = subprocess.run(['ninja', '-f', nf, '-C', B, '-k', '1'] + outs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout, outs


def known(prop):
    r = []
    f = f'{V}/KNOWN_FINDINGS.txt'
    if os.path.exists(f):
        for line in open(f):
            if line.startswith('finding|'):
                p = line.rstrip('\n').split('|', 4)
                if p[1] == prop:
                    r.append(p)
    return r


def main():
    a = sys.argv[1:]
    mode = a.pop(0)
    if mode == 'build':
        ok, out, _ = build(a or sorted(PROPS))
        print(out[-6000:] if not ok else out[-300:])
        return 0 if ok else 2
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    seconds = workers = only = replay = None
    prop = None
    while a:
        x = a.pop(0)
        if x == '--thorough': tier = 'thorough'
        elif x == '--quick': tier = 'quick'
        elif x == '--seed': seed = int(a.pop(0))
        elif x == '--seconds': seconds = float(a.pop(0))
        elif x == '--workers': workers = int(a.pop(0))
        elif x == '--only': only = a.pop(0)
        elif x == '--replay': replay = os.path.abspath(a.pop(0))
        else: prop = x
    if replay:
        prop = json.load(open(replay))['property']
    P = PROPS[prop]
    t0 = time.time()
    ok, out, (exe,) = build([prop])
    tb = time.time() - t0
    if not ok:
        print(out[-8000:])
        print(f'ERROR: the {prop} simulator does not build against the current tree')
        return 2
    env = dict(os.environ, **{k: v.format(B=B, V=V, R=R) for k, v in P.get('env', {}).items()})
    if replay:
        return subprocess.run([exe, '--replay', replay, '--verbose'], env=env).returncode
    if seconds is None:
        seconds = P.get('thorough_s', 600) if tier == 'thorough' else P.get('quick_s', 18)
    workers = workers or os.cpu_count() or 8
    ev = f'{B}/ev_{prop}.json'
    if os.path.exists(ev): os.unlink(ev)
    rd = f'{V}/replays'
    os.makedirs(rd, exist_ok=True)
    cmd = [exe, '--prop', prop, '--seed', str(seed), '--seconds', str(seconds), '--workers', str(workers), '--known', f'{V}/KNOWN_FINDINGS.txt', '--evidence', ev, '--replay-dir', rd] + P.get('args', [])
    if only: cmd += ['--only', only]
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    sys.stdout.write(r.stdout)
    hits = dict(re.findall(r'^KNOWN-HIT (\d+) n=(\d+)', r.stdout, re.M))
    rc = r.returncode
    if rc not in (0, 1):
        print(f'ERROR: simulator exited with {rc}')
    kn = known(prop)
    for i, k in enumerate(kn):
        print(f'KNOWN-FINDING: property={prop} {k[4]} [hit {hits.get(str(i), 0)} times in this run]')
    d = json.load(open(ev)) if os.path.exists(ev) else {}
    if rc == 1:
        rp = d.get('replay') or f'{rd}/{prop}.json'
        # replay in a fresh process: the violation must come back exactly
        r2 = subprocess.run([exe, '--replay', rp], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if r2.returncode == 1:
            print(f'replay in a fresh process: reproduced')
            print(f'VIOLATION property={prop} replay={rp}')
        else:
            print(r2.stdout[-2000:])
            print('ERROR: the replay file did not reproduce the violation')
            rc = 2
    if d:
        write_evidence(prop, P, d, tier, seed, rc, time.time() - t0, tb, hits)
    return rc


def write_evidence(prop, P, d, tier, seed, rc, wall, tb, hits):
    cov = {
        'evaluations': d['runs'],
        'distinct_nontrivial': d['distinct_nontrivial'],
        'rule': P['rule'] + ' Distinct runs are counted by the hash of the run\'s event log (2^24-bit filter, so a lower bound).',
        'samples': d['samples'] or [{'note': 'violation found; see replay'}],
        'seeds_per_hour': d['seeds_per_hour'],
        'simulated_time_s': d['sim_time_us'] / 1e6,
        'simulation_steps': d['steps'],
        'choices_made': d['choices'], 'longest_run_choices': d['max_choices_in_run'],
        'distinct_states': d['distinct_states'], 'state_measure': P.get('state', 'hash of the decoded value / output at the end of each step'),
        'faults_injected': d['faults'], 'rare_conditions_reached': d['probes'], 'runs_per_scenario': d['scenarios'],
        'determinism_reexecutions': d['determinism_reexecutions'], 'workers': d['workers'], 'sim_wall_s': d['wall_s'], 'build_s': round(tb, 1),
        'components_real': P['real'], 'components_stub': P['stub'],
        'known_finding_hits': {k: int(v) for k, v in hits.items()},
        'exhaustive': False,
    }
    e = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
         'assumptions': P.get('assume', []), 'wall_s': round(wall, 2), 'violations': 1 if rc == 1 else 0}
    os.makedirs(f'{V}/evidence', exist_ok=True)
    json.dump(e, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main())
