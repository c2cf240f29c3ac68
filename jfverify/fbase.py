"""Contracts of class member functions (flat.py): common callees, symbol lookup, units of work, native harnesses."""
import hashlib, importlib, json, os, re, subprocess, time, traceback
import z3
import build
from flat import *

NM = '/usr/lib/llvm-19/bin/llvm-nm'
if not os.path.exists(NM):
    NM = 'llvm-nm-18'


def layout(prop, extra=()):
    """member offsets from the current headers"""
    src = os.path.join(build.HERE, 'layout.cpp')
    hs = build.headers() + [os.path.join(build.REPO, 'athena', f) for f in sorted(os.listdir(os.path.join(build.REPO, 'athena'))) if f.endswith('.h')] + [os.path.join(build.REPO, 'src/compiled_artifact.cc')]
    h = hashlib.sha256((build.fhash(src, *hs) + prop + ' '.join(extra)).encode()).hexdigest()[:16]
    out = os.path.join(build.BUILD, 'layout.%s.%s.json' % (prop, h))
    if not os.path.exists(out):
        exe = out + '.%d' % os.getpid()
        build.sh([build.CLANG, '-std=c++17', '-w', '-fno-access-control', '-DL_' + prop, src, '-o', exe, '-I' + build.REPO, '-I' + build.REPO + '/athena'] + build.include_flags())
        t = build.sh([exe])
        json.loads(t)
        open(out + '.tmp%d' % os.getpid(), 'w').write(t)
        os.rename(out + '.tmp%d' % os.getpid(), out)
        os.unlink(exe)
    return json.load(open(out))


def bitcode(rels):
    os.makedirs(build.BUILD + '/obj', exist_ok=True)
    hh = build.fhash(*build.headers())
    if any(r.startswith('athena/') for r in rels):
        d = os.path.join(build.REPO, 'athena')
        hh += build.fhash(*[os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.h')])
    return {r: build.compile_bc(os.path.join(build.HERE, r[1:]) if r.startswith('@') else os.path.join(build.REPO, r), hh, ('-I' + build.REPO + '/athena',) if r.startswith('athena/') else ()) for r in rels}


def symbols(bc):
    out = []
    ms = subprocess.run([NM, '--defined-only', bc], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
    ds = subprocess.run([NM, '--defined-only', '-C', bc], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
    for m, d in zip(ms.splitlines(), ds.splitlines()):
        f = m.split()
        if len(f) >= 2 and f[-2] in 'tTwW':
            k = d.index(' ' + f[-2] + ' ')
            out.append((f[-1], d[k + 3:]))
    return out


def extract(bc, syms, boundary, tag):
    base = os.path.join(build.BUILD, 'fir.%d.%s' % (os.getpid(), tag))
    open(base + '.keep', 'w').write('\n'.join(syms) + '\n')
    open(base + '.bnd', 'w').write('\n'.join(boundary) + '\n')
    build.sh([build.build_irdump(), bc, base + '.json', base + '.keep', base + '.bnd'])
    mod = json.load(open(base + '.json'))
    for x in ('.json', '.keep', '.bnd'):
        os.unlink(base + x)
    return mod


# ---------------------------------------------------------------- common callees
def h_nop(X, st, ins, a):
    return BVV(0, bits(ins['t'])) if 'id' in ins else None


def h_throw(X, st, ins, a):
    """allocation size limits of the standard library; memory exhaustion is outside the contracts"""
    X.trusted.add('std::__throw_length_error / bad_alloc end the path (memory exhaustion is not modelled)')
    raise Stop()


def h_range(X, st, ins, a):
    X.oblige(st, 'call', 'no out-of-range exception', FALSE)
    raise Stop()


def fresh_region(X, st, name, size, align=16):
    """a fresh heap block of the given size, away from every region known so far"""
    X.trusted.add('malloc/operator new return 16-byte aligned memory that overlaps no live object')
    p = X.fresh(name)
    n = size if isinstance(size, z3.ExprRef) else BVV(size)
    st.path.append(z3.And(p != 0, p & (align - 1) == 0, z3.ULT(p, BVV(LIMIT)), z3.ULE(n, BVV(LIMIT)), z3.ULE(p + n, BVV(LIMIT))))
    for _, b, s, _w in st.regions:
        st.path.append(z3.Or(z3.ULE(p + n, b), z3.ULE(b + s, p)))
    for b, s in st.ghost.get('avoid', ()):
        st.path.append(z3.Or(z3.ULE(p + n, b), z3.ULE(b + s, p)))
    return p


def h_new(X, st, ins, a):
    p = fresh_region(X, st, 'new', a[0])
    st.regions.append(('new%d' % len(st.regions), p, a[0], True))
    return p


STATUS = {}


def h_status_err(X, st, ins, a):
    """Status::RuntimeError etc: *result is a non-ok status"""
    L = X.layout
    p = fresh_region(X, st, 'status', L['sizeof Status::State'])
    st.regions.append(('status%d' % len(st.regions), p, BVV(L['sizeof Status::State']), True))
    code = X.fresh('code', 8)
    st.path.append(code != 0)
    X.store(st, simp(p + L['Status::State.code_']), code)
    X.store(st, a[0], p)
    st.events.append(('error-status', ins['dn']))
    X.trusted.add('Status::RuntimeError/InvalidArgument/ParseError build a status that is not ok')


STATUS_HANDLERS = [
    (r'^jitfusion::Status jitfusion::Status::(RuntimeError|InvalidArgument|ParseError|NotImplemented)<', h_status_err),
    (r'^std::default_delete<jitfusion::Status::State>::operator', h_nop),
    (r'^std::__throw_(length_error|bad_alloc|logic_error)', h_throw),
    (r'^std::__throw_out_of_range', h_range),
]
STATUS_BOUNDARY = ['jitfusion::Status::(RuntimeError|InvalidArgument|ParseError|NotImplemented)<', '^std::default_delete<jitfusion::Status::State>::operator']


def status_ok(X, st, addr):
    """condition: the Status object at addr is ok"""
    p = X.load(st, addr, 8)
    c = conc(p)
    if c == 0:
        return TRUE
    for name, b, s, w in st.regions:
        if name.startswith('status') and z3.eq(simp(b), simp(p)):
            return X.hread(st, simp(p + X.layout['Status::State.code_']), 1) == 0
    code = z3.Select(st.heap.base, simp(p + X.layout['Status::State.code_']))
    return z3.Or(p == 0, code == 0)


# ---------------------------------------------------------------- units
HINTS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fhints.json')


def hints():
    try:
        return json.load(open(HINTS))
    except OSError:
        return {}


def unit(shared, job, cfg):
    """job: dict(spec, name, fn, mod, layout); proves one function against its contract"""
    t0 = time.time()
    m = importlib.import_module('fspecs.' + job['spec'])
    u = next(x for x in m.UNITS if x['name'] == job['name'])
    out = {'unit': job['name'], 'mode': 'proved', 'spec': job['spec'], 'obligations': 0, 'discharged': 0, 'failed': [], 'flat': True}
    X = None
    try:
        X = Exec(job['fn'], job['mod'], u.get('handlers', []) + STATUS_HANDLERS, cfg['timeout'], min(cfg['deadline'], time.time() + u.get('limit', 800)))
        X.layout = job['layout']
        u['spec'](X)
        # which invariant candidates to leave out: found by an earlier search on the very same code (only saves time)
        key = job['spec'] + ' ' + job['name']
        sig = hashlib.sha256(json.dumps(job['fn'], sort_keys=True).encode()).hexdigest()
        h = hints().get(key)
        if h and h['sig'] == sig and not cfg.get('learn'):
            X.dead = {tuple(k) for k in h['dead']}
            X.cuts = set(h['cuts'])
            X.modified = {k: {'cells': {tuple(c) for c in v['cells']}, 'ghost': set(v['ghost']), 'regions': set(v['regions'])} for k, v in h['modified'].items()}
        X.run()
        if cfg.get('learn'):
            out['hint'] = {'sig': sig, 'dead': sorted(X.dead), 'cuts': sorted(X.cuts),
                           'modified': {k: {a: sorted(b) for a, b in v.items()} for k, v in X.modified.items()}}
        failed, ok = X.prove()
        out['obligations'] = len(X.obs) + X.loop_obs
        out['discharged'] = ok + X.loop_obs
        out['failed'] = [(k, n, r) for k, n, r, _ in failed]
        out['status'] = 'refuted' if any(r == 'refuted' for _, _, r, _ in failed) else 'unknown' if failed else 'proved'
        if not failed and X.paths == 0:
            out['status'], out['failed'] = 'unknown', [('vacuity', 'no path reaches a return', 'unknown')]
        if failed:
            out['note'] = 'counter-model of the first failed obligation: ' + json.dumps(failed[0][3])[:1500]
    except Unsupported as e:
        out['status'], out['note'] = 'unsupported', str(e)
    except Exception:
        out['status'], out['note'] = 'error', traceback.format_exc()[-2500:]
    if X is not None:
        out['queries'], out['solver_s'] = X.queries, round(X.solver_s, 2)
        out['trusted'] = sorted(X.trusted)
        out['invariants'] = X.invariants
    out['wall'] = round(time.time() - t0, 2)
    return out


def jobs(spec):
    """[(job, error)] for every function the spec module has a contract for"""
    m = importlib.import_module('fspecs.' + spec)
    rels = sorted({u['file'] for u in m.UNITS})
    bc = bitcode(rels)
    L = layout(m.LAYOUT)
    out = []
    groups = {}
    for u in m.UNITS:
        groups.setdefault((u['file'], tuple(u.get('boundary', m.BOUNDARY))), []).append(u)
    for n, ((rel, bnd), us) in enumerate(groups.items()):
        sy = symbols(bc[rel])
        want = {}
        for u in us:
            f = [s for s, d in sy if re.search(u['rx'], d)]
            if not f:
                out.append({'spec': spec, 'name': u['name'], 'missing': True})
            else:
                want[u['name']] = f[0]
        if not want:
            continue
        for k, (nm, s) in enumerate(want.items()):
            mod = extract(bc[rel], [s], list(bnd), '%s.%d.%d' % (spec, n, k))
            fns = {f['name']: f for f in mod['functions']}
            out.append({'spec': spec, 'name': nm, 'fn': fns[s], 'mod': {'globals': mod['globals']}, 'layout': L, 'sym': s})
    return out


def missing(shared, name, spec):
    return {'unit': name, 'mode': 'proved', 'spec': spec, 'obligations': 1, 'discharged': 0, 'flat': True, 'status': 'unsupported',
            'failed': [('extraction', 'the function under contract exists', 'unknown')], 'note': 'function not found in /repo'}


# ---------------------------------------------------------------- native harness
def harness(name, so, extra_src=()):
    src = os.path.join(build.HERE, 'harness', name + '.cpp')
    d = os.path.join(build.REPO, 'athena')
    hh = build.fhash(src, *[os.path.join(build.REPO, s) for s in extra_src]) + build.fhash(*build.headers()) + \
        build.fhash(*[os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.h')]) + os.path.basename(so)
    out = os.path.join(build.BUILD, 'h_%s.%s' % (name, hashlib.sha256(hh.encode()).hexdigest()[:16]))
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        head = open(src).readline()
        flags = head.split('JF_FLAGS:')[1].split() if 'JF_FLAGS:' in head else []
        solo = '-DJF_SOLO' in flags
        build.sh([build.CLANG, '-std=c++17', '-O1', '-w', '-fno-access-control', '-fno-rtti', src] + flags + [os.path.join(build.REPO, s) for s in extra_src] +
                 ['-o', tmp, '-I' + build.REPO + '/athena'] + build.include_flags() + ([] if solo else [so, '-Wl,-rpath,' + os.path.dirname(so)] +
                 build.llvm_flags('--ldflags') + build.llvm_flags('--libs')) + ['-lpthread'])
        os.rename(tmp, out)
    return out


def harness_unit(shared, name, so, extra_src, cfg, what):
    """bounded: the compiled code is run on generated histories and compared with a reference"""
    t0 = time.time()
    out = {'unit': 'histories ' + name, 'mode': 'bounded', 'spec': name, 'obligations': 0, 'discharged': 0, 'failed': [], 'flat': True, 'sample': what}
    try:
        exe = harness(name, so, extra_src)
        sec = cfg.get('harness_s', 8)
        p = subprocess.run([exe, 'run', str(cfg['seed']), str(sec)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=sec * 6 + 120)
        lines = p.stdout.splitlines()
        last = [l for l in lines if l.startswith('CASE ')]
        done = [l for l in lines if l.startswith('DONE ')]
        if p.returncode == 0 and done:
            out['status'] = 'bounded-ok'
            out['executions'] = int(done[-1].split()[1])
        else:
            fail = [l for l in lines if l.startswith('FAIL ')]
            case = fail[-1][5:].split(' :: ')[0] if fail else last[-1][5:] if last else None
            msg = fail[-1] if fail else 'the process died (exit status %d) while running the case' % p.returncode
            if case is None:
                out['status'], out['note'] = 'error', 'harness: rc %d %s %s' % (p.returncode, p.stdout[-500:], p.stderr[-1500:])
            else:
                out['status'] = 'refuted'
                out['failed'] = [('bounded', 'generated histories', 'refuted')]
                out['found'] = {'args': case, 'got': msg, 'harness': name, 'case': case, 'extra_src': list(extra_src)}
    except subprocess.TimeoutExpired as e:
        t = (e.stdout or b'')
        t = t.decode() if isinstance(t, bytes) else t
        last = [l for l in t.splitlines() if l.startswith('CASE ')]
        out['status'] = 'refuted' if last else 'error'
        if last:
            out['failed'] = [('bounded', 'generated histories', 'refuted')]
            out['found'] = {'args': last[-1][5:], 'got': 'does not terminate', 'harness': name, 'case': last[-1][5:], 'extra_src': list(extra_src)}
        else:
            out['note'] = 'harness timed out'
    out['wall'] = round(time.time() - t0, 2)
    return out


def replay(d, b):
    """re-runs one case of a harness; True when it still fails"""
    f = d['found']
    exe = harness(f['harness'], b['so'], f.get('extra_src', ()))
    p = subprocess.run([exe, 'case', f['case']], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    print(p.stdout[-3000:], p.stderr[-500:])
    return p.returncode != 0
