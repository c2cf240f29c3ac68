"""Contracts of compilation and loading (C17): whenever Compile or LoadCompiled returns an error the engine holds no entry
point, and whenever it succeeds the entry points are exactly those of the code just produced by the engine's present
JitCore. Producing the code (JitCore::BuildAndLink, LoadObject) and reading the artifact are callees with contracts that
may fail at any step and release the earlier code. Executing without code is covered by the Execute contracts (c16)."""
import z3
from flat import *
from fbase import *
import importlib
c16 = importlib.import_module('fspecs.c16')

LAYOUT = 'C16'
STR = c16.STR
BIG = c16.BIG
BOOL = c16.BOOL
BOUNDARY = STATUS_BOUNDARY + [
    r'^jitfusion::JitCore::(BuildAndLink|LoadObject|Reset|~JitCore|JitCore)\(', r'^jitfusion::DeserializeArtifact', r'^jitfusion::CheckHostCompatibility', r'^jitfusion::ArtifactHeader::(~?ArtifactHeader)\(', r'std::make_unique<jitfusion::JitCore',
    r'^std::default_delete<jitfusion::JitCore>::operator', r'^llvm::sys::', r'^llvm::StringRef::str', r'^%s(~?basic_string|assign|append|push_back|reserve)\(' % STR, r'^%sbasic_string<.*>\(' % STR, r'to_string\(',
    r'^std::__cxx11::basic_string<.*> std::operator\+', r'^std::vector<.*>::(vector<|vector\(|~vector\(|reserve\(|resize\(|operator=\()', r'::emplace_back<']


def put_vec(X, st, at, b, e):
    X.store(st, simp(at), b)
    X.store(st, simp(at + 8), e)
    X.store(st, simp(at + 16), e)


def block(X, st, name, size, writable=False):
    p = X.fresh(name)
    st.path += [p != 0, z3.ULT(p, BVV(BIG)), z3.ULT(size, BVV(BIG))]
    for _, b, n, _w in st.regions:
        st.path.append(z3.Or(z3.ULE(p + size, b), z3.ULE(b + n, p)))
    st.regions.append((name + str(len(st.regions)), p, simp(size), writable))
    return p


def core_of(X, st):
    g = st.ghost
    return X.load(st, simp(g['@v']['this'] + X.layout[g['@cls'] + '.core_']), 8)


def code_result(X, st, ins, a, n, ptrs, types):
    """the code of n programs is produced, or any step fails; either way earlier code of this core is gone"""
    def good(s):
        X.store(s, simp(a[0]), BVV(0))
        p = block(X, s, 'funcs', n * 8)
        put_vec(X, s, ptrs, p, simp(p + n * 8))
        i = X.fresh('i')
        t = None
        if types is not None:
            t = block(X, s, 'rets', n)
            put_vec(X, s, types, t, simp(t + n))
        s.ghost['@code'] = (p, t, n, a[1])
        s.ghost['@made'] = s.ghost['@made'] + 1

    def bad(s):
        h_status_err(X, s, ins, a)
        for v in [ptrs] + ([types] if types is not None else []):
            b, e = X.fresh('left'), X.fresh('left_end')
            put_vec(X, s, v, b, e)
        s.ghost['@code'] = None
    X.trusted.add('JitCore::BuildAndLink/LoadObject: success delivers one callable entry point (and type) per program; they may fail at any step and leave anything in their outputs')
    return Forks([(TRUE, good), (TRUE, bad)])


def h_build(X, st, ins, a):
    g = st.ghost
    X.oblige(st, 'call', 'the code is produced by the core of this engine', a[1] == core_of(X, st))
    X.oblige(st, 'call', 'the functions of the caller are used', a[4] == g['@v']['registry'])
    nb, ne = X.load(st, simp(a[2]), 8), X.load(st, simp(a[2] + 8), 8)
    if g['@cls'] == 'ExecEngine':
        X.oblige(st, 'call', 'exactly the program of the caller is compiled', z3.And(ne == nb + 8, BOOL('@node' in g), g.get('@node', BVV(0)) == g['@root']))
        n = BVV(1)
    else:
        n = g['@n']
        X.oblige(st, 'call', 'exactly the programs of the caller are compiled', z3.And(g['nodes'] == n, g['names'] == n))
    return code_result(X, st, ins, a, n, a[5], a[6])


def h_load(X, st, ins, a):
    g = st.ghost
    X.oblige(st, 'call', 'the code goes to the core of this engine', a[1] == core_of(X, st))
    X.oblige(st, 'call', 'the artifact was read and found compatible', BOOL(g.get('@compatible')))
    if not g.get('@compatible'):
        raise Stop()
    X.oblige(st, 'call', 'the object code of the artifact is loaded', z3.And(a[2] == g['@obj'][1], a[3] == g['@obj'][0]))
    X.oblige(st, 'call', 'the functions of the caller are used', a[5] == g['@v']['registry'])
    n = g['@n'] if g['@cls'] == 'BatchExecEngine' else BVV(1)
    if g['@cls'] == 'BatchExecEngine':
        X.oblige(st, 'call', 'one symbol per program', g['names'] == n)
    return code_result(X, st, ins, a, n, a[6], None)


def h_deser(X, st, ins, a):
    g = st.ghost
    L = X.layout
    X.oblige(st, 'call', 'the bytes of the caller are read', z3.And(a[1] == g['@v']['size'], a[2] == g['@v']['bytes']))
    hdr, view = a[3], a[4]

    def good(s):
        X.store(s, simp(a[0]), BVV(0))
        n = X.fresh('programs')
        s.path += [n != 0, z3.ULT(n, BVV(1 << 33))]
        if g['@cls'] == 'ExecEngine':
            pass
        t = block(X, s, 'types', n)
        put_vec(X, s, hdr + L['ArtifactHeader.per_entry_ret_types'], t, simp(t + n))
        X.store(s, simp(hdr + L['ArtifactHeader.fp_math_mode']), X.fresh('fp', 8))
        p, m = X.fresh('object'), X.fresh('object_size')
        X.store(s, simp(view), m)
        X.store(s, simp(view + 8), p)
        s.ghost.update({'@read': True, '@obj': (p, m), '@n': n, '@types': t})

    def bad(s):
        h_status_err(X, s, ins, a)
    return Forks([(TRUE, good), (TRUE, bad)])


def h_compat(X, st, ins, a):
    g = st.ghost
    X.oblige(st, 'call', 'the artifact was read', BOOL(g.get('@read')))
    X.oblige(st, 'call', 'only artifacts of this kind of engine are accepted', a[-1] == X.layout['ArtifactMode.' + ('kSingle' if g['@cls'] == 'ExecEngine' else 'kBatch')])

    def good(s):
        X.store(s, simp(a[0]), BVV(0))
        s.ghost['@compatible'] = True
    return Forks([(TRUE, good), (TRUE, lambda s: h_status_err(X, s, ins, a))])


def h_core(X, st, ins, a):
    p = block(X, st, 'core', BVV(X.layout['sizeof JitCore']))
    X.store(st, simp(a[0]), p)
    st.ghost['@cores'] = st.ghost['@cores'] + (p,)


def h_core_del(X, st, ins, a):
    st.ghost['@released'] = st.ghost['@released'] + (simp(a[1]),)


def h_string(X, st, ins, a):
    X.store(st, simp(a[0]), X.fresh('text'))
    X.store(st, simp(a[0] + 8), X.fresh('text_len'))


def h_list(X, st, ins, a):
    """vector(initializer_list)"""
    n = conc(simp(a[2]))
    size = 8 if 'ExecNode*' in ins['dn'] else 32
    if size == 8 and n == 1:
        st.ghost['@node'] = X.load(st, simp(a[1]), 8)
    b = X.fresh('vec')
    put_vec(X, st, a[0], b, simp(b + a[2] * size))


def h_vec0(X, st, ins, a):
    put_vec(X, st, a[0], BVV(0), BVV(0))


def h_vecmove(X, st, ins, a):
    for o in (0, 8, 16):
        X.store(st, simp(a[0] + o), X.load(st, simp(a[1] + o), 8))
    put_vec(X, st, a[1], BVV(0), BVV(0))
    return a[0]


def h_add(X, st, ins, a):
    g = st.ghost
    if 'ExecNode' in ins['dn']:
        p = X.load(st, simp(a[1]), 8)
        i = g['nodes']
        X.oblige(st, 'call', 'the next program of the caller is added', z3.And(z3.ULT(i, g['@n']), p == X.hread(st, simp(g['@roots'] + i * 8), 8, 'roots')))
        g['nodes'] = i + 1
    else:
        g['names'] = g['names'] + 1
    return BVV(0x6f0000000000)


def h_cpu(X, st, ins, a):
    return [X.fresh('cpu'), X.fresh('cpu_len')]


def spec(cls, load):
    def f(X):
        L = X.layout

        def setup(X, st):
            ids = [x['id'] for x in X.fn['args']]
            names = ['result_status', 'this'] + (['size', 'bytes', 'registry', 'options'] if load else ['program', 'registry'])
            v = {n: X.fresh(n) for n in names}
            for i, n in zip(ids, names):
                st.env[i] = v[n]
            core = X.fresh('core')
            reg = [('result_status', v['result_status'], BVV(8), True), ('this', v['this'], BVV(L['sizeof ' + cls]), True), ('core', core, BVV(L['sizeof JitCore']), False)]
            n = X.fresh('n')
            g = {'@v': v, '@cls': cls, '@code': None, '@made': 0, '@cores': (core,), '@released': (), 'names': BVV(0), 'nodes': BVV(0)}
            if not load and cls == 'ExecEngine':
                reg.append(('program', v['program'], BVV(8), False))
            if not load and cls == 'BatchExecEngine':
                roots = X.fresh('roots')
                reg += [('programs', v['program'], BVV(24), False), ('roots', roots, simp(n * 8), False)]
                g.update({'@roots': roots, '@n': n})
                st.path.append(z3.ULT(n, BVV(1 << 40)))
            for r in reg:
                st.path.append(z3.And(r[1] != 0, z3.ULT(r[1], BVV(BIG)), z3.ULT(r[2], BVV(BIG)), r[1] & 7 == 0))
            for i, r in enumerate(reg):
                for q in reg[:i]:
                    st.path.append(z3.Or(z3.ULE(r[1] + r[2], q[1]), z3.ULE(q[1] + q[2], r[1])))
            st.regions += reg
            st.path.append(X.hread(st, simp(v['this'] + L[cls + '.core_']), 8, 'this') == core)
            if cls == 'ExecEngine':
                if not load:
                    g['@root'] = X.hread(st, v['program'], 8, 'program')
            else:
                # the engine holds any number of earlier programs
                for m, w in (('.entry_func_ptrs_', 8), ('.ret_types_', 1)):
                    o = simp(v['this'] + L[cls + m])
                    b, e = X.fresh('old'), X.fresh('olds')
                    st.path += [X.hread(st, o, 8, 'this') == b, X.hread(st, simp(o + 8), 8, 'this') == b + e * w, z3.ULT(e, BVV(1 << 40)), z3.ULT(b, BVV(BIG))]
                if not load:
                    st.path += [X.hread(st, v['program'], 8, 'programs') == roots, X.hread(st, simp(v['program'] + 8), 8, 'programs') == roots + n * 8]
            st.ghost.update(g)
            X.bounds = [n]
            X.strides = [8]
            X.loop_events = {'error-status'}
        X.setup = setup

        def cands(X, fr):
            out = []
            n = fr['state'].ghost.get('@n')
            if n is not None:
                for k, v in fr['init'].items():
                    if isinstance(v, z3.BitVecRef) and v.size() == 64:
                        out.append(('%s within the programs' % k, lambda x, k=k: z3.ULE(x[k], n)))
                        for q in ('ghost:names', 'ghost:nodes'):
                            if q in fr['init'] and k != q:
                                out.append(('%s == %s' % (k, q), lambda x, k=k, q=q: x[k] == x[q]))
            return out
        X.extra_cands = cands

        def ret(X, st, _):
            g, v = st.ghost, st.ghost['@v']
            ok = status_ok(X, st, v['result_status'])
            rd = lambda m, o=0, k=8: X.load(st, simp(v['this'] + L[cls + m] + o), k)
            core = rd('.core_')
            X.oblige(st, 'post', 'the engine keeps a core that was not released', z3.And(core != 0, *[core != r for r in g['@released']]))
            code = g['@code']
            if cls == 'ExecEngine':
                entry, rt = rd('.entry_func_ptr_'), rd('.ret_type_', 0, 1)
                X.oblige(st, 'post', 'a failed engine has no entry point', z3.Implies(z3.Not(ok), z3.And(entry == 0, rt == L['ValueType.kUnknown'])))
                if code is None:
                    X.oblige(st, 'post', 'success only with new code', z3.Not(ok))
                else:
                    p, t, n, c = code
                    t = g['@types'] if load else t
                    X.oblige(st, 'post', 'the entry point and the type are those of the new code', z3.Implies(ok, z3.And(entry == X.hread(st, p, 8), rt == X.hread(st, t, 1), core == c)))
            else:
                b, e, tb, te = rd('.entry_func_ptrs_'), rd('.entry_func_ptrs_', 8), rd('.ret_types_'), rd('.ret_types_', 8)
                X.oblige(st, 'post', 'a failed engine has no entry points', z3.Implies(z3.Not(ok), z3.And(b == e, tb == te)))
                if code is None:
                    X.oblige(st, 'post', 'success only with new code', z3.Not(ok))
                else:
                    p, t, n, c = code
                    t = g['@types'] if load else t
                    X.oblige(st, 'post', 'the entry points and the types are those of the new code', z3.Implies(ok, z3.And(b == p, e == p + n * 8, tb == t, te == t + n, core == c)))
        X.on_ret = ret
    return f


HANDLERS = [(r'^jitfusion::JitCore::BuildAndLink', h_build), (r'^jitfusion::JitCore::LoadObject', h_load), (r'^jitfusion::DeserializeArtifact', h_deser), (r'^jitfusion::CheckHostCompatibility', h_compat),
            (r'std::make_unique<jitfusion::JitCore', h_core), (r'^std::default_delete<jitfusion::JitCore>::operator', h_core_del), (r'^jitfusion::ArtifactHeader::', h_nop), (r'^llvm::sys::getHostCPUName', h_cpu),
            (r'^llvm::(sys::getProcessTriple|StringRef::str)', h_string), (r'to_string\(', h_string), (r'std::operator\+', h_string), (r'::basic_string\(', h_string), (r'::~basic_string\(', h_nop),
            (r'^std::vector<.*>::vector\(std::initializer_list', h_list), (r'^std::vector<.*>::vector\(\)', h_vec0), (r'^std::vector<.*>::operator=\(std::vector<[^&]*&&\)', h_vecmove), (r'^std::vector<.*>::~vector\(', h_nop),
            (r'^std::vector<.*>::reserve\(', h_nop), (r'::emplace_back<', h_add)]
E, B = 'src/exec_engine.cc', 'src/batch_exec_engine.cc'
UNITS = []
for cls, f in (('ExecEngine', E), ('BatchExecEngine', B)):
    for m in ('Compile', 'LoadCompiled'):
        UNITS.append({'name': cls + '::' + m, 'file': f, 'rx': r'^jitfusion::%s::%s\(' % (cls, m), 'handlers': HANDLERS, 'spec': spec(cls, m == 'LoadCompiled')})
# executing without code reports an error (their own contracts, proved under C16 as well)
UNITS += [dict(u, boundary=c16.BOUNDARY) for u in c16.UNITS if 'Execute' in u['name']]
