"""Contracts of the arena (C14).

Invariant of an Arena between calls (I):
  chunks_ is a vector of n chunks; with n = 0 nothing is available; with n > 0 the last chunk (buf, size) contains
  avail_buf_, and avail_bytes_ is exactly what is left of it behind avail_buf_.
Everything handed out since the last reset lies in an earlier chunk or in the last one before avail_buf_ (frontier).
Allocate preserves I, returns a block behind the old frontier (or in a chunk fresh from malloc) and moves the frontier
behind the block: by induction over the calls no two blocks overlap. Reset re-establishes I with the frontier at the
start of the first chunk after every other chunk was freed once."""
import z3
from flat import *
from fbase import *

LAYOUT = 'C14'
F = 'src/arena.cc'
BOUNDARY = STATUS_BOUNDARY + ['^jf_[cd]tor', 'Arena::Allocate\\(unsigned long', '::_M_realloc_(insert|append)', '::_M_erase\\(', 'Arena::RunFinalizers\\(', 'std::__throw_']


def h_malloc(X, st, ins, a):
    def bad(s):
        return BVV(0)

    def good(s):
        p = fresh_region(X, s, 'chunk', a[0])
        s.events.append(('malloc', p, a[0]))
        return p
    return Forks([(TRUE, good), (TRUE, bad)])


def h_free(X, st, ins, a):
    """only used where the contract has a ghost cursor over the chunks to be freed"""
    k = st.ghost.get('free_next')
    if k is None:
        X.oblige(st, 'call', 'nothing is freed here', FALSE)
        return
    g = st.ghost
    X.oblige(st, 'call', 'the freed block is the next chunk not yet freed', z3.And(z3.ULT(k, g['n']), a[0] == chunk(X, st, k, 'buf_')))
    g['free_next'] = k + 1


def chunk(X, st, k, f):
    L = X.layout
    return X.hread(st, simp(st.ghost['b'] + k * L['sizeof Arena::Chunk'] + L['Arena::Chunk.' + f]), 8)


def h_realloc(X, st, ins, a):
    """std::vector<Chunk>: grow and append one element"""
    L = X.layout
    S = L['sizeof Arena::Chunk']
    vec, rest = a[0], a[1:]
    if 'insert' in ins['dn'].split('(')[0]:
        rest = rest[1:]
    X.trusted.add('std::vector growth keeps the existing elements and appends the new one')
    b, e = X.load(st, vec, 8), X.load(st, simp(vec + 8), 8)
    if len(rest) == 2:
        v = [X.load(st, rest[0], 8), X.load(st, rest[1], 8)]
        order = ['buf_', 'size_']
    else:
        v = [X.load(st, simp(rest[0] + L['Arena::Chunk.' + f]), 8) for f in ('buf_', 'size_')]
        order = ['buf_', 'size_']
    n = st.ghost['n']
    cap = X.fresh('newcap')
    st.path.append(z3.And(z3.UGT(cap, n), z3.ULT(cap, BVV(1 << 40))))
    nb = fresh_region(X, st, 'newbuf', cap * S)
    X.havoc(st, nb, cap * S, 'moved', 'chunks2')
    old = st.regions[[r[0] for r in st.regions].index('chunks')]
    st.regions.append(('chunks2', nb, simp(cap * S), True))
    h = st.heap.log[-1][3]
    # element 0 is kept
    for f in ('buf_', 'size_'):
        o = L['Arena::Chunk.' + f]
        st.path.append(z3.Implies(n != 0, X.sel(h, simp(nb + o), 8) == st.ghost['first'][f]))
    for f, x in zip(order, v):
        X.store(st, simp(nb + n * S + L['Arena::Chunk.' + f]), x)
    X.store(st, vec, nb)
    X.store(st, simp(vec + 8), simp(nb + (n + 1) * S))
    X.store(st, simp(vec + 16), simp(nb + cap * S))
    st.regions.remove(old)
    return None


def h_realloc_fin(X, st, ins, a):
    """std::vector<Finalizer>: grow and append one element"""
    L, g = X.layout, st.ghost
    S = L['sizeof Arena::Finalizer']
    vec, rest = a[0], a[1:]
    if 'insert' in ins['dn'].split('(')[0]:
        rest = rest[1:]
    X.trusted.add('std::vector growth keeps the existing elements and appends the new one')
    v = [X.load(st, r, 8) for r in rest]
    cap = X.fresh('newcap')
    st.path.append(z3.And(z3.UGT(cap, g['n']), z3.ULT(cap, BVV(1 << 40))))
    nb = fresh_region(X, st, 'newbuf', cap * S)
    st.regions.append(('finalizers2', nb, simp(cap * S), True))
    X.havoc(st, nb, cap * S, 'moved', 'finalizers2')
    for f, x in zip(('obj', 'fn'), v):
        X.store(st, simp(nb + g['n'] * S + L['Arena::Finalizer.' + f]), x)
    X.store(st, vec, nb)
    X.store(st, simp(vec + 8), simp(nb + (g['n'] + 1) * S))
    X.store(st, simp(vec + 16), simp(nb + cap * S))
    st.events.append(('grown', nb))
    return None


def h_erase(X, st, ins, a):
    """std::vector<Chunk>::erase(first, end())"""
    vec, f, l = a
    e = X.load(st, simp(vec + 8), 8)
    b = X.load(st, vec, 8)
    X.oblige(st, 'call', 'erase up to the end of the vector', z3.And(l == e, z3.ULE(f, l), z3.UGE(f, b)))
    X.trusted.add('std::vector::erase(first, end()) drops exactly those elements')
    X.store(st, simp(vec + 8), f)
    return f


def common(X, st):
    L = X.layout
    this = X.fresh('this')
    A = L['sizeof Arena']
    st.path += [this != 0, z3.ULT(this, BVV(LIMIT)), this & 7 == 0]
    st.regions.append(('this', this, BVV(A), True))
    at = lambda f: X.hread(st, simp(this + L['Arena.' + f]), 8)
    ck = simp(this + L['Arena.chunks_'])
    S = L['sizeof Arena::Chunk']
    n = X.fresh('n')
    b, e, c = [X.hread(st, simp(ck + k), 8) for k in (0, 8, 16)]
    st.path += [z3.ULT(n, BVV(1 << 32)), e == b + n * S, z3.ULE(b, BVV(LIMIT)), z3.ULE(e, c), z3.ULE(c, BVV(LIMIT)), z3.ULE(b, e), z3.Implies(n != 0, b != 0)]
    st.path += [z3.Or(z3.ULE(c, this), z3.ULE(this + A, b)), (c - b) & (S - 1) == 0]
    st.regions.append(('chunks', b, simp(c - b), True))
    lb, ls = [X.hread(st, simp(e - S + L['Arena::Chunk.' + f]), 8) for f in ('buf_', 'size_')]
    f0 = {f: X.hread(st, simp(b + L['Arena::Chunk.' + f]), 8) for f in ('buf_', 'size_')}
    ab, av, tot, mn = at('avail_buf_'), at('avail_bytes_'), at('total_bytes_'), at('min_chunk_size_')
    # the invariant I
    st.path.append(z3.Implies(n == 0, av == 0))
    st.path.append(z3.Implies(n != 0, z3.And(lb != 0, z3.ULT(lb, BVV(LIMIT)), z3.ULT(ls, BVV(LIMIT)), z3.ULT(lb + ls, BVV(LIMIT)), z3.ULE(lb, ab),
                                             z3.ULE(ab, lb + ls), av == lb + ls - ab)))
    st.path.append(z3.ULT(mn, BVV(LIMIT)))
    # the last chunk is a live block of its own
    st.ghost.update(this=this, n=n, b=b, e=e, lb=lb, ls=ls, ab=ab, av=av, tot=tot, mn=mn, ck=ck, first=f0, avoid=((lb, ls),))
    st.path.append(z3.Implies(n != 0, z3.And(z3.Or(z3.ULE(lb + ls, this), z3.ULE(this + A, lb)), z3.Or(z3.ULE(lb + ls, b), z3.ULE(c, lb)))))
    return this


def fields(X, st):
    L, this = X.layout, st.ghost['this']
    g = lambda f: X.hread(st, simp(this + L['Arena.' + f]), 8)
    ck = st.ghost['ck']
    b, e = X.hread(st, ck, 8), X.hread(st, simp(ck + 8), 8)
    return g('avail_buf_'), g('avail_bytes_'), g('total_bytes_'), g('min_chunk_size_'), b, e


def spec_allocate(X):
    def setup(X, st):
        this = common(X, st)
        size, al = X.fresh('size'), X.fresh('alignment')
        for a, v in zip(X.fn['args'], (this, size, al)):
            st.env[a['id']] = v
        # documented preconditions: a power of two; sizes far below SIZE_MAX
        st.path += [al != 0, al & (al - 1) == 0, z3.ULT(al, BVV(1 << 40)), z3.ULT(size, BVV(LIMIT))]
        st.ghost.update(size=size, al=al)
    X.setup = setup

    def ret(X, st, v):
        g = st.ghost
        L = X.layout
        S = L['sizeof Arena::Chunk']
        ab, av, tot, mn, b, e = fields(X, st)
        size, al = g['size'], g['al']
        same = z3.And(ab == g['ab'], av == g['av'], tot == g['tot'], b == g['b'], e == g['e'])
        X.oblige(st, 'post', 'min_chunk_size_ is unchanged', mn == g['mn'])
        X.oblige(st, 'post', 'an empty request returns null and changes nothing', z3.Implies(size == 0, z3.And(v == 0, same)))
        mal = [x for x in st.events if x[0] == 'malloc']
        X.oblige(st, 'post', 'a non-empty request fails only when malloc does', z3.Implies(z3.And(size != 0, v == 0), BOOL(any(x[0] == 'error-status' for x in st.events))))
        X.oblige(st, 'post', 'a failed request changes nothing', z3.Implies(v == 0, same))
        X.oblige(st, 'post', 'the block has the requested alignment', z3.Implies(v != 0, v & (al - 1) == 0))
        if mal:
            _, p, s = mal[-1]
            X.oblige(st, 'post', 'at most one chunk is requested', BOOL(len(mal) == 1))
            if z3.is_bv_value(simp(v)) and conc(v) == 0:
                return
            lb, ls = [X.hread(st, simp(e - S + L['Arena::Chunk.' + f]), 8) for f in ('buf_', 'size_')]
            X.oblige(st, 'post', 'the block lies inside the new chunk', z3.And(z3.UGE(v, p), z3.ULE(size, s), z3.ULE(v - p, s - size)))
            X.oblige(st, 'post', 'the new chunk is recorded for release', z3.And(e - b == (g['n'] + 1) * S, lb == p, ls == s))
            X.oblige(st, 'post', 'the frontier is behind the block', z3.UGE(ab, v + size))
            X.oblige(st, 'post', 'what is left of the chunk is accounted exactly', z3.And(z3.UGE(ab, p), z3.ULE(ab, p + s), av == p + s - ab))
            X.oblige(st, 'post', 'total_bytes_ grows by the chunk', tot == g['tot'] + s)
            for f in ('buf_', 'size_'):
                X.oblige(st, 'post', 'the first chunk stays recorded', z3.Implies(g['n'] != 0, X.hread(st, simp(b + L['Arena::Chunk.' + f]), 8) == g['first'][f]))
        else:
            nz = v != 0
            X.oblige(st, 'post', 'the block lies behind the frontier', z3.Implies(nz, z3.And(g['n'] != 0, z3.UGE(v, g['ab']))))
            X.oblige(st, 'post', 'the block lies inside the chunk', z3.Implies(nz, z3.And(z3.ULE(size, g['av']), z3.ULE(v - g['ab'], g['av'] - size))))
            X.oblige(st, 'post', 'the frontier is behind the block', z3.Implies(nz, z3.UGE(ab, v + size)))
            X.oblige(st, 'post', 'the frontier stays inside the chunk', z3.Implies(nz, z3.ULE(ab, g['lb'] + g['ls'])))
            X.oblige(st, 'post', 'what is left of the chunk is accounted exactly', z3.Implies(nz, av == g['lb'] + g['ls'] - ab))
            X.oblige(st, 'post', 'no chunk is added or dropped', z3.And(tot == g['tot'], b == g['b'], e == g['e']))
    X.on_ret = ret


def BOOL(x):
    return TRUE if x else FALSE


def h_runfin(X, st, ins, a):
    """contract of RunFinalizers, proved below"""
    st.events.append(('finalizers', a[0], st.ghost.get('free_next')))


def cursor_cands(X, fr):
    """the loop cursor is where the ghost count of freed chunks says, possibly only after the first round"""
    out = []
    S = X.layout['sizeof Arena::Chunk']
    b = fr['ghost0']['b']
    names = [k for k in fr['init'] if isinstance(fr['init'][k], z3.BitVecRef)]
    small = [k for k in names if fr['init'][k].size() < 32]
    if 'ghost:free_next' not in names:
        return out
    g = 'ghost:free_next'
    for k in names:
        if k == g or fr['init'][k].size() != 64:
            continue
        for nm, rel in (('pointer', lambda x, k=k: x[k] == b + x[g] * S), ('index', lambda x, k=k: x[k] == x[g]),
                        ('pointer to last', lambda x, k=k: x[k] == b + x[g] * S - S), ('start', lambda x, k=k: x[k] == fr['init'][k])):
            out.append(('%s is the %s' % (k, nm), rel))
            for f in small:
                out.append(('%s clear: %s is the %s' % (f, k, nm), lambda x, rel=rel, f=f: z3.Or(x[f] != 0, rel(x))))
                out.append(('%s set: %s is the %s' % (f, k, nm), lambda x, rel=rel, f=f: z3.Or(x[f] == 0, rel(x))))
    for f in small:
        out.append(('%s set: nothing freed' % f, lambda x, f=f: z3.Or(x[f] == 0, x[g] == fr['init'][g])))
    out.append(('freed <= n', lambda x: z3.ULE(x[g], z3.If(fr['ghost0']['n'] == 0, fr['init'][g], fr['ghost0']['n']))))
    return out


def spec_reset(X):
    def setup(X, st):
        this = common(X, st)
        st.env[X.fn['args'][0]['id']] = this
        st.ghost['free_next'] = BVV(1)
        X.bounds = [st.ghost['b'], st.ghost['e']]
    X.setup = setup
    X.extra_cands = cursor_cands

    def ret(X, st, v):
        g = st.ghost
        L = X.layout
        S = L['sizeof Arena::Chunk']
        ab, av, tot, mn, b, e = fields(X, st)
        n = g['n']
        fin = [x for x in st.events if x[0] == 'finalizers']
        X.oblige(st, 'post', 'an arena without chunks is unchanged', z3.Implies(n == 0, z3.And(ab == g['ab'], av == g['av'], tot == g['tot'], b == g['b'], e == g['e'])))
        X.oblige(st, 'post', 'finalizers run once, before any chunk is freed', z3.Implies(n != 0, BOOL(len(fin) == 1 and fin and z3.eq(fin[0][2], BVV(1)))))
        X.oblige(st, 'post', 'every chunk but the first is freed once', z3.Implies(n != 0, z3.And(g['free_next'] == n)))
        X.oblige(st, 'post', 'only the first chunk stays recorded', z3.Implies(n != 0, z3.And(e == b + S, b == g['b'],
                 *[X.hread(st, simp(b + L['Arena::Chunk.' + f]), 8) == g['first'][f] for f in ('buf_', 'size_')])))
        X.oblige(st, 'post', 'the whole first chunk is available again', z3.Implies(n != 0, z3.And(ab == g['first']['buf_'], av == g['first']['size_'], tot == g['first']['size_'])))
        X.oblige(st, 'post', 'min_chunk_size_ is unchanged', mn == g['mn'])
    X.on_ret = ret


def spec_release_all(X):
    """the destructor frees every chunk exactly once"""
    def setup(X, st):
        this = common(X, st)
        st.env[X.fn['args'][0]['id']] = this
        if len(X.fn['args']) > 1:
            st.env[X.fn['args'][1]['id']] = BVV(0, bits(X.fn['args'][1]['t']))
        st.ghost['free_next'] = BVV(0)
        X.bounds = [st.ghost['b'], st.ghost['e']]
    X.setup = setup
    X.extra_cands = cursor_cands

    def ret(X, st, v):
        X.oblige(st, 'post', 'every chunk is freed once', st.ghost['free_next'] == st.ghost['n'])
    X.on_ret = ret


def spec_finalizers(X):
    def setup(X, st):
        fin_state(X, st, False)
        X.bounds = [st.ghost['b'], st.ghost['e']]
    X.setup = setup

    def ind(X, st, ins, target, args):
        L, g = X.layout, st.ghost
        S = L['sizeof Arena::Finalizer']
        k = g['left'] - 1
        f, o = [X.hread(st, simp(g['b'] + k * S + L['Arena::Finalizer.' + x]), 8) for x in ('fn', 'obj')]
        X.oblige(st, 'call', 'the most recent finalizer not yet run is called with its object', z3.And(z3.ULE(g['left'], g['n']), g['left'] != 0, target == f, BOOL(len(args) == 1), args[0] == o))
        g['left'] = k
        X.trusted.add('a finalizer does not touch the arena it is registered with')
    X.on_indirect = ind

    def ret(X, st, v):
        g = st.ghost
        X.oblige(st, 'post', 'every finalizer has run once', g['left'] == 0)
        e = X.hread(st, simp(g['fz'] + 8), 8)
        X.oblige(st, 'post', 'no finalizer stays registered', e == X.hread(st, g['fz'], 8))
        X.oblige(st, 'post', 'the finalizer storage is unchanged', X.hread(st, g['fz'], 8) == g['b'])
    X.on_ret = ret


def fin_state(X, st, writable):
    L = X.layout
    this = X.fresh('this')
    A, S = L['sizeof Arena'], L['sizeof Arena::Finalizer']
    st.path += [this != 0, z3.ULT(this, BVV(LIMIT)), this & 7 == 0]
    st.regions.append(('this', this, BVV(A), True))
    fz = simp(this + L['Arena.finalizers_'])
    b, e, c = [X.hread(st, simp(fz + k), 8) for k in (0, 8, 16)]
    n = X.fresh('n')
    st.path += [z3.ULT(n, BVV(1 << 32)), e == b + n * S, z3.ULE(e, c), z3.ULE(c, BVV(LIMIT)), z3.ULE(b, e), z3.Implies(n != 0, b != 0), z3.Or(z3.ULE(c, this), z3.ULE(this + A, b)),
                (c - b) & (S - 1) == 0]
    st.regions.append(('finalizers', b, simp((c if writable else e) - b), writable))
    st.env[X.fn['args'][0]['id']] = this
    st.ghost.update(this=this, n=n, b=b, e=e, left=n, fz=fz)


def h_allocate(X, st, ins, a):
    """contract of Allocate, proved above"""
    def bad(s):
        s.events.append(('alloc', a[1], a[2], BVV(0)))
        return BVV(0)

    def good(s):
        p = fresh_region(X, s, 'block', a[1], 1)
        s.path.append(p & (a[2] - 1) == 0)
        s.regions.append(('block', p, a[1], True))
        s.events.append(('alloc', a[1], a[2], p))
        return p
    X.oblige(st, 'call', 'Allocate: the alignment is a power of two', z3.And(a[2] != 0, a[2] & (a[2] - 1) == 0))
    return Forks([(TRUE, good), (TRUE, bad)])


def h_object(X, st, ins, a):
    st.events.append((ins['dn'], a[0]))


def spec_create(X, size=64, align=32, plain=False):
    def setup(X, st):
        fin_state(X, st, True)
        # (alignof is an assumption of the wrapper type, not of the code)
    X.setup = setup

    def ret(X, st, v):
        L, g = X.layout, st.ghost
        S = L['sizeof Arena::Finalizer']
        al = [x for x in st.events if x[0] == 'alloc']
        X.oblige(st, 'post', 'exactly one block is requested, of the size and alignment of the type',
                 BOOL(len(al) == 1 and conc(al[0][1]) == size and conc(al[0][2]) == align))
        if not al:
            return
        p = al[0][3]
        X.oblige(st, 'post', 'the block is returned', v == p)
        b, e = X.hread(st, g['fz'], 8), X.hread(st, simp(g['fz'] + 8), 8)
        ct = [x for x in st.events if x[0] == 'jf_ctor']
        X.oblige(st, 'post', 'no object is destroyed', BOOL(not any(x[0] == 'jf_dtor' for x in st.events)))
        if conc(p) == 0 or plain:
            X.oblige(st, 'post', 'nothing is registered', z3.And(b == g['b'], e == g['e'], BOOL(not ct)))
            return
        X.oblige(st, 'post', 'the object is constructed once, in the block', z3.And(BOOL(len(ct) == 1), ct[0][1] == p) if ct else FALSE)
        X.oblige(st, 'post', 'exactly one finalizer is registered', e == b + (g['n'] + 1) * S)
        o, f = [X.hread(st, simp(e - S + L['Arena::Finalizer.' + x]), 8) for x in ('obj', 'fn')]
        d = [a for n, a in X.fnaddr.items() if 'DestroyImpl' in n and 'JfObj' in n]
        X.oblige(st, 'post', 'the finalizer destroys this object', z3.And(o == p, f == d[0]) if len(d) == 1 else FALSE)
        if not any(x[0] == 'grown' for x in st.events):
            X.oblige(st, 'post', 'the earlier finalizers stay', b == g['b'])
    X.on_ret = ret


def spec_destroyimpl(X):
    def setup(X, st):
        p = X.fresh('obj')
        st.env[X.fn['args'][0]['id']] = p
        st.ghost['p'] = p
    X.setup = setup

    def ret(X, st, v):
        d = [x for x in st.events if x[0] == 'jf_dtor']
        X.oblige(st, 'post', 'the destructor runs exactly once, on the object', d[0][1] == st.ghost['p'] if len(d) == 1 else FALSE)
    X.on_ret = ret


def h_release(X, st, ins, a):
    st.events.append(('release', a[0], a[1]))


def spec_destroy(X):
    def setup(X, st):
        fin_state(X, st, True)
    X.setup = setup

    def ret(X, st, v):
        ev = [x for x in st.events if x[0] in ('finalizers', 'release')]
        X.oblige(st, 'post', 'finalizers run once, then every chunk is released once',
                 z3.And(ev[0][1] == st.ghost['this'], ev[1][1] == st.ghost['this'], self_bit(ev[1][2])) if [x[0] for x in ev] == ['finalizers', 'release'] else FALSE)
    X.on_ret = ret


def self_bit(x):
    return z3.Extract(0, 0, x) == 0


def h_vecfree(X, st, ins, a):
    X.trusted.add('~vector releases its storage')


H = [(r'^malloc$', h_malloc), (r'^free$', h_free), (r'Finalizer.*_M_realloc_(insert|append)', h_realloc_fin), (r'_M_realloc_(insert|append)', h_realloc),
     (r'Arena::Allocate\(unsigned long, unsigned long\)', h_allocate), (r'^jf_[cd]tor', h_object), (r'Arena::ReleaseChunks\(', h_release), (r'^operator delete', h_vecfree), (r'::_M_erase\(', h_erase), (r'Arena::RunFinalizers\(', h_runfin)]

UNITS = [
    {'name': 'Arena::Allocate', 'file': F, 'rx': r'^jitfusion::Arena::Allocate\(unsigned long, unsigned long\)', 'handlers': H, 'spec': spec_allocate},
    {'name': 'Arena::Reset', 'file': F, 'rx': r'^jitfusion::Arena::Reset\(\)', 'handlers': H, 'spec': spec_reset},
    {'name': 'Arena::ReleaseChunks(false)', 'file': F, 'rx': r'^jitfusion::Arena::ReleaseChunks\(', 'handlers': H, 'spec': spec_release_all},
    {'name': 'Arena::RunFinalizers', 'file': F, 'rx': r'^jitfusion::Arena::RunFinalizers\(', 'handlers': H, 'spec': spec_finalizers},
    {'name': 'Arena::Create (with destructor)', 'file': '@inst_c14.cpp', 'rx': r'^jf_create$', 'handlers': H, 'spec': spec_create},
    {'name': 'Arena::Create (plain)', 'file': '@inst_c14.cpp', 'rx': r'^jf_create_plain$', 'handlers': H, 'spec': lambda X: spec_create(X, 16, 8, True)},
    {'name': 'Arena::DestroyImpl', 'file': '@inst_c14.cpp', 'rx': r'Arena::DestroyImpl<JfObj>', 'handlers': H, 'spec': spec_destroyimpl},
    {'name': 'Arena::~Arena', 'file': '@inst_c14.cpp', 'rx': r'^jf_destroy_arena$', 'handlers': H, 'spec': spec_destroy},
]
