"""Verification-condition generator for the extracted LLVM IR of one function.

Every loop is cut at its header by an invariant; every value is computed once, symbolically, for all inputs.
The result is a list of obligations (safety, callee preconditions) plus the final states at the returns; the
postcondition of the contract is stated over those by the spec."""
import re
import z3
from smt import *


class Obj:
    _n = 0

    def __init__(self, kind, name, size=None, readonly=False):
        Obj._n += 1
        self.id = Obj._n
        self.kind = kind          # operand | alloc | alloca | global | family | opaque | ctx
        self.name = name
        self.size = size          # 64-bit term: bytes (None: cells object of known layout)
        self.readonly = readonly
        self.stride = None
        self.fields = None        # [(off, width, isptr)]
        self.nonempty_null = False
        self.count = None         # number of elements (64-bit term)
        self.align_from = None
        self.fam = None           # (famkey, idx) for members of a string family
        self.elemtag = None

    def layout(self, stride, fields):
        self.stride, self.fields = stride, fields

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name)


class Ptr:
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts          # [(cond, obj|None, Lin)]

    @staticmethod
    def one(obj, off=0):
        return Ptr([(TRUE, obj, off if isinstance(off, Lin) else Lin(64, off))])

    def map(self, f):
        return Ptr([(c, o, f(l)) for c, o, l in self.alts])


NULL = None


def null_ptr():
    return Ptr([(TRUE, None, Lin(64, 0))])


def ptr_ite(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    out = []
    for (cc, o, l) in a.alts:
        out.append((And(c, cc), o, l))
    nc = Not(c)
    for (cc, o, l) in b.alts:
        out.append((And(nc, cc), o, l))
    m = []
    for (cc, o, l) in out:
        if is_false(cc):
            continue
        for i, (c2, o2, l2) in enumerate(m):
            if o2 is o and l2.key() == l.key():
                m[i] = (Or(c2, cc), o, l)
                break
        else:
            m.append((cc, o, l))
    if len(m) == 1:
        m = [(TRUE, m[0][1], m[0][2])]
    elif m and len(set(id(o) for _, o, _ in m)) == 1:
        # same object: fold the offsets into one ite term
        t = m[-1][2].term()
        for (cc, o, l) in reversed(m[:-1]):
            t = If(cc, l.term(), t)
        # keep divisibility visible when every offset is divisible by the stride
        o = m[0][1]
        if o is not None and o.stride and o.stride > 1:
            ds = [l.div(o.stride) for _, _, l in m]
            if all(d is not None for d in ds):
                t = ds[-1].term()
                for (cc, _, _), d in list(zip(m, ds))[:-1][::-1]:
                    t = If(cc, d.term(), t)
                return Ptr([(TRUE, o, lin(t).scale(o.stride))])
        return Ptr([(TRUE, o, lin(t))])
    return Ptr(m)


def is_ptr(v):
    return isinstance(v, Ptr)


def ite(c, a, b):
    if a is b:
        return a
    if is_ptr(a) or is_ptr(b):
        return ptr_ite(c, a, b)
    if isinstance(a, list):
        return [ite(c, x, y) for x, y in zip(a, b)]
    if a is None or b is None:
        return a if b is None else b
    return If(c, a, b)


# ---------------------------------------------------------------- array contents
class Node:
    __slots__ = ('memo', '__weakref__')

    def sel(self, idx):
        """idx: 64-bit term in canonical form"""
        m = self.memo
        k = idx.get_id()
        r = m.get(k)
        if r is None:
            r = self._sel(idx)
            m[k] = r
            _keep.append(idx)
        return r


_keep = []


class Base(Node):
    __slots__ = ('uf', 'pre')

    def __init__(self, uf, pre=()):
        self.memo = {}
        self.uf = uf
        self.pre = tuple(pre)

    def _sel(self, idx):
        return self.uf(*self.pre, idx)


class PtrBase(Node):
    """pointer column of a list of strings: element i points to its own block"""
    __slots__ = ('mk',)

    def __init__(self, mk):
        self.memo = {}
        self.mk = mk

    def _sel(self, idx):
        return self.mk(idx)


class StoreN(Node):
    __slots__ = ('prev', 'idx', 'val', 'cond')

    def __init__(self, prev, idx, val, cond=TRUE):
        self.memo = {}
        self.prev, self.idx, self.val, self.cond = prev, idx, val, cond

    def _sel(self, idx):
        d = lin(idx).add(lin(self.idx), -1)
        if d.is_const():
            if d.c:
                return self.prev.sel(idx)
            return ite(self.cond, self.val, self.prev.sel(idx)) if not is_true(self.cond) else self.val
        return ite(And(self.cond, idx == self.idx), self.val, self.prev.sel(idx))


class FillN(Node):
    """[lo, lo+n) := f(idx)"""
    __slots__ = ('prev', 'lo', 'n', 'f', 'cond')

    def __init__(self, prev, lo, n, f, cond=TRUE):
        self.memo = {}
        self.prev, self.lo, self.n, self.f, self.cond = prev, lo, n, f, cond

    def _sel(self, idx):
        d = sub(idx, self.lo)
        inr = z3.ULT(d, self.n)
        if isnum(d) and isnum(self.n):
            inr = TRUE if num(d) < num(self.n) else FALSE
        c = And(self.cond, inr)
        if is_false(c):
            return self.prev.sel(idx)
        v = self.f(idx)
        if is_true(c):
            return v
        return ite(c, v, self.prev.sel(idx))


class IteN(Node):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.memo = {}
        self.c, self.a, self.b = c, a, b

    def _sel(self, idx):
        return ite(self.c, self.a.sel(idx), self.b.sel(idx))


class Cells:
    """contents of a small object: byte offset -> (width, value)"""
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = d or {}


class LoopInfo:
    pass


class Obligation:
    __slots__ = ('name', 'guard', 'claim', 'kind', 'lane')

    def __init__(self, kind, name, guard, claim, lane=None):
        self.kind, self.name, self.guard, self.claim, self.lane = kind, name, guard, claim, lane

    def __repr__(self):
        return '%s: %s' % (self.kind, self.name)


class QFact:
    """forall k (64-bit): body(k); instantiated at ground index terms of the trigger functions"""
    __slots__ = ('lit', 'body', 'trig', 'nv', 'maxgen')

    def __init__(self, body, trig, lit=None, nv=1, maxgen=4):
        self.body, self.trig, self.lit, self.nv = body, trig, lit, nv
        self.maxgen = maxgen     # instantiated only at terms at most this many instantiations away from the goal


WIDTHS = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'float': 32, 'double': 64, 'ptr': 64}


def width(t):
    if isinstance(t, str):
        if t in WIDTHS:
            return WIDTHS[t]
        if re.match(r'i\d+$', t):
            return int(t[1:])
    raise Unsupported('type %s' % (t,))


class Engine:
    def __init__(self, fn, module, boundary):
        self.fn = fn
        self.module = module
        self.boundary = boundary      # callable (engine, ins, args) -> value, or raises Unsupported
        self.nfresh = 0
        self.env = {}
        self.obls = []
        self.facts = []
        self.qfacts = []
        self.folds = {}               # uf id -> (uf, fn(args...)->definition term)
        self.loops = {}
        self.rets = []
        self.calls = []
        self.globals = {}
        self.tags = {}                # havoc function id -> description
        self.trusted = set()
        conv_axioms(self)

    # ------------------------------------------------------------ fresh names
    def fresh(self, name, w):
        self.nfresh += 1
        return z3.BitVec('%s!%d' % (name, self.nfresh), w)

    def fresh_bool(self, name):
        self.nfresh += 1
        return z3.Bool('%s!%d' % (name, self.nfresh))

    def fresh_fn(self, name, w, nargs=1):
        self.nfresh += 1
        return z3.Function('%s!%d' % (name, self.nfresh), *([B64] * nargs + [BV(w)]))

    # ------------------------------------------------------------ obligations
    def oblige(self, kind, name, guard, claim):
        if is_true(claim) or is_false(guard):
            self.obls.append(Obligation(kind, name, guard, TRUE))
            return
        self.obls.append(Obligation(kind, name, guard, claim))

    # ------------------------------------------------------------ operands
    def val(self, v):
        if isinstance(v, str):
            if v not in self.env:
                raise Unsupported('value %s used before definition' % v)
            return self.env[v]
        if 'c' in v:
            return bv(int(v['c']), width(v['t']))
        if 'f' in v:
            return bv(int(v['f']), width(v['t']))
        if 'null' in v:
            return null_ptr()
        if 'undef' in v:
            return self.undef(v['t'])
        if 'zero' in v:
            return self.zero(v['t'])
        if 'agg' in v:
            return [self.val(x) for x in v['agg']]
        if 'g' in v:
            return Ptr.one(self.global_obj(v['g']))
        if 'cgep' in v:
            p = self.val(v['cgep'])
            return self.gep(p, v['gep'])
        if 'fn' in v:
            o = Obj('fnptr', v['fn'])
            return Ptr.one(o)
        raise Unsupported('constant %s' % (v,))

    def undef(self, t):
        if isinstance(t, dict) and 's' in t:
            return [self.undef(x) for x in t['s']]
        if isinstance(t, dict) and 'a' in t:
            return [self.undef(t['a']) for _ in range(t['n'])]
        if t == 'ptr':
            return Ptr.one(Obj('undef', 'undef'))
        return self.fresh('undef', width(t))

    def zero(self, t):
        if isinstance(t, dict) and 's' in t:
            return [self.zero(x) for x in t['s']]
        if isinstance(t, dict) and 'a' in t:
            return [self.zero(t['a']) for _ in range(t['n'])]
        if t == 'ptr':
            return null_ptr()
        return bv(0, width(t))

    def global_obj(self, name):
        if name in self.globals:
            return self.globals[name]
        g = self.module['globals'].get(name)
        o = Obj('global', name, readonly=True)
        self.globals[name] = o
        if g and g.get('const') and 'init' in g:
            try:
                self.init_global(o, g['t'], g['init'])
            except Unsupported:
                pass
        return o

    def init_global(self, o, t, init):
        cells = {}

        def put(off, t, v):
            if isinstance(t, dict) and 's' in t:
                vs = v['agg'] if 'agg' in v else None
                for i, (ft, fo) in enumerate(zip(t['s'], t['o'])):
                    put(off + fo, ft, vs[i] if vs else {'zero': True, 't': ft})
            elif isinstance(t, dict) and 'a' in t:
                vs = v['agg'] if 'agg' in v else None
                for i in range(t['n']):
                    put(off + i * t['es'], t['a'], vs[i] if vs else {'zero': True, 't': t['a']})
            else:
                vv = self.zero(t) if 'zero' in v else self.val(v)
                cells[off] = (width(t), vv)
        put(0, t, init)
        if isinstance(t, dict) and 'a' in t and isinstance(t['a'], str) and t['n'] > 4:
            es = t['es']
            o.layout(es, [(0, es * 8, False)])
            o.size = bv(es * t['n'], 64)
            o.count = bv(t['n'], 64)
            node = Base(self.fresh_fn('g_' + o.name[-10:], es * 8))
            n2 = node
            for i in range(t['n']):
                n2 = StoreN(n2, bv(i, 64), cells[i * es][1])
            self.mem0[o.id] = {0: n2}
        else:
            o.size = bv(max([k + (w + 7) // 8 for k, (w, _) in cells.items()] or [0]), 64)
            self.mem0[o.id] = Cells(cells)

    # ------------------------------------------------------------ memory
    def gep(self, p, g):
        if g.get('bad'):
            raise Unsupported('gep')
        off = Lin(64, g['const'])
        for v, s in g['vars']:
            t = self.val(v)
            if t.size() < 64:
                t = sext(t, 64)
            elif t.size() > 64:
                t = trunc(t, 64)
            off = off.add(lin(t), s)
        return p.map(lambda l: l.add(off))

    def mem_of(self, st, o):
        m = st.get(o.id)
        if m is None:
            m = self.mem0.get(o.id)
            if m is None:
                raise Unsupported('no contents for %r' % o)
        return m

    def ensure_layout(self, o, st, wbytes, isptr=False):
        if o.stride is None and o.kind in ('alloc', 'heap'):
            if isptr:
                raise Unsupported('pointer store into untyped block')
            o.layout(wbytes, [(0, wbytes * 8, False)])
            self.init_alloc(o)

    def init_alloc(self, o):
        d = {}
        for off, w, isptr in o.fields:
            if isptr:
                d[off] = PtrBase(lambda idx, o=o: Ptr.one(Obj('undef', 'uninit')))
            else:
                d[off] = Base(self.fresh_fn('un%d' % o.id, w))
        self.mem0[o.id] = d
        o.count = self.elem_count(o.size, o.stride)

    def elem_count(self, size, stride):
        if stride == 1:
            return size
        l = lin(size).div(stride)
        if l is not None and self.small(l):
            return l.term()
        return heavy('udiv', size, bv(stride, 64))

    def small(self, l):
        """sum of few zero-extended <=32-bit values with small non-negative coefficients (cannot wrap after scaling)"""
        if l.c >> 40:
            return False
        for i, (t, c) in l.m.items():
            if c >> 20:
                return False
            if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ZERO_EXT and t.arg(0).size() <= 32):
                return False
        return True

    def index(self, o, off, nbytes):
        """(field offset, canonical index term, number of elements spanned, sub-element byte offset)"""
        s = o.stride
        for fo, w, isptr in o.fields:
            l = off.addc(-fo).div(s) if s != 1 else off
            if l is not None:
                fb = w // 8
                if nbytes == fb:
                    return fo, l.term(), 1, 0
                if nbytes > fb and len(o.fields) == 1 and nbytes % s == 0:
                    return fo, l.term(), nbytes // s, 0
                if nbytes < fb:
                    return fo, l.term(), 1, 0
        if len(o.fields) == 1:
            c = off.c % s
            l = off.addc(-c).div(s)
            if l is not None and c + nbytes <= s:
                return 0, l.term(), 1, c
        raise Unsupported('access of %d bytes at stride %d in %r' % (nbytes, s, o))

    def in_bounds(self, o, off, nbytes, what, guard, cond):
        g = And(guard, cond)
        if o.stride is None or o.count is None:
            if o.size is not None:
                t = off.term()
                self.oblige('bounds', '%s %s' % (what, o.name), g,
                            And(z3.ULE(t, o.size), z3.ULE(bv(nbytes, 64), o.size - t)))
                return
            raise Unsupported('bounds of %r' % o)
        fo, i, n, so = self.index(o, off, nbytes)
        if n == 1:
            cl = z3.ULT(i, o.count)
        else:
            cl = And(z3.ULE(bv(n, 64), o.count), z3.ULE(i, o.count - bv(n, 64)))
        self.oblige('bounds', '%s %s' % (what, o.name), g, cl)

    def load_alt(self, st, o, off, t, guard, cond):
        if o is None or o.kind in ('undef', 'fnptr'):
            self.oblige('bounds', 'load through a null or undefined pointer', And(guard, cond), FALSE)
            return self.undef(t)
        if isinstance(t, dict) and 's' in t:
            return [self.load_alt(st, o, off.addc(fo), ft, guard, cond) for ft, fo in zip(t['s'], t['o'])]
        w = width(t)
        nb = (w + 7) // 8
        if o.kind in ('opaque', 'ctx'):
            raise Unsupported('load from %r' % o)
        m = None
        if o.kind in ('alloc', 'heap'):
            self.ensure_layout(o, st, nb, t == 'ptr')
        m = self.mem_of(st, o)
        if isinstance(m, Cells):
            if not off.is_const():
                raise Unsupported('variable offset into %r' % o)
            c = off.sconst()
            self.in_bounds(o, off, nb, 'load', guard, cond)
            if c in m.d and m.d[c][0] == w:
                v = m.d[c][1]
                if t == 'ptr' and not is_ptr(v) or t != 'ptr' and is_ptr(v):
                    raise Unsupported('type-punned load')
                return v
            if c in m.d and m.d[c][0] > w and not is_ptr(m.d[c][1]):
                return trunc(m.d[c][1], w)
            # compose from narrower cells
            parts = []
            k = c
            while k < c + nb:
                if k not in m.d or is_ptr(m.d[k][1]):
                    break
                ww, v = m.d[k]
                parts.append(v)
                k += ww // 8
            if k == c + nb and parts:
                r = parts[0] if len(parts) == 1 else z3.Concat(*reversed(parts))
                return r
            for k, (ww, v) in m.d.items():
                if k < c + nb and c < k + ww // 8:
                    if k <= c and c + nb <= k + ww // 8 and not is_ptr(v):
                        return z3.Extract((c - k) * 8 + w - 1, (c - k) * 8, v)
                    raise Unsupported('partially overlapping cell load')
            v = self.undef(t)
            m.d[c] = (w, v)
            return v
        self.in_bounds(o, off, nb, 'load', guard, cond)
        fo, i, n, so = self.index(o, off, nb)
        if n == 1:
            v = m[fo].sel(i)
            fw = [x[1] for x in o.fields if x[0] == fo][0]
            if is_ptr(v):
                if t != 'ptr':
                    raise Unsupported('pointer read as integer')
                return v
            if t == 'ptr':
                raise Unsupported('integer read as pointer')
            if fw > nb * 8:
                return z3.Extract(so * 8 + nb * 8 - 1, so * 8, v)
            return v if w == nb * 8 else trunc(v, w)
        parts = [m[fo].sel(norm(i + bv(j, 64))) for j in range(n)]
        return z3.Concat(*reversed(parts))

    def load(self, st, p, t, guard):
        if not is_ptr(p):
            raise Unsupported('load through an integer')
        r = None
        for c, o, off in reversed(p.alts):
            v = self.load_alt(st, o, off, t, guard, c)
            r = v if r is None else ite(c, v, r)
        if t == 'i1':
            return r
        return r

    def store(self, st, p, v, t, guard):
        if not is_ptr(p):
            raise Unsupported('store through an integer')
        for c, o, off in p.alts:
            self.store_alt(st, o, off, v, t, guard, c)

    def touch(self, o, idx=None, fo=0):
        """note a write for the loops around the current block"""
        for L in self.cur_loops:
            if idx is not None:
                L.stores.setdefault(o.id, []).append((o, fo, idx))

    def store_alt(self, st, o, off, v, t, guard, cond):
        if o is None or o.kind in ('undef', 'fnptr'):
            self.oblige('bounds', 'store through a null or undefined pointer', And(guard, cond), FALSE)
            return
        if o.readonly:
            self.oblige('frame', 'store into %s' % o.name, And(guard, cond), FALSE)
            return
        if isinstance(t, dict) and 's' in t:
            for x, ft, fo in zip(v, t['s'], t['o']):
                self.store_alt(st, o, off.addc(fo), x, ft, guard, cond)
            return
        w = width(t)
        nb = (w + 7) // 8
        if w % 8:
            v = zext(v, nb * 8)
            w = nb * 8
        if o.kind in ('opaque', 'ctx'):
            raise Unsupported('store into %r' % o)
        if o.kind in ('alloc', 'heap'):
            self.ensure_layout(o, st, nb, t == 'ptr')
        m = self.mem_of(st, o)
        if isinstance(m, Cells):
            if not off.is_const():
                raise Unsupported('variable offset into %r' % o)
            c = off.sconst()
            self.in_bounds(o, off, nb, 'store', guard, cond)
            d = dict(m.d)
            for k, (ww, vv) in list(d.items()):
                if k < c + nb and c < k + ww // 8 and not (k == c and ww == w):
                    if is_ptr(vv):
                        del d[k]
                        continue
                    # split the old cell
                    if k < c:
                        d[k] = ((c - k) * 8, z3.Extract((c - k) * 8 - 1, 0, vv))
                    else:
                        del d[k]
                    e = k + ww // 8
                    if e > c + nb:
                        d[c + nb] = ((e - c - nb) * 8, z3.Extract(ww - 1, (c + nb - k) * 8, vv))
            if not is_true(cond) and c in d:
                v = ite(cond, v, d[c][1])
            d[c] = (w, v)
            st[o.id] = Cells(d)
            return
        self.in_bounds(o, off, nb, 'store', guard, cond)
        fo, i, n, so = self.index(o, off, nb)
        m = dict(m)
        fw = [x[1] for x in o.fields if x[0] == fo][0]
        if n == 1 and fw == nb * 8:
            m[fo] = StoreN(m[fo], i, v, cond)
        elif n > 1:
            for j in range(n):
                m[fo] = StoreN(m[fo], norm(i + bv(j, 64)), z3.Extract(j * fw + fw - 1, j * fw, v), cond)
        else:
            old = m[fo].sel(i)
            parts = []
            lo = so * 8
            if lo + w < fw:
                parts.append(z3.Extract(fw - 1, lo + w, old))
            parts.append(v)
            if lo:
                parts.append(z3.Extract(lo - 1, 0, old))
            m[fo] = StoreN(m[fo], i, z3.Concat(*parts), cond)
        st[o.id] = m
        self.touch(o, i, fo)

    def memcpy(self, st, dst, src, n, guard):
        """n: 64-bit byte count"""
        if isnum(n) and num(n) == 0:
            return
        nz = n != bv(0, 64)
        g = And(guard, nz)
        for c, o, off in dst.alts:
            for c2, o2, off2 in src.alts:
                cc = And(c, c2)
                if is_false(cc):
                    continue
                if o is None or o2 is None or o.kind == 'undef' or o2.kind == 'undef':
                    self.oblige('bounds', 'memcpy through a null pointer', And(g, cc), FALSE)
                    continue
                if o.readonly:
                    self.oblige('frame', 'memcpy into %s' % o.name, And(g, cc), FALSE)
                    continue
                self.memcpy_alt(st, o, off, o2, off2, n, g, And(cc, nz))

    def range_ok(self, o, off, n, what, guard):
        if o.size is None:
            raise Unsupported('range of %r' % o)
        s = o.stride or 1
        l, ln = off.div(s), lin(n).div(s)
        if o.count is not None and s > 1 and l is not None and ln is not None and self.small(ln):
            i, k = l.term(), ln.term()
            self.oblige('bounds', '%s %s' % (what, o.name), guard, And(z3.ULE(i, o.count), z3.ULE(k, o.count - i)))
            return
        t = off.term()
        self.oblige('bounds', '%s %s' % (what, o.name), guard, And(z3.ULE(t, o.size), z3.ULE(n, o.size - t)))

    def memcpy_alt(self, st, o, off, o2, off2, n, g, cond):
        m2 = self.mem_of(st, o2) if not (o2.kind in ('alloc', 'heap') and o2.stride is None) else None
        if m2 is None:
            raise Unsupported('memcpy from untyped %r' % o2)
        if isinstance(m2, Cells):
            if not (isnum(n) and off2.is_const()):
                raise Unsupported('memcpy from cells with variable size')
            self.range_ok(o2, off2, n, 'memcpy read', And(g, cond))
            c0 = off2.sconst()
            if o.kind in ('alloc', 'heap') and o.stride is None:
                raise Unsupported('memcpy from cells to an untyped block')
            for k, (w, v) in sorted(m2.d.items()):
                if k >= c0 and k + w // 8 <= c0 + num(n):
                    self.store_alt(st, o, off.addc(k - c0), v, 'ptr' if is_ptr(v) else 'i%d' % w, g, cond)
            return
        if o.kind in ('alloc', 'heap') and o.stride is None:
            o.layout(o2.stride, list(o2.fields))
            self.init_alloc(o)
        m = self.mem_of(st, o)
        if isinstance(m, Cells):
            if not (isnum(n) and off.is_const()):
                raise Unsupported('memcpy into cells with variable size')
            k = 0
            if o2.stride <= num(n):
                nn = num(n)
                while k < nn:
                    for fo, w, isptr in o2.fields:
                        if k + fo < nn:
                            v = self.load_alt(st, o2, off2.addc(k + fo), 'ptr' if isptr else 'i%d' % w, g, cond)
                            self.store_alt(st, o, off.addc(k + fo), v, 'ptr' if isptr else 'i%d' % w, g, cond)
                    k += o2.stride
                if k != nn:
                    raise Unsupported('ragged memcpy')
                return
            raise Unsupported('sub-element memcpy')
        s = o.stride
        if o2.stride != s:
            if o2.stride == 1 and isnum(n) and num(n) <= 64 and num(n) % s == 0 and s <= 8:
                for k in range(0, num(n), s):
                    v = self.load_alt(st, o2, off2.addc(k), 'i%d' % (8 * s), g, cond)
                    self.store_alt(st, o, off.addc(k), v, 'i%d' % (8 * s), g, cond)
                return
            raise Unsupported('memcpy between strides %d and %d' % (o2.stride, s))
        li, li2, ln = off.div(s), off2.div(s), lin(n).div(s)
        if li is None or li2 is None or ln is None:
            raise Unsupported('memcpy not a multiple of the element size')
        self.range_ok(o, off, n, 'memcpy write', And(g, cond))
        self.range_ok(o2, off2, n, 'memcpy read', And(g, cond))
        lo, lo2, cnt = li.term(), li2.term(), ln.term()
        if not self.small(ln) and s > 1:
            self.oblige('bounds', 'memcpy size does not wrap', And(g, cond), z3.ULE(cnt, bv((1 << 63) // s, 64)))
        m = dict(m)
        shift = sub(lo2, lo)
        for fo, w, isptr in o.fields:
            srcn = m2[fo]
            m[fo] = FillN(m[fo], lo, cnt, (lambda idx, srcn=srcn, shift=shift: srcn.sel(add(idx, shift))), cond)
        st[o.id] = m
        self.touch(o, add(lo, cnt), 0)

    def memset(self, st, dst, byte, n, guard):
        if isnum(n) and num(n) == 0:
            return
        nz = n != bv(0, 64) if not isnum(n) else TRUE
        g = And(guard, nz)
        for c, o, off in dst.alts:
            if is_false(c):
                continue
            if o is None or o.kind == 'undef':
                self.oblige('bounds', 'memset through a null pointer', And(g, c), FALSE)
                continue
            if o.readonly:
                self.oblige('frame', 'memset into %s' % o.name, And(g, c), FALSE)
                continue
            cond = And(c, nz)
            if o.kind in ('alloc', 'heap') and o.stride is None:
                o.layout(o.hint or 1, [(0, 8 * (o.hint or 1), False)])
                self.init_alloc(o)
            m = self.mem_of(st, o)
            self.range_ok(o, off, n, 'memset', And(g, c))
            if isinstance(m, Cells):
                if not (isnum(n) and off.is_const()):
                    raise Unsupported('memset of cells')
                d = dict(m.d)
                a = off.sconst()
                b = a + num(n)
                for k in list(d):
                    if k >= a and k + d[k][0] // 8 <= b:
                        if is_ptr(d[k][1]):
                            d[k] = (64, null_ptr())
                        else:
                            d[k] = (d[k][0], self.splat(byte, d[k][0]))
                k = a
                ks = sorted(x for x in d if a <= x < b)
                for nx in ks + [b]:
                    while k < nx:
                        step = 8 if nx - k >= 8 and k % 8 == 0 else 1
                        if nx - k >= 4 and k % 4 == 0 and step == 1:
                            step = 4
                        d[k] = (step * 8, self.splat(byte, step * 8))
                        k += step
                    if nx < b:
                        k = nx + d[nx][0] // 8
                st[o.id] = Cells(d)
                return
            s = o.stride
            li, ln = off.div(s), lin(n).div(s)
            if li is None or ln is None:
                raise Unsupported('memset not a multiple of the element size')
            m = dict(m)
            for fo, w, isptr in o.fields:
                if isptr:
                    m[fo] = FillN(m[fo], li.term(), ln.term(), lambda idx: null_ptr(), cond)
                else:
                    v = self.splat(byte, w)
                    m[fo] = FillN(m[fo], li.term(), ln.term(), (lambda idx, v=v: v), cond)
            st[o.id] = m
            self.touch(o, add(li.term(), ln.term()), 0)

    def splat(self, byte, w):
        if isnum(byte):
            return bv(int.from_bytes(bytes([num(byte)]) * (w // 8), 'little'), w)
        if w == 8:
            return byte
        return z3.Concat(*([byte] * (w // 8)))

    # ------------------------------------------------------------ allocation
    def alloc(self, kind, name, size, st, layout=None):
        o = Obj(kind, name, size)
        o.hint = None
        if layout:
            o.layout(*layout)
            self.init_alloc(o)
        self.allocs.append(o)
        return o

    # ------------------------------------------------------------ main walk
    def merge_mem(self, edges):
        """edges: [(guard, state)]"""
        if len(edges) == 1:
            return dict(edges[0][1])
        keys = set()
        for _, s in edges:
            keys |= set(s.keys())
        out = {}
        for k in keys:
            vals = []
            for g, s in edges:
                v = s.get(k, self.mem0.get(k))
                vals.append((g, v))
            first = vals[0][1]
            if all(v is first for _, v in vals):
                out[k] = first
                continue
            vals = [(g, v) for g, v in vals if v is not None]
            if isinstance(first, Cells) or isinstance(vals[0][1], Cells):
                ks = set()
                for _, v in vals:
                    ks |= set(v.d.keys())
                d = {}
                for c in ks:
                    ws = set(v.d[c][0] for _, v in vals if c in v.d)
                    if len(ws) > 1 or not all(c in v.d for _, v in vals):
                        if all(c in v.d for _, v in vals):
                            continue
                        have = [(g, v.d[c]) for g, v in vals if c in v.d]
                        if len(ws) == 1:
                            # undefined on the other paths
                            r = have[-1][1][1]
                            for g, (w, x) in reversed(have[:-1]):
                                r = ite(g, x, r)
                            d[c] = (ws.pop(), r)
                        continue
                    r = vals[-1][1].d[c][1]
                    for g, v in reversed(vals[:-1]):
                        r = ite(g, v.d[c][1], r)
                    d[c] = (ws.pop(), r)
                out[k] = Cells(d)
            elif isinstance(vals[0][1], dict):
                d = {}
                for f in vals[0][1]:
                    r = vals[-1][1][f]
                    for g, v in reversed(vals[:-1]):
                        if v[f] is not r:
                            r = IteN(g, v[f], r)
                    d[f] = r
                out[k] = d
            else:
                r = vals[-1][1]
                for g, v in reversed(vals[:-1]):
                    r = v.merge(g, r) if hasattr(v, 'merge') else If(g, v, r)
                out[k] = r
        return out

    def roots(self, v, seen, blocks):
        """syntactic roots of a pointer operand"""
        if not isinstance(v, str):
            return {('const', repr(v))} if not ('cgep' in v) else self.roots(v['cgep'], seen, blocks)
        if v in seen:
            return set()
        seen.add(v)
        ins = self.defs.get(v)
        if ins is None:
            return {('arg', v)}
        op = ins['op']
        if op == 'getelementptr':
            return self.roots(ins['base'], seen, blocks)
        if op == 'phi':
            r = set()
            for x, _ in ins['in']:
                r |= self.roots(x, seen, blocks)
            return r
        if op == 'select':
            return self.roots(ins['ops'][1], seen, blocks) | self.roots(ins['ops'][2], seen, blocks)
        if op in ('bitcast', 'freeze'):
            return self.roots(ins['ops'][0], seen, blocks)
        if op == 'extractvalue':
            return {('val', v)}
        return {('val', v)}

    def loop_effects(self, L):
        """objects a loop may write, by syntactic roots of its stores"""
        roots = set()
        err = False
        for b in L.blocks:
            for ins in self.blocks[b]['ins']:
                if ins['op'] == 'store':
                    roots |= self.roots(ins['ops'][1], set(), L.blocks)
                elif ins['op'] in ('call', 'invoke'):
                    fnn = ins.get('fn', '')
                    if fnn.startswith('llvm.memcpy') or fnn.startswith('llvm.memset') or fnn.startswith('llvm.memmove'):
                        roots |= self.roots(ins['args'][0], set(), L.blocks)
                    elif fnn.startswith('llvm.lifetime') or fnn.startswith('llvm.assume'):
                        pass
                    elif fnn.startswith('llvm.'):
                        pass
                    else:
                        err = True
                        for a in ins['args']:
                            if isinstance(a, str) and self.typ_of(a) == 'ptr':
                                roots |= {('callarg',) + r for r in self.roots(a, set(), L.blocks)}
        objs = {}
        for r in roots:
            call = r[0] == 'callarg'
            if call:
                r = r[1:]
            if r[0] == 'const':
                continue
            v = r[1]
            d = self.defs.get(v)
            if d is not None and d['op'] in ('call', 'invoke') and self.def_block[v] in L.blocks and \
                    'std::vector<' in d.get('dn', ''):
                # a pointer into the vector's block
                q = self.env.get(d['args'][0]) if isinstance(d['args'][0], str) else None
                vs = getattr(self, 'vecs', {})
                hit = [vs[o.id] for _, o, _ in q.alts if o is not None and o.id in vs] if is_ptr(q) else []
                for o in hit:
                    objs[o.id] = o
                continue
            if d is not None and self.def_block[v] in L.blocks:
                if d['op'] == 'load':
                    # pointer loaded inside the loop: the objects it may name are found dynamically
                    L.dyn = True
                continue
            p = self.env.get(v)
            if is_ptr(p):
                for _, o, _ in p.alts:
                    if o is not None:
                        objs[o.id] = o
            elif isinstance(p, list):
                raise Unsupported('aggregate pointer root')
        for i in list(objs):
            gh = getattr(self, 'conts', {}).get(i)
            if gh is not None:
                objs[gh.id] = gh
        return objs, err

    def typ_of(self, v):
        d = self.defs.get(v)
        if d is not None:
            return d.get('t')
        return self.arg_types.get(v)

    def setup(self, args, mem0):
        fn = self.fn
        self.blocks = {b['id']: b for b in fn['blocks']}
        self.defs = {}
        self.def_block = {}
        self.arg_types = {a['id']: a['t'] for a in fn['args']}
        for b in fn['blocks']:
            for ins in b['ins']:
                if 'id' in ins:
                    self.defs[ins['id']] = ins
                    self.def_block[ins['id']] = b['id']
        self.mem0 = mem0
        self.allocs = []
        for a, v in zip(fn['args'], args):
            self.env[a['id']] = v
        self.loops = {}
        for l in fn['loops']:
            L = LoopInfo()
            L.header = l['header']
            L.blocks = set(l['blocks'])
            L.depth = l['depth']
            L.parent = l.get('parent')
            L.stores = {}
            L.cmps = []
            L.phis = {}
            L.backs = []
            L.dyn = False
            L.havoc = {}
            self.loops[L.header] = L
        self.succs = {}
        self.preds = {b: [] for b in self.blocks}
        for b in fn['blocks']:
            t = b['ins'][-1]
            s = []
            if t['op'] == 'br':
                s = t['succ']
            elif t['op'] == 'switch':
                s = [t['default']] + [c[1] for c in t['cases']]
            elif t['op'] == 'invoke':
                s = [t['normal']]
            self.succs[b['id']] = s
            for x in s:
                if b['id'] not in self.preds[x]:
                    self.preds[x].append(b['id'])

    def order(self):
        entry = self.fn['blocks'][0]['id']
        seen, post = set(), []
        stack = [(entry, iter(self.succs[entry]))]
        seen.add(entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        rpo = post[::-1]
        # keep loop bodies contiguous is not required: back edges only target headers
        return rpo

    def run(self):
        entry = self.fn['blocks'][0]['id']
        rpo = self.order()
        self.pos = {b: i for i, b in enumerate(rpo)}
        self.edge = {}       # (pred, succ) -> (guard, state)
        self.guard = {}
        self.loops_of = {b: [L for L in self.loops.values() if b in L.blocks] for b in self.blocks}
        for b in rpo:
            self.cur_loops = self.loops_of[b]
            if b == entry:
                g, st = TRUE, {'$err': FALSE}
                ins_edges = []
            else:
                ins_edges = [(p,) + self.edge[(p, b)] for p in self.preds[b] if (p, b) in self.edge and
                             not (b in self.loops and p in self.loops[b].blocks)]
                ins_edges = [(p, g, s) for p, g, s in ins_edges if not is_false(g)]
                if not ins_edges:
                    if b in self.loops:
                        pass
                    self.guard[b] = FALSE
                    continue
                g = Or(*[e[1] for e in ins_edges])
                st = self.merge_mem([(e[1], e[2]) for e in ins_edges])
            self.guard[b] = g
            if b in self.loops:
                self.enter_loop(self.loops[b], b, g, st, ins_edges)
            self.block(b, g, st, ins_edges)
        # back edges
        for L in self.loops.values():
            self.close_loop(L)

    def phi_merge(self, ins, ins_edges):
        vals = {pb: v for v, pb in ins['in']}
        r = None
        for p, g, s in reversed(ins_edges):
            v = self.val(vals[p])
            r = v if r is None else ite(g, v, r)
        return r

    def enter_loop(self, L, b, g, st, ins_edges):
        L.guard = g
        L.entry_phi = {}
        L.sym = {}
        L.ptrphi = {}
        L.entry_edges = ins_edges
        objs, err = self.loop_effects(L)
        for ins in self.blocks[b]['ins']:
            if ins['op'] != 'phi':
                break
            v = self.phi_merge(ins, ins_edges)
            L.entry_phi[ins['id']] = v
            if is_ptr(v):
                if len(v.alts) != 1:
                    raise Unsupported('loop pointer with several bases')
                _, o, off = v.alts[0]
                if o is None:
                    raise Unsupported('loop pointer starting at null')
                ix = self.fresh('ix_' + ins['id'], 64)
                s = o.stride or self.guess_stride(ins['id']) or 1
                L.ptrphi[ins['id']] = (o, off, s)
                L.sym[ins['id']] = ix
                self.env[ins['id']] = Ptr.one(o, off.add(lin(ix).scale(s)))
            elif isinstance(v, list):
                raise Unsupported('aggregate loop value')
            else:
                x = self.fresh('ph_' + ins['id'], v.size())
                L.sym[ins['id']] = x
                self.env[ins['id']] = x
        L.entry_mem = dict(st)
        L.havoc = {}
        for oid, o in objs.items():
            self.havoc_obj(L, o, st)
        if err:
            e = self.fresh_bool('err')
            L.havoc['$err'] = e
            st['$err'] = e
        L.head_mem = dict(st)

    def guess_stride(self, vid):
        for b in self.fn['blocks']:
            for ins in b['ins']:
                if ins['op'] in ('load', 'store'):
                    p = ins['ops'][0] if ins['op'] == 'load' else ins['ops'][1]
                    if p == vid:
                        t = ins['t'] if ins['op'] == 'load' else ins['vt']
                        try:
                            return (width(t) + 7) // 8
                        except Unsupported:
                            return None
        return None

    def havoc_obj(self, L, o, st):
        if o.readonly or o.kind in ('ctx', 'undef', 'fnptr'):
            return
        if o.kind == 'opaque':
            m = st.get(o.id, self.mem0.get(o.id))
            if m is not None and hasattr(m, 'havoc'):
                h = m.havoc(self)
                st[o.id] = h
                L.havoc[o.id] = h
            return
        if o.kind in ('alloc', 'heap') and o.stride is None:
            # layout not known yet: find it from the loop's own accesses
            s = (o.hint, [(0, 8 * o.hint, False)]) if getattr(o, "hint", None) else self.guess_layout(L, o)
            if s is None:
                raise Unsupported('loop writes an untyped block %r' % o)
            o.layout(*s)
            self.init_alloc(o)
        m = self.mem_of(st, o)
        if isinstance(m, Cells):
            d = {}
            for k, (w, v) in m.d.items():
                if is_ptr(v):
                    # pointer cells: kept only if the loop leaves them alone (checked at the back edge)
                    d[k] = (w, v)
                else:
                    d[k] = (w, self.fresh('cell%d_%d' % (o.id, k), w))
            st[o.id] = Cells(d)
            L.havoc[o.id] = st[o.id]
            return
        d = {}
        for fo, w, isptr in o.fields:
            if isptr:
                d[fo] = self.havoc_ptr_column(L, o, fo)
            else:
                f = self.fresh_fn('H%d_%d' % (o.id, fo), w)
                d[fo] = Base(f)
        st[o.id] = d
        L.havoc[o.id] = d

    def havoc_ptr_column(self, L, o, fo):
        raise Unsupported('loop writes pointers into %r' % o)

    def guess_layout(self, L, o):
        ws = set()
        for b in self.fn['blocks']:
            for ins in b['ins']:
                p = None
                if ins['op'] == 'store':
                    p, t = ins['ops'][1], ins['vt']
                elif ins['op'] == 'load':
                    p, t = ins['ops'][0], ins['t']
                if p is None:
                    continue
                for r in self.roots(p, set(), None):
                    q = self.env.get(r[1]) if len(r) > 1 else None
                    if is_ptr(q) and any(x[1] is o for x in q.alts):
                        if isinstance(t, str):
                            ws.add((width(t) + 7) // 8)
        if len(ws) == 1:
            w = ws.pop()
            return (w, [(0, 8 * w, False)])
        return None

    def close_loop(self, L):
        for p in self.preds[L.header]:
            if p not in L.blocks or (p, L.header) not in self.edge:
                continue
            g, st = self.edge[(p, L.header)]
            if is_false(g):
                continue
            phis = {}
            for ins in self.blocks[L.header]['ins']:
                if ins['op'] != 'phi':
                    break
                v = [x for x, pb in ins['in'] if pb == p][0]
                v = self.val(v)
                if ins['id'] in L.ptrphi:
                    o, off, s = L.ptrphi[ins['id']]
                    if len(v.alts) != 1 or v.alts[0][1] is not o:
                        raise Unsupported('loop pointer changes its base')
                    d = v.alts[0][2].add(off, -1).div(s)
                    if d is None:
                        raise Unsupported('loop pointer moves by a partial element')
                    v = d.term()
                phis[ins['id']] = v
            for oid, h in L.havoc.items():
                if isinstance(h, Cells):
                    m = st.get(oid)
                    for k, (w, v) in h.d.items():
                        if is_ptr(v) and (m.d.get(k, (0, None))[1] is not v):
                            raise Unsupported('pointer cell changes in a loop')
            # memory written in the loop must have been havocked
            for oid in set(st) | set(L.head_mem):
                if oid in L.havoc or oid == '$err' and '$err' in L.havoc:
                    continue
                a, b = st.get(oid), L.head_mem.get(oid)
                if b is None:
                    if oid in self.mem0 and oid not in [o.id for o in self.allocs if getattr(o, 'inloop', None) and L.header in o.inloop]:
                        b = self.mem0[oid]
                    else:
                        continue
                if a is None:
                    continue
                if a is not b and not self.same_mem(a, b):
                    raise Unsupported('loop writes memory that was not havocked')
            L.backs.append((g, phis, st, p))

    def same_mem(self, a, b):
        if isinstance(a, Cells) and isinstance(b, Cells):
            return all(k in a.d and (a.d[k][1] is b.d[k][1] or (not is_ptr(a.d[k][1]) and not is_ptr(b.d[k][1]) and not isinstance(a.d[k][1], list) and a.d[k][1].eq(b.d[k][1]))) for k in b.d)
        if isinstance(a, dict) and isinstance(b, dict):
            return all(a[k] is b[k] for k in b)
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return a.eq(b)
        return False

    def set_edge(self, b, s, g, st):
        if (b, s) in self.edge:
            g0, st0 = self.edge[(b, s)]
            self.edge[(b, s)] = (Or(g0, g), st0)
        else:
            self.edge[(b, s)] = (g, st)

    def block(self, b, g, st, ins_edges):
        hdr = b in self.loops
        for ins in self.blocks[b]['ins']:
            op = ins['op']
            if op == 'phi':
                if not hdr:
                    self.env[ins['id']] = self.phi_merge(ins, ins_edges)
                continue
            if op == 'br':
                if 'cond' in ins:
                    c = bv2b(self.val(ins['cond']))
                    # br succ order: [true, false]
                    self.set_edge(b, ins['succ'][0], And(g, c), st)
                    self.set_edge(b, ins['succ'][1], And(g, Not(c)), st)
                else:
                    self.set_edge(b, ins['succ'][0], g, st)
                return
            if op == 'switch':
                c = self.val(ins['cond'])
                nots = []
                for cv, tgt in ins['cases']:
                    e = bv2b(c == self.val(cv)) if not z3.is_bool(c) else (c if num(self.val(cv)) else Not(c))
                    self.set_edge(b, tgt, And(g, e), st)
                    nots.append(Not(e))
                self.set_edge(b, ins['default'], And(g, *nots), st)
                return
            if op == 'ret':
                v = self.val(ins['ops'][0]) if ins['ops'] else None
                self.rets.append((g, v, st))
                return
            if op == 'unreachable':
                self.oblige('unreachable', 'control never gets here', g, FALSE)
                return
            v = self.exec(ins, g, st, b)
            if 'id' in ins:
                self.env[ins['id']] = v
            if op == 'invoke':
                self.set_edge(b, ins['normal'], g, st)
                return

    def arith(self, op, ins, a, b, g):
        w = a.size()
        if op == 'add':
            return add(a, b) if w == 64 or isnum(a) or isnum(b) else a + b
        if op == 'sub':
            return sub(a, b) if w == 64 or isnum(b) else a - b
        if op == 'mul':
            return heavy('mul', a, b)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if not (isnum(b) and num(b) != 0):
                self.oblige('arith', '%s by zero' % op, g, b != bv(0, w))
            if op in ('sdiv', 'srem') and not (isnum(b) and num(b) != (1 << w) - 1):
                self.oblige('arith', '%s overflow' % op, g, Not(And(a == bv(1 << (w - 1), w), b == bv((1 << w) - 1, w))))
            return heavy(op, a, b)
        if op == 'and':
            if isnum(b) and num(b) == 0:
                return b
            return a & b
        if op == 'or':
            if ins.get('disj'):
                self.oblige('arith', 'disjoint or', g, (a & b) == bv(0, w))
                if z3.Z3_OP_CONCAT in (a.decl().kind(), b.decl().kind()):
                    return a | b
                return add(a, b)
            return a | b
        if op == 'xor':
            return a ^ b
        if op in ('shl', 'lshr', 'ashr'):
            if not (isnum(b) and num(b) < w):
                self.oblige('arith', 'shift amount', g, z3.ULT(b, bv(w, w)))
            if op == 'shl':
                return shl(a, num(b)) if isnum(b) and num(b) < w else a << b
            return z3.LShR(a, b) if op == 'lshr' else a >> b
        raise Unsupported(op)

    def exec(self, ins, g, st, blk):
        op = ins['op']
        ops = ins.get('ops')
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            a, b = self.val(ops[0]), self.val(ops[1])
            if is_ptr(a) or is_ptr(b):
                raise Unsupported('arithmetic on pointer values')
            if isinstance(a, tuple) or isinstance(b, tuple):
                return self.ptrint(op, a, b, g)
            if not isinstance(a, z3.ExprRef) or not isinstance(b, z3.ExprRef):
                raise Unsupported('vector arithmetic')
            if a.size() == 1:
                x, y = bv2b(a), bv2b(b)
                r = {'and': lambda: And(x, y), 'or': lambda: Or(x, y), 'xor': lambda: self.bxor(x, y),
                     'add': lambda: self.bxor(x, y), 'sub': lambda: self.bxor(x, y), 'mul': lambda: And(x, y)}[op]()
                return b2bv(r)
            return self.arith(op, ins, a, b, g)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = self.val(ops[0]), self.val(ops[1])
            return fop(op, a.size(), a, b)
        if op == 'fneg':
            a = self.val(ops[0])
            return a ^ bv(1 << (a.size() - 1), a.size())
        if op == 'icmp':
            return b2bv(self.icmp(ins, g, blk))
        if op == 'fcmp':
            return b2bv(fcmp(ins['pred'], self.val(ops[0]), self.val(ops[1])))
        if op == 'select':
            c = bv2b(self.val(ops[0]))
            return ite(c, self.val(ops[1]), self.val(ops[2]))
        if op == 'zext':
            a = self.val(ops[0])
            return zext(a, width(ins['t']))
        if op == 'sext':
            a = self.val(ops[0])
            return sext(a, width(ins['t']))
        if op == 'trunc':
            a = self.val(ops[0])
            if isinstance(a, tuple):
                raise Unsupported('truncated pointer')
            return trunc(a, width(ins['t']))
        if op in ('fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc'):
            a = self.val(ops[0])
            return conv(op, a, width(ins['t']))
        if op in ('bitcast', 'freeze'):
            return self.val(ops[0])
        if op == 'getelementptr':
            return self.gep(self.val(ins['base']), ins['gep'])
        if op == 'alloca':
            o = Obj('alloca', ins['id'], bv(ins['size'], 64))
            t = ins['at']
            if isinstance(t, dict) and 'a' in t and isinstance(t['a'], str) and t['a'] != 'ptr' and t['n'] > 4:
                o.layout(t['es'], [(0, t['es'] * 8, False)])
                self.init_alloc(o)
            elif isinstance(t, dict) and 's' in t and not self.plain(t):
                o.kind = 'opaque'
            else:
                self.mem0[o.id] = Cells()
            return Ptr.one(o)
        if op == 'load':
            return self.load(st, self.val(ops[0]), ins['t'], g)
        if op == 'store':
            self.store(st, self.val(ops[1]), self.val(ops[0]), ins['vt'], g)
            return None
        if op == 'extractvalue':
            a = self.val(ops[0])
            for i in ins['idx']:
                a = a[i]
            return a
        if op == 'insertvalue':
            a, v = self.val(ops[0]), self.val(ops[1])
            return self.insert(a, ins['idx'], v)
        if op == 'ptrtoint':
            return ('pi', self.val(ops[0]))
        if op in ('call', 'invoke'):
            return self.call(ins, g, st, blk)
        raise Unsupported('instruction ' + op)

    def plain(self, t):
        if isinstance(t, str):
            return True
        if 's' in t:
            return all(self.plain(x) for x in t['s']) and len(t['s']) <= 4
        return False

    def bxor(self, x, y):
        if is_true(x):
            return Not(y)
        if is_true(y):
            return Not(x)
        if is_false(x):
            return y
        if is_false(y):
            return x
        return z3.Xor(x, y)

    def insert(self, a, idx, v):
        a = list(a)
        if len(idx) == 1:
            a[idx[0]] = v
        else:
            a[idx[0]] = self.insert(a[idx[0]], idx[1:], v)
        return a

    def ptrint(self, op, a, b, g):
        if op == 'sub' and isinstance(a, tuple) and isinstance(b, tuple):
            pa, pb = a[1], b[1]
            r = None
            for c1, o1, l1 in pa.alts:
                for c2, o2, l2 in pb.alts:
                    c = And(c1, c2)
                    if is_false(c):
                        continue
                    if o1 is not o2:
                        if o1 is None or o2 is None:
                            d = self.fresh('pdiff', 64)
                        else:
                            raise Unsupported('difference of pointers into different blocks')
                    else:
                        d = l1.add(l2, -1).term()
                    r = d if r is None else If(c, d, r)
            return r
        raise Unsupported('integer arithmetic on a pointer')

    def icmp(self, ins, g, blk):
        a, b = self.val(ins['ops'][0]), self.val(ins['ops'][1])
        pred = ins['pred']
        if isinstance(a, tuple):
            a = a[1]
        if isinstance(b, tuple):
            b = b[1]
        if is_ptr(a) and is_ptr(b):
            return self.pcmp(pred, a, b, g)
        if is_ptr(a) or is_ptr(b):
            raise Unsupported('pointer compared with an integer')
        for L in self.loops_of[blk]:
            L.cmps.append((pred, a, b))
        if a.size() == 1 and pred in ('eq', 'ne'):
            x, y = bv2b(a), bv2b(b)
            r = self.bxor(x, y)
            return r if pred == 'ne' else Not(r)
        return icmp(pred, a, b)

    def isnull(self, o):
        if o is None:
            return TRUE
        if o.kind in ('alloca', 'global', 'ctx', 'fnptr', 'opaque'):
            return FALSE
        f = getattr(o, 'nullb', None)
        if f is None:
            f = self.fresh_bool('null_' + o.name)
            o.nullb = f
            if o.size is not None:
                # a block with at least one byte is not null
                self.facts.append(Implies(o.size != bv(0, 64), Not(f)))
        return f

    def same_addr(self, o1, l1, o2, l2):
        """may pointers into two different blocks be equal?"""
        solid = ('alloca', 'global', 'ctx', 'fnptr')
        if o1.kind in solid and o2.kind in solid:
            return FALSE
        if not (l1.is_const() and l1.c == 0 and l2.is_const() and l2.c == 0):
            return self.fresh_bool('ucmp')    # one past the end of one block may be the start of the other
        k = (min(o1.id, o2.id), max(o1.id, o2.id))
        d = self.__dict__.setdefault('aliases', {})
        if k in d:
            return d[k]
        if o1.kind == 'operand' and o2.kind == 'operand':
            e = self.fresh_bool('same_%s_%s' % (o1.name, o2.name))
            m1, m2 = self.mem0.get(o1.id), self.mem0.get(o2.id)
            if isinstance(m1, dict) and isinstance(m2, dict) and o1.fields == o2.fields and 0 in m1 and \
                    isinstance(m1[0], Base) and isinstance(m2[0], Base):
                # the caller passed the same list twice
                f1, f2 = m1[0], m2[0]
                self.qfacts.append(QFact(lambda x: Implies(And(e, z3.ULT(x, o1.count), z3.ULT(x, o2.count)),
                                                           f1.sel(x) == f2.sel(x)),
                                         (f1.uf.get_id(), f2.uf.get_id()), None, 1, 2))
        elif o1.kind == 'undef' or o2.kind == 'undef':
            e = self.fresh_bool('ucmp')
        else:
            e = self.fresh_bool('ucmp')
            self.facts.append(Implies(e, And(self.isnull(o1), self.isnull(o2))))
        d[k] = e
        return e

    def pcmp(self, pred, a, b, g):
        r = []
        for c1, o1, l1 in a.alts:
            for c2, o2, l2 in b.alts:
                c = And(c1, c2)
                if is_false(c):
                    continue
                if o1 is o2:
                    if pred in ('eq', 'ne'):
                        s = (o1.stride if o1 is not None else None) or 1
                        d = l1.add(l2, -1)
                        ds = d.div(s)
                        ee = TRUE if d.is_const() and d.c == 0 else FALSE if d.is_const() else None
                        if ee is None:
                            la, lb = l1.div(s), l2.div(s)
                            if s > 1 and la is not None and lb is not None and o1.count is not None:
                                # element indices of one block: equal addresses mean equal indices (no wrap: block < 2^63)
                                x, y = la.term(), lb.term()
                                ee = x == y
                                for L in self.cur_loops:
                                    L.cmps.append((pred, x, y))
                            else:
                                x, y = l1.term(), l2.term()
                                ee = x == y
                                for L in self.cur_loops:
                                    L.cmps.append((pred, x, y))
                        e = ee if pred == 'eq' else Not(ee)
                    else:
                        s = (o1.stride if o1 is not None else None) or 1
                        la, lb = l1.div(s), l2.div(s)
                        if s > 1 and la is not None and lb is not None:
                            x, y = la.term(), lb.term()
                        else:
                            x, y = l1.term(), l2.term()
                        for L in self.cur_loops:
                            L.cmps.append((pred, x, y))
                        e = icmp(pred, x, y)
                elif pred in ('eq', 'ne'):
                    if o1 is None or o2 is None:
                        o, l = (o2, l2) if o1 is None else (o1, l1)
                        e = self.isnull(o) if l.is_const() and l.c == 0 else FALSE
                        if not (l.is_const() and l.c == 0):
                            # pointer arithmetic on a null base only with offset 0
                            e = And(self.isnull(o), l.term() == bv(0, 64))
                    else:
                        e = self.same_addr(o1, l1, o2, l2)
                    e = e if pred == 'eq' else Not(e)
                else:
                    raise Unsupported('ordering of pointers into different blocks')
                r.append(And(c, e))
        return Or(*r)

    # ------------------------------------------------------------ calls
    def call(self, ins, g, st, blk):
        fnn = ins.get('fn')
        if fnn is None:
            raise Unsupported('indirect call')
        args = None
        if fnn.startswith('llvm.'):
            return self.intrinsic(fnn, ins, g, st)
        args = [self.val(a) for a in ins['args']]
        return self.boundary(self, ins, args, g, st, blk)

    def intrinsic(self, n, ins, g, st):
        if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.stacksave',
                         'llvm.stackrestore')):
            return None
        a = [self.val(x) for x in ins['args'][:3]]
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            self.memcpy(st, a[0], a[1], zext(a[2], 64), g)
            return None
        if n.startswith('llvm.memset'):
            self.memset(st, a[0], a[1], zext(a[2], 64), g)
            return None
        base = n.split('.')[1]
        if base in ('umin', 'umax', 'smin', 'smax'):
            p = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[base]
            return If(icmp(p, a[0], a[1]), a[0], a[1])
        if base == 'abs':
            return If(a[0] < bv(0, a[0].size()), -a[0], a[0])
        if base == 'ctpop':
            return popcount(a[0])
        if base == 'bswap':
            w = a[0].size()
            return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a[0]) for i in range(w // 8)])
        if base in ('fshl', 'fshr'):
            w = a[0].size()
            s = z3.URem(a[2], bv(w, w)) if not isnum(a[2]) else bv(num(a[2]) % w, w)
            cc = z3.Concat(a[0], a[1])
            if isnum(s):
                k = num(s)
                if k and a[0].eq(a[1]):
                    return rotl(a[0], k if base == 'fshl' else w - k)
                if base == 'fshl':
                    return z3.Extract(2 * w - 1 - k, w - k, cc)
                return z3.Extract(w - 1 + k, k, cc)
            raise Unsupported('variable funnel shift')
        if base == 'uadd' and '.sat' in n:
            w = a[0].size()
            s = a[0] + a[1]
            return If(z3.ULT(s, a[0]), bv((1 << w) - 1, w), s)
        if base == 'usub' and '.sat' in n:
            w = a[0].size()
            return If(z3.ULT(a[0], a[1]), bv(0, w), a[0] - a[1])
        if '.with.overflow' in n:
            w = a[0].size()
            if base == 'umul':
                r = heavy('mul', a[0], a[1])
                o = Not(z3.BVMulNoOverflow(a[0], a[1], False))
                return [r, b2bv(o)]
            if base == 'uadd':
                r = add(a[0], a[1])
                return [r, b2bv(z3.ULT(r, a[0]))]
            if base == 'usub':
                return [sub(a[0], a[1]), b2bv(z3.ULT(a[0], a[1]))]
            raise Unsupported(n)
        if base == 'fabs':
            w = a[0].size()
            return a[0] & bv((1 << (w - 1)) - 1, w)
        if base == 'expect':
            return a[0]
        if base in MATHI:
            t = ins['t']
            return fop(base, width(t), *a[:len(ins['args'])])
        if base == 'is' and 'constant' in n:
            return bv(0, 1)
        if base == 'ctlz' or base == 'cttz':
            x = a[0]
            w = x.size()
            r = bv(w, w)
            rng = range(w) if base == 'ctlz' else range(w - 1, -1, -1)
            for i in rng:
                r = If(z3.Extract(i, i, x) == bv(1, 1), bv(w - 1 - i if base == 'ctlz' else i, w), r)
            return r
        raise Unsupported('intrinsic ' + n)


MATHI = {'floor', 'ceil', 'round', 'trunc', 'sqrt', 'exp', 'exp2', 'log', 'log2', 'log10', 'sin', 'cos', 'tan', 'pow',
         'fma', 'fmuladd', 'minnum', 'maxnum', 'minimum', 'maximum', 'copysign', 'rint', 'nearbyint', 'roundeven', 'powi'}


def popcount(x):
    w = x.size()
    if w < 8:
        x = zext(x, 8)
    W = x.size()
    r = None
    for lo in range(0, W, 8):
        p = pop8(extract(lo + 7, lo, x))
        r = zext(p, W) if r is None else r + zext(p, W)
    return trunc(r, w) if W != w else r


def pop8(b):
    """number of set bits of a byte: a heavy operator, exact on the second attempt"""
    if isnum(b):
        return bv(bin(num(b)).count('1'), 8)
    f = uf('pop8', BV(8), BV(8))
    HEAVY[f.get_id()] = 'pop8'
    return f(b)


def pop8x(b):
    parts = [z3.ZeroExt(7, extract(i, i, b)) for i in range(8)]
    while len(parts) > 1:
        parts = [parts[i] + parts[i + 1] for i in range(0, len(parts), 2)]
    return parts[0]


EXACT['pop8'] = pop8x


def conv_axioms(eng):
    """exact facts about the integer-to-float conversions of 0 and 1"""
    for w in (32, 64):
        one = bv(0x3f800000 if w == 32 else 0x3ff0000000000000, w)
        for k in ('sitofp', 'uitofp'):
            f = uf('%s_%d' % (k, w), BV(64), BV(w))
            eng.folds[f.get_id()] = (f, (lambda x, f=f, w=w, one=one: [
                Implies(x == bv(0, 64), f(x) == bv(0, w)), Implies(x == bv(1, 64), f(x) == one)]), 3)


def conv(op, a, w):
    """numeric conversions involving floating point: uninterpreted, keyed by kind and widths"""
    if op in ('sitofp', 'uitofp'):
        # widen to 64 bits first: the value is the same, so one function per signedness serves every source width
        if a.size() < 64:
            a = sext(a, 64) if op == 'sitofp' else zext(a, 64)
            if op == 'uitofp':
                op = 'sitofp'    # a zero-extended narrower value is non-negative: both conversions agree
        return uf('%s_%d' % (op, w), BV(64), BV(w))(a)
    if op in ('fptosi', 'fptoui'):
        # converted at 64 bits and truncated: agrees with the direct conversion whenever that one is defined
        if w < 64:
            op = 'fptosi'
        return trunc(uf('%s_%d' % (op, a.size()), BV(a.size()), BV(64))(a), w)
    if op == 'fpext':
        return uf('fpext', BV(32), BV(64))(a)
    if op == 'fptrunc':
        return uf('fptrunc', BV(64), BV(32))(a)
    raise Unsupported(op)
