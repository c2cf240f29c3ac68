"""Operations the contracts are written with. ZOps builds terms (proof), POps computes (replay oracle):
one contract text, two readings."""
import math, struct, ctypes
import z3
from smt import *
import engine as E

WID = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'f32': 32, 'f64': 64}


def isf(T):
    return T[0] == 'f'


def iss(T):
    return T[0] == 'i'


class ZOps:
    concrete = False

    def __init__(self, eng):
        self.eng = eng
        self.foldc = {}

    def const(self, T, v):
        if isf(T):
            return bv(struct.unpack('<I', struct.pack('<f', v))[0] if T == 'f32' else
                      struct.unpack('<Q', struct.pack('<d', v))[0], WID[T])
        return bv(v & ((1 << WID[T]) - 1), WID[T])

    true, false = TRUE, FALSE

    def idx(self, v):
        return bv(v, 64) if isinstance(v, int) else zext(v, 64)

    def u32(self, v):
        return trunc(v, 32) if not isinstance(v, int) else bv(v, 32)

    def and_(self, *a):
        return And(*a)

    def or_(self, *a):
        return Or(*a)

    def not_(self, a):
        return Not(a)

    def ite(self, c, a, b):
        return E.ite(c, a, b)

    def eqv(self, a, b):
        return a == b

    def bin(self, op, T, a, b):
        w = WID[T]
        if isf(T):
            return fop({'add': 'fadd', 'sub': 'fsub', 'mul': 'fmul', 'div': 'fdiv', 'mod': 'frem'}[op], w, a, b)
        if op == 'add':
            return add(a, b) if w == 64 else a + b
        if op == 'sub':
            return sub(a, b) if w == 64 else a - b
        if op == 'mul':
            return heavy('mul', a, b)
        if op in ('div', 'mod'):
            if iss(T):
                o = 'sdiv' if op == 'div' else 'srem'
                if w < 32:
                    return trunc(heavy(o, sext(a, 32), sext(b, 32)), w)
                return heavy(o, a, b)
            return heavy('udiv' if op == 'div' else 'urem', a, b)
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        raise KeyError(op)

    def eqv(self, a, b):
        return a == b

    def cmp(self, op, T, a, b):
        """op in lt le gt ge eq ne"""
        if isf(T):
            return fcmp({'lt': 'olt', 'le': 'ole', 'gt': 'ogt', 'ge': 'oge', 'eq': 'oeq', 'ne': 'une'}[op], a, b)
        if op in ('eq', 'ne'):
            return a == b if op == 'eq' else a != b
        return icmp(('s' if iss(T) else 'u') + op, a, b)

    def bitop(self, op, a, b):
        return {'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b}[op]()

    def shift(self, op, T, a, n):
        return a << n if op == 'shl' else a >> n if iss(T) else z3.LShR(a, n)

    def in_range(self, T, v, w):
        """unsigned v < w"""
        return z3.ULT(v, bv(w, WID[T]))

    def divw(self, op, T, a, b):
        return heavy(('s' if iss(T) else 'u') + ('div' if op == 'div' else 'rem'), a, b)

    def fn(self, name, T, *args):
        return fop(name, WID[T], *args)

    def cvt(self, F, T, a):
        wf, wt = WID[F], WID[T]
        if isf(F) and isf(T):
            return a if wf == wt else E.conv('fpext' if wf < wt else 'fptrunc', a, wt)
        if isf(F):
            return E.conv('fptosi' if iss(T) else 'fptoui', a, wt)
        if isf(T):
            return E.conv('sitofp' if iss(F) else 'uitofp', a, wt)
        if wt <= wf:
            return trunc(a, wt)
        return sext(a, wt) if iss(F) else zext(a, wt)

    # 64-bit index arithmetic
    def iadd(self, a, b):
        return add(a, self.idx(b))

    def isub(self, a, b):
        return sub(a, self.idx(b))

    def imul(self, a, c):
        return lin(a).scale(c).term()

    def idiv(self, a, c):
        return heavy('udiv', a, bv(c, 64))

    def imod(self, a, c):
        return heavy('urem', a, bv(c, 64))

    def ilt(self, a, b):
        return z3.ULT(a, self.idx(b))

    def ile(self, a, b):
        return z3.ULE(a, self.idx(b))

    def ieq(self, a, b):
        return a == self.idx(b)

    def lazy(self, c, f):
        """f() only matters where c holds (the concrete reading does not evaluate it elsewhere)"""
        return f()

    def bits(self, T, *bools):
        """value with bit i set iff bools[i]"""
        w = WID[T]
        r = bv(0, w)
        return z3.Concat(*[b2bv(b) for b in reversed(bools)]) if len(bools) == w else \
            zext(z3.Concat(*[b2bv(b) for b in reversed(bools)]), w)

    def bit(self, a, i):
        """i-th bit (i: 64-bit index term below the width)"""
        if isnum(i):
            return z3.Extract(num(i), num(i), a) == bv(1, 1)
        w = a.size()
        return z3.Extract(0, 0, z3.LShR(a, trunc(i, w) if w < 64 else zext(i, w))) == bv(1, 1)

    def popcount(self, a):
        return E.popcount(a)

    def pop8(self, a):
        return zext(E.pop8(a), 32)

    def bytecmp(self, x, y, n):
        """sign of the comparison of the first n bytes of two strings, as i8"""
        import kernel
        return kernel.bytecmp(self.eng, x.key(), y.key(), n)

    # recursion: F(0)=init, F(n+1)=step(n, F(n)); n is a 64-bit index term
    def fold(self, name, T, init, step, n, extra=(), depth=0):
        w = WID[T] if T != 'bool' else 0
        key = name
        f = self.foldc.get(key)
        if f is None:
            srt = BV(w) if w else z3.BoolSort()
            f = z3.Function('F_' + name, *([x.sort() for x in extra] + [B64, srt]))
            self.foldc[key] = f

            def defn(*args):
                n = args[-1]
                ex = args[:-1]
                if isnum(n):
                    if num(n) == 0:
                        return init(*ex) if callable(init) else init
                    p = bv(num(n) - 1, 64)
                    return step(p, f(*ex, p), *ex)
                p = sub(n, bv(1, 64))
                i = init(*ex) if callable(init) else init
                return If(n == bv(0, 64), i, step(p, f(*ex, p), *ex))
            self.eng.folds[f.get_id()] = (f, defn, depth)
            self.eng.foldfns = getattr(self.eng, 'foldfns', {})
            self.eng.foldfns[name] = (f, w, extra)
        return f(*extra, norm(n))

    def forall_elems(self, name, body, lists, n):
        """assumption: body(k) for every k < n; instantiated wherever one of the lists is read"""
        trig = [l.node.uf.get_id() for l in lists]
        return E.QFact(lambda k: Implies(z3.ULT(k, n), body(k)), trig)


class LArg:
    """a list operand in the contract"""

    def __init__(self, obj, ln, tag):
        self.obj, self.len, self.tag = obj, ln, tag
        self.n = zext(ln, 64)

    def at(self, k):
        return self.node.sel(norm(k))

    def key(self):
        return self.node.uf, self.node.pre, bv(0, 64)

    @property
    def T(self):
        return self.tag


class SArg:
    def __init__(self, v, tag):
        self.v, self.tag = v, tag

    @property
    def T(self):
        return self.tag


# ------------------------------------------------------------------ concrete reading (replay oracle)
class Undefined(Exception):
    """the value is unspecified for these operands: any result is acceptable"""


class _Any:
    def __repr__(self):
        return 'any'


ANY = _Any()
M64 = (1 << 64) - 1
_libm = None


def libm():
    global _libm
    if _libm is None:
        _libm = ctypes.CDLL('libm.so.6')
    return _libm


def tosigned(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def fdec(T, b):
    return struct.unpack('<f', struct.pack('<I', b))[0] if T == 'f32' else struct.unpack('<d', struct.pack('<Q', b))[0]


def fenc(T, x):
    import numpy as np
    with np.errstate(all='ignore'):
        return int(np.float32(x).view(np.uint32)) if T == 'f32' else int(np.float64(x).view(np.uint64))


def isnan(T, b):
    e, m = ((0xff, 23) if T == 'f32' else (0x7ff, 52))
    return (b >> m) & e == e and b & ((1 << m) - 1) != 0


class POps:
    """the same contract, computed on concrete operands (bit patterns as Python integers)"""
    concrete = True
    true, false = True, False

    def __init__(self):
        self.memo = {}
        self.keep = []

    def const(self, T, v):
        return fenc(T, v) if isf(T) else v & ((1 << WID[T]) - 1)

    def idx(self, v):
        return v

    def u32(self, v):
        return v & 0xffffffff

    def and_(self, *a):
        return all(a)

    def or_(self, *a):
        return any(a)

    def not_(self, a):
        return not a

    def ite(self, c, a, b):
        return a if c else b

    def eqv(self, a, b):
        return a == b

    def bin(self, op, T, a, b):
        if a is ANY or b is ANY:
            return ANY
        w = WID[T]
        if isf(T):
            import numpy as np
            t = np.float32 if T == 'f32' else np.float64
            x, y = t(fdec(T, a)), t(fdec(T, b))
            with np.errstate(all='ignore'):
                r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'div': lambda: x / y,
                     'mod': lambda: np.fmod(x, y)}[op]()
            return fenc(T, r)
        M = (1 << w) - 1
        if op == 'add':
            return (a + b) & M
        if op == 'sub':
            return (a - b) & M
        if op == 'mul':
            return (a * b) & M
        if op in ('div', 'mod'):
            if b == 0:
                raise Undefined
            if iss(T):
                x, y = tosigned(a, w), tosigned(b, w)
                if x == -(1 << (w - 1)) and y == -1:
                    raise Undefined
                q = abs(x) // abs(y)
                q = -q if (x < 0) != (y < 0) else q
                return (q if op == 'div' else x - q * y) & M
            return a // b if op == 'div' else a % b
        return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]

    def cmp(self, op, T, a, b):
        if a is ANY or b is ANY:
            raise Undefined
        if isf(T):
            a, b = fdec(T, a), fdec(T, b)
        elif iss(T):
            a, b = tosigned(a, WID[T]), tosigned(b, WID[T])
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[op]

    def bitop(self, op, a, b):
        if a is ANY or b is ANY:
            return ANY
        return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]

    def shift(self, op, T, a, n):
        if a is ANY or n is ANY:
            return ANY
        w = WID[T]
        if n >= w:
            raise Undefined
        if op == 'shl':
            return (a << n) & ((1 << w) - 1)
        return (tosigned(a, w) >> n) & ((1 << w) - 1) if iss(T) else a >> n

    def in_range(self, T, v, w):
        return v is not ANY and v < w

    def divw(self, op, T, a, b):
        return self.bin(op, T, a, b)

    def check(self, pre):
        for g, c in pre:
            if g and not c:
                raise Undefined

    def fn(self, name, T, *args):
        if any(a is ANY for a in args):
            return ANY
        f = getattr(libm(), name + ('f' if T == 'f32' else ''))
        ct = ctypes.c_float if T == 'f32' else ctypes.c_double
        f.restype = ct
        f.argtypes = [ct] * len(args)
        return fenc(T, f(*[fdec(T, a) for a in args]))

    def cvt(self, F, T, a):
        if a is ANY:
            return ANY
        wf, wt = WID[F], WID[T]
        import numpy as np
        with np.errstate(all='ignore'):
            if isf(F) and isf(T):
                return fenc(T, np.float32(fdec(F, a)) if F == 'f32' else np.float64(fdec(F, a)))
            if isf(F):
                x = fdec(F, a)
                if x != x or math.isinf(x):
                    return ANY
                v = int(x)
                lo, hi = (-(1 << (wt - 1)), (1 << (wt - 1)) - 1) if iss(T) else (0, (1 << wt) - 1)
                return v & ((1 << wt) - 1) if lo <= v <= hi else ANY
            v = tosigned(a, wf) if iss(F) else a
            if isf(T):
                src = np.int64(v) if iss(F) else np.uint64(v)
                return int((np.float32 if T == 'f32' else np.float64)(src).view(np.uint32 if T == 'f32' else np.uint64))
            return v & ((1 << wt) - 1)

    def iadd(self, a, b):
        return (a + b) & M64

    def isub(self, a, b):
        return (a - b) & M64

    def imul(self, a, c):
        return (a * c) & M64

    def idiv(self, a, c):
        return a // c

    def imod(self, a, c):
        return a % c

    def ilt(self, a, b):
        return a < b

    def ile(self, a, b):
        return a <= b

    def ieq(self, a, b):
        return a == b

    def lazy(self, c, f):
        return f() if c else False

    def bits(self, T, *bools):
        return sum(1 << i for i, b in enumerate(bools) if b)

    def bit(self, a, i):
        return bool((a >> i) & 1)

    def popcount(self, a):
        return bin(a).count('1')

    pop8 = popcount

    def fold(self, name, T, init, step, n, extra=(), depth=0):
        key = (name,) + tuple(extra)
        st = self.memo.get(key)
        if st is None:
            st = self.memo[key] = [init(*extra) if callable(init) else init]
        while len(st) <= n:
            k = len(st) - 1
            st.append(step(k, st[k], *extra))
        return st[n]

    def forall_elems(self, name, body, lists, n):
        for k in range(n):
            try:
                if not body(k):
                    return False
            except Undefined:
                pass
        return True


class PList:
    def __init__(self, vals, tag):
        self.vals, self.tag, self.T = vals, tag, tag
        self.len = self.n = len(vals)

    def at(self, k):
        if k >= self.len:
            raise Undefined('index %d of %d' % (k, self.len))
        return self.vals[k]


class PStrList:
    tag = T = 'str'

    def __init__(self, vals):
        self.vals = [PList(list(v), 'i8') for v in vals]
        self.len = self.n = len(vals)

    def at(self, k):
        if k >= self.len:
            raise Undefined('index %d of %d' % (k, self.len))
        return self.vals[k]
