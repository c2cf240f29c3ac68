"""Contracts of the comparison, bitmap and conditional-select builtins (C02)."""
from kernel import Contract
from specs.c01 import tag
import z3
from smt import *
import engine as E

CMP = {'Large': 'gt', 'LargeEqual': 'ge', 'Equal': 'eq', 'Less': 'lt', 'LessEqual': 'le', 'NotEqual': 'ne'}


def nbytes(O, n):
    """ceil(n/8) of a 64-bit index"""
    return O.idiv(O.iadd(n, O.idx(7)), 8)


def bit_of(O, bm, k):
    return O.bit(bm.at(O.idiv(k, 8)), O.imod(k, 8))


class IfCmp(Contract):
    def __init__(self, reg, op):
        super().__init__(reg)
        self.op, self.T = op, tag(reg.params[0])

    def length(self, O, A):
        return A[0].len

    def elem(self, O, A, k):
        return O.ite(O.cmp(self.op, self.T, A[0].at(k), A[1].v), A[2].v, A[0].at(k))


class IfBitmap(Contract):
    def __init__(self, reg):
        super().__init__(reg)
        self.l = reg.params[1].endswith('list')
        self.r = reg.params[2].endswith('list')
        self.T = tag(reg.params[1])

    def shape(self, A):
        return A[1] if self.l else A[2]

    def err(self, O, A):
        e = O.not_(O.ile(nbytes(O, self.shape(A).n), A[0].n))
        if self.l and self.r:
            e = O.or_(O.not_(O.eqv(A[1].len, A[2].len)), e)
        return e

    def length(self, O, A):
        return self.shape(A).len

    def elem(self, O, A, k):
        a = A[1].at(k) if self.l else A[1].v
        b = A[2].at(k) if self.r else A[2].v
        return O.ite(bit_of(O, A[0], k), a, b)

    def stages(self, O, A):
        # the bit itself, as a number of the element type
        return {'bit': lambda k, b: O.ite(bit_of(O, A[0], k), O.const(self.T, 1), O.const(self.T, 0))}


class GenBitmap(Contract):
    lanes = True

    def __init__(self, reg, op):
        super().__init__(reg)
        self.op, self.T = op, tag(reg.params[0])
        self.two = reg.params[1].endswith('list')

    def holds(self, O, A, i):
        b = A[1].at(i) if self.two else A[1].v
        return O.cmp(self.op, self.T, A[0].at(i), b)

    def err(self, O, A):
        return O.not_(O.eqv(A[0].len, A[1].len)) if self.two else O.false

    def length(self, O, A):
        return O.u32(nbytes(O, A[0].n))

    def byte(self, O, A, base, end):
        """bits of positions base..base+7 that are below end"""
        bs = []
        for l in range(8):
            i = O.iadd(base, O.idx(l))
            bs.append(O.and_(O.ilt(i, end), O.lazy(O.ilt(i, end), lambda: self.holds(O, A, i))))
        return O.bits('u8', *bs)

    def elem(self, O, A, k):
        return self.byte(O, A, O.imul(k, 8), A[0].n)

    def prefix2(self, O, A):
        return {'byte': lambda x, y: self.byte(O, A, x, y)}


class Filter(Contract):

    def __init__(self, reg):
        super().__init__(reg)
        self.T = tag(reg.params[0])

    def select(self, O, A):
        return (lambda i: bit_of(O, A[1], i)), (lambda i: A[0].at(i)), A[0].n

    def select_lemmas(self, kc):
        self.count(kc.O, kc.A, bv(0, 64))
        # kept(x) = kept(8*(x/8)) + number of set bits below position x of byte x/8 (by induction on x)
        f = kc.eng.foldfns['kept'][0]
        bm = kc.A[1]

        def base(x):
            return norm(lin(z3.LShR(x, 3)).scale(8).term())

        def P(x):
            b = bm.at(z3.LShR(x, 3))
            low = z3.ZeroExt(56, b) & ((bv(1, 64) << (x & bv(7, 64))) - bv(1, 64))
            return f(x) == f(base(x)) + z3.ZeroExt(56, E.pop8(trunc(low, 8)))

        def aligned(x):
            return lin(x).div(8) is not None

        def full(x):
            k = base(x)
            return f(add(k, bv(8, 64))) == f(k) + z3.ZeroExt(56, E.pop8(bm.at(z3.LShR(x, 3))))
        kc.lemma('kept within a byte', P, (f.get_id(),), skip=aligned)
        kc.lemma_from('kept over a byte', lambda x: [P(add(base(x), bv(7, 64)))], full, (f.get_id(),))
        super().select_lemmas(kc)

    def tail_ok(self, O, A):
        """no bit set at or beyond the list's length"""
        n = A[0].n
        last = O.isub(nbytes(O, n), O.idx(1))
        valid = O.imod(n, 8)
        r = O.true
        for j in range(1, 8):
            c = O.and_(O.not_(O.ieq(valid, O.idx(0))), O.ile(valid, O.idx(j)))
            r = O.and_(r, O.or_(O.not_(c), O.lazy(c, lambda: O.not_(O.bit(A[1].at(last), O.idx(j))))))
        return r

    def err(self, O, A):
        bad = O.not_(O.eqv(nbytes(O, A[0].n), A[1].n))
        return O.or_(bad, O.lazy(O.not_(bad), lambda: O.or_(
            O.not_(self.tail_ok(O, A)),
            O.not_(O.eqv(self.count(O, A, A[0].n), O.idx(A[2].v))))))

    def length(self, O, A):
        return O.u32(self.count(O, A, A[0].n))


def contract(reg):
    if reg.kind != 2:
        return None
    n = reg.name
    if n.startswith('If') and n[2:] in CMP:
        return IfCmp(reg, CMP[n[2:]])
    if n == 'IfByBitmap':
        return IfBitmap(reg)
    if n.startswith('Gen') and n.endswith('Bitmap') and n[3:-6] in CMP:
        return GenBitmap(reg, CMP[n[3:-6]])
    if n == 'FilterByBitmap':
        return Filter(reg)
    return None
