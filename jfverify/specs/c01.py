"""Contracts of the list arithmetic builtins (C01)."""
from kernel import Contract
from ops import isf, iss

NAMES = {'ListAdd': 'add', 'ListSub': 'sub', 'ListMul': 'mul', 'ListDiv': 'div', 'ListMod': 'mod',
         'ListBitwiseAnd': 'and', 'ListBitwiseOr': 'or', 'ListBitwiseXor': 'xor'}
UNARY = {'ListExp': 'exp', 'ListLog': 'log', 'ListLog2': 'log2', 'ListLog10': 'log10', 'ListCeil': 'ceil',
         'ListFloor': 'floor', 'ListRound': 'round'}


def tag(p):
    return p[:-4] if p.endswith('list') else p


class Bin(Contract):
    """elementwise a[i] op b  /  a[i] op b[i]"""

    def __init__(self, reg, op):
        super().__init__(reg)
        self.op = op
        self.T = tag(reg.params[0])
        self.two = reg.params[1].endswith('list')

    def rhs(self, A, k):
        return A[1].at(k) if self.two else A[1].v

    def pre(self, O, A):
        # division: documented C semantics, the divisor must not be zero (nor INT_MIN / -1)
        if self.op in ('div', 'mod') and not isf(self.T):
            # (a scalar divisor is checked once, whatever the elements are)
            return ([O.or_(O.ieq(A[0].n, 0), O.not_(O.eqv(A[1].v, O.const(self.T, 0))))] if not self.two else []) + [
                O.forall_elems('div', lambda k: self.div_ok(O, A, k), [A[0]] + ([A[1]] if self.two else []),
                                   A[0].n)]
        return []

    safety_pre = pre

    def div_ok(self, O, A, k):
        T = self.T
        a, b = A[0].at(k), self.rhs(A, k)
        ok = O.not_(O.eqv(b, O.const(T, 0)))
        if iss(T):
            mn = O.const(T, -(1 << (int(T[1:]) - 1)))
            ok = O.and_(ok, O.not_(O.and_(O.eqv(a, mn), O.eqv(b, O.const(T, -1)))))
        return ok

    def err(self, O, A):
        if self.two:
            return O.not_(O.eqv(A[0].len, A[1].len))
        return O.false

    def length(self, O, A):
        return A[0].len

    def elem(self, O, A, k):
        return O.bin(self.op, self.T, A[0].at(k), self.rhs(A, k))


class MinMax(Contract):
    """the larger / smaller operand under the type's own ordering (the list element when they are equal)"""

    def __init__(self, reg, op):
        super().__init__(reg)
        self.op = op
        self.T = tag(reg.params[0])

    def length(self, O, A):
        return A[0].len

    def elem(self, O, A, k):
        a, b = A[0].at(k), A[1].v
        if self.op == 'max':
            return O.ite(O.cmp('lt', self.T, a, b), b, a)
        return O.ite(O.cmp('lt', self.T, b, a), b, a)


class Unary(Contract):
    def __init__(self, reg, f):
        super().__init__(reg)
        self.f = f
        self.T = tag(reg.params[0])
        self.R = tag(reg.ret)

    def length(self, O, A):
        return A[0].len

    def elem(self, O, A, k):
        return O.fn(self.f, self.R, O.cvt(self.T, self.R, A[0].at(k)))


def contract(reg):
    if reg.kind != 2:
        return None
    if reg.name in NAMES:
        return Bin(reg, NAMES[reg.name])
    if reg.name in UNARY:
        return Unary(reg, UNARY[reg.name])
    if reg.name in ('ListMax', 'ListMin'):
        return MinMax(reg, reg.name[4:].lower())
    return None
