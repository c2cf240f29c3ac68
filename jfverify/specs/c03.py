"""Contracts of the aggregations (C03)."""
from kernel import Contract
from ops import WID, isf, iss, Undefined
from smt import *
import engine as E


def tag(p):
    return p[:-4] if p.endswith('list') else p


class Scalar(Contract):
    ret = 'scalar'
    zero_eq = True

    def __init__(self, reg):
        super().__init__(reg)
        self.T, self.R = tag(reg.params[0]), tag(reg.ret)


class Sum(Scalar):
    def acc(self, O, A, n):
        return O.fold('sum', self.R, O.const(self.R, 0), lambda i, r: O.bin('add', self.R, r, O.cvt(self.T, self.R, A[0].at(i))), n)

    def prefix(self, O, A):
        return {'sum': lambda b: self.acc(O, A, b)}

    def value(self, O, A):
        return self.acc(O, A, A[0].n)


class Avg(Sum):
    def value(self, O, A):
        return O.ite(O.ieq(A[0].n, O.idx(0)), O.const('f64', 0.0),
                     O.lazy(O.not_(O.ieq(A[0].n, O.idx(0))), lambda: O.bin('div', 'f64', self.acc(O, A, A[0].n), O.cvt('u32', 'f64', A[0].len))))


def no_nan(O, A, a, T):
    if not isf(T):
        return []
    return [O.forall_elems('no NaN', lambda k: O.cmp('eq', T, a.at(k), a.at(k)), [a], a.n)]


class Extreme(Scalar):
    """the first element no other element beats"""

    def __init__(self, reg, op):
        super().__init__(reg)
        self.op = op

    def pre(self, O, A):
        return no_nan(O, A, A[0], self.T)

    def acc(self, O, A, n):
        def step(i, r):
            x = A[0].at(i)
            if O.concrete:
                return x if i == 0 or O.cmp(self.op, self.T, x, r) else r
            return O.ite(O.or_(O.ieq(i, O.idx(0)), O.cmp(self.op, self.T, x, r)), x, r)
        return O.fold(self.op, self.T, O.const(self.T, 0), step, n)

    def prefix(self, O, A):
        return {'ext': lambda b: self.acc(O, A, b)}

    ptr_acc = next_bound = True

    def value(self, O, A):
        return self.acc(O, A, A[0].n)


class GetAt(Scalar):
    def value(self, O, A):
        i = O.idx(A[1].v)
        c = O.ilt(i, A[0].n)
        return O.ite(c, O.lazy(c, lambda: A[0].at(i)), O.const(self.T, 0))


class SortedMedian(Scalar):
    def value(self, O, A):
        a, T = A[0], self.T
        n = a.n
        some = O.not_(O.ieq(n, O.idx(0)))
        mid = O.idiv(n, 2)
        odd = O.ieq(O.imod(n, 2), O.idx(1))
        f = lambda k: O.cvt(T, 'f64', a.at(k))
        two = lambda: O.bin('div', 'f64', O.bin('add', 'f64', f(O.isub(mid, 1)), f(mid)), O.const('f64', 2.0))
        if O.concrete:
            return O.const('f64', 0.0) if n == 0 else f(mid) if n % 2 else two()
        return O.ite(some, O.ite(odd, f(mid), two()), O.const('f64', 0.0))


class Median(SortedMedian):
    """bounded only: the middle of the sorted values"""

    def pre(self, O, A):
        return no_nan(O, A, A[0], self.T)

    def value(self, O, A):
        if not O.concrete:
            from smt import Unsupported
            raise Unsupported('nth_element')
        from ops import PList, fdec, tosigned
        T = self.T
        key = (lambda b: fdec(T, b)) if isf(T) else (lambda b: tosigned(b, WID[T])) if iss(T) else (lambda b: b)
        v = super().value(O, [PList(sorted(A[0].vals, key=key), T)])
        return v


class CountDistinct(Scalar):
    def value(self, O, A):
        if not O.concrete:
            return O.u32(self.src.count(A[0].n))
        return O.fold('distinct', 'u32', O.const('u32', 0), lambda i, r: O.bin('add', 'u32', r, O.const('u32', 1))
                      if all(not O.cmp('eq', self.T, A[0].at(j), A[0].at(i)) for j in range(i)) else r, A[0].n)

    def before(self, kc):
        from specs.c06 import first_of
        self.src = first_of(kc, kc.A[0], self.T)

    def prefix(self, O, A):
        return {'id': lambda b: b, 'n_kept': self.src.count}

    def pre(self, O, A):
        return no_nan(O, A, A[0], self.T)


class CountBits(Scalar):
    def acc(self, O, A, n):
        return O.fold('bits', 'u32', O.const('u32', 0), lambda i, r: O.bin('add', 'u32', r, O.pop8(A[0].at(i))), n, depth=9)

    def prefix(self, O, A):
        return {'bits': lambda b: self.acc(O, A, b)}

    def value(self, O, A):
        return self.acc(O, A, A[0].n)


def contract(reg):
    if reg.kind != 2:
        return None
    n = reg.name
    if n in ('Max', 'Min'):
        return Extreme(reg, 'gt' if n == 'Max' else 'lt')
    return {'Sum': Sum, 'Avg': Avg, 'CountDistinct': CountDistinct, 'CountBits': CountBits, 'GetAt': GetAt,
            'SortedMedian': SortedMedian, 'Median': Median}.get(n, lambda r: None)(reg)
