"""Contracts of the grouping builtins (C05)."""
from kernel import Contract
from ops import WID, isf, iss, Undefined
from specs.c03 import tag, no_nan, Scalar
from smt import *
import engine as E


def dense(rng, n):
    """group numbers in order of first appearance"""
    g, c = [], 0
    for _ in range(n):
        x = rng.randrange(c + 1)
        if x == c:
            c += 1
        g.append(x)
    return g, c


class GroupIndex(Contract):
    safety_full = True
    """first-appearance numbering: the number of element k is the count of distinct elements before its first occurrence"""

    def before(self, kc):
        from specs.c06 import first_of
        T = tag(self.params[0])
        src = self.src = first_of(kc, kc.A[0], 'str' if T == 'string' else T)
        src.val = lambda t: trunc(src.count(t), 32)
        src.count(bv(0, 64))
        f = kc.eng.foldfns['kept'][0]
        kc.lemma('kept(n) <= n', lambda n: z3.ULE(f(n), n), (f.get_id(),))

    def prefix(self, O, A):
        return {'id': lambda b: b, 'n_kept': self.src.count}

    def length(self, O, A):
        return A[0].len

    def elem(self, O, A, k):
        if not O.concrete:
            return self.src.val(self.src.fp(norm(k)))
        if not hasattr(self, '_m') or self._m[0] is not A:
            T = tag(self.params[0])
            tab, out = {}, []
            for i in range(A[0].n):
                x = A[0].at(i)
                x = bytes(x.vals) if T == 'string' else 0 if isf(T) and O.cmp('eq', T, x, O.const(T, 0.0)) else x
                if isf(T) and not O.cmp('eq', T, x, x):
                    x = ('nan', i)
                out.append(tab.setdefault(x, len(tab)))
            self._m = (A, out)
        return self._m[1][k]


class GroupCount(Scalar):
    def pre(self, O, A):
        return [O.forall_elems('max', lambda k: O.not_(O.eqv(A[0].at(k), O.const('u32', 0xffffffff))), [A[0]], A[0].n)]

    safety_pre = pre

    def acc(self, O, A, n):
        def step(i, r):
            x = O.bin('add', 'u32', A[0].at(i), O.const('u32', 1))
            return O.ite(O.cmp('gt', 'u32', x, r), x, r)
        return O.fold('cnt', 'u32', O.const('u32', 0), step, n)

    def top(self, O, A, n):
        return O.fold('top', 'u32', O.const('u32', 0), lambda i, r: O.ite(O.cmp('gt', 'u32', A[0].at(i), r), A[0].at(i), r), n)

    def before(self, kc):
        # one more than the largest number, however it is accumulated
        O, A, n = kc.O, kc.A, kc.A[0].n
        M, one, z = bv(0xffffffff, 32), bv(1, 32), bv(0, 64)
        self.acc(O, A, z), self.top(O, A, z)
        c, t = kc.eng.foldfns['cnt'][0], kc.eng.foldfns['top'][0]
        kc.lemma('count and largest', lambda k: Implies(z3.ULE(k, n), And(t(k) != M, c(k) == If(k == z, bv(0, 32), t(k) + one))),
                 (c.get_id(), t.get_id()))

    def prefix(self, O, A):
        return {'cnt': lambda b: self.acc(O, A, b), 'top': lambda b: self.top(O, A, b)}

    def value(self, O, A):
        return self.acc(O, A, A[0].n)


class Grouped(Contract):
    """values, group numbers, number of groups"""
    inplace = {'grp'}

    def __init__(self, reg):
        super().__init__(reg)
        self.T, self.R = tag(reg.params[0]), tag(reg.ret)

    def err(self, O, A):
        return O.not_(O.eqv(A[0].len, A[1].len))

    def pre(self, O, A):
        return [O.forall_elems('in range', lambda k: O.ilt(O.idx(A[1].at(k)), O.idx(A[2].v)), [A[1]], A[1].n)]

    safety_pre = pre

    def length(self, O, A):
        return A[2].v

    def stages(self, O, A):
        return {'grp': lambda k, b: self.grp(O, A, O.u32(k), b), 'seed': lambda k, b: self.seed(O)}

    def grp(self, O, A, g, n):
        return O.fold('grp', self.R, lambda g: self.seed(O),
                      lambda i, r, g: O.ite(O.eqv(A[1].at(i), g), self.step(O, A, i, r), r), n, (g,))

    def elem(self, O, A, k):
        return self.grp(O, A, O.u32(k), A[0].n)

    def sane(self, vals):
        return vals[2] <= 1 << 12

    def samples(self, rng):
        import replay
        n = replay.plen(rng, [0, 1, 2, 3, 5, 8, 17, 33, 64])
        n = min(n, 64) if self.T == 'string' else n
        g, c = dense(rng, n) if rng.random() < 0.7 and n < 500 else ([0 if n > 60000 else rng.randrange(4) for _ in range(n)], 4)
        if rng.random() < 0.1:
            g = g + [0]
        vs = [rng.choice(replay.WORDS) for _ in range(n)] if self.T == 'string' else replay.rand_list(rng, self.T, n, rng.random() < 0.5)
        return [vs, g, max(c, 1 if len(g) > n else 0)]


class GroupSum(Grouped):
    def seed(self, O):
        return O.const(self.R, 0)

    def step(self, O, A, i, r):
        return O.bin('add', self.R, r, O.cvt(self.T, self.R, A[0].at(i)))


class GroupExt(Grouped):
    def __init__(self, reg, op):
        super().__init__(reg)
        self.op = op

    zero_eq = True

    def seed(self, O):
        T = self.T
        if isf(T):
            return O.const(T, float('-inf') if self.op == 'gt' else float('inf'))
        w = WID[T]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if iss(T) else (0, (1 << w) - 1)
        return O.const(T, lo if self.op == 'gt' else hi)

    def step(self, O, A, i, r):
        x = A[0].at(i)
        return O.ite(O.cmp(self.op, self.T, x, r), x, r)


class GroupAvg(Grouped):
    def seed(self, O):
        return O.const('f64', 0.0)

    def step(self, O, A, i, r):
        return O.bin('add', 'f64', r, O.cvt(self.T, 'f64', A[0].at(i)))

    def size(self, O, A, g, n):
        return O.fold('size', 'u32', lambda g: O.const('u32', 0),
                      lambda i, r, g: O.ite(O.eqv(A[1].at(i), g), O.bin('add', 'u32', r, O.const('u32', 1)), r), n, (g,))

    inplace = {'grp', 'size'}

    def stages(self, O, A):
        d = Grouped.stages(self, O, A)
        d['size'] = lambda k, b: self.size(O, A, O.u32(k), b)
        d['zero'] = lambda k, b: O.const('u32', 0)
        return d

    def elem(self, O, A, k):
        g = O.u32(k)
        n = A[0].n
        if O.concrete and self.size(O, A, g, n) == 0:
            raise Undefined('empty group')
        return O.bin('div', 'f64', self.grp(O, A, g, n), O.cvt('u32', 'f64', self.size(O, A, g, n)))


class GroupKeys(Grouped):
    safety_full = True
    def pre(self, O, A):
        # the number of groups is not exceeded
        n = A[1].n
        if O.concrete:
            return [self.err(O, A) or self.count(O, A, n) <= A[2].v]
        e = self.err(O, A)
        return [Or(e, z3.ULE(self.count(O, A, n), zext(A[2].v, 64)))]

    safety_pre = pre

    def count(self, O, A, n):
        return O.fold('kept', 'u64', O.idx(0), lambda i, r: O.ite(O.eqv(O.idx(A[1].at(i)), r), O.iadd(r, O.idx(1)), r), n)

    def select(self, O, A):
        return (lambda i: O.eqv(O.idx(A[1].at(i)), self.count(O, A, i))), (lambda i: A[0].at(i)), A[1].n

    def length(self, O, A):
        return O.u32(self.count(O, A, A[1].n))

    def stages(self, O, A):
        return {}

    inplace = set()

    def expected_strings(self, O, A):
        keep, val, tot = self.select(O, A)
        return [list(val(i).vals) for i in range(tot) if keep(i)]


def contract(reg):
    if reg.kind != 2:
        return None
    n = reg.name
    if n in ('GroupMax', 'GroupMin'):
        return GroupExt(reg, 'gt' if n == 'GroupMax' else 'lt')
    return {'GroupIndex': GroupIndex, 'GroupCount': GroupCount, 'GroupSum': GroupSum, 'GroupAvg': GroupAvg,
            'GroupKeys': GroupKeys}.get(n, lambda r: None)(reg)
