"""Contracts of search, lookup, gather and bucketize (C04)."""
from kernel import Contract
from ops import WID, isf, iss, fdec, Undefined
from specs.c03 import tag, no_nan, Scalar
from smt import *
import engine as E
from solve import Cand

MISS = 0xFFFFFFFF


def streq(O, x, y):
    if not O.concrete:
        return And(x.len == y.len, O.bytecmp(x, y, x.n) == bv(0, 8))
    return list(x.vals) == list(y.vals)


def eq(O, T, x, y):
    return streq(O, x, y) if T in ('string', 'str') else O.cmp('eq', T, x, y)


class Find(Scalar):
    def first(self, O, A, n):
        miss = O.const('u32', MISS)
        return O.fold('first', 'u32', miss, lambda i, r: O.ite(O.and_(O.eqv(r, miss), self.hit(O, A, i)), O.u32(i), r), n)

    def hit(self, O, A, i):
        v = A[1] if A[1].kind == 'string' else A[1].v
        return eq(O, tag(A[1].kind), A[0].at(i), v)

    def value(self, O, A):
        return self.first(O, A, A[0].n)

    rel = True

    def preds(self, O, A):
        return {'ne': lambda k: Implies(z3.ULT(k, A[0].n), O.not_(self.hit(O, A, k)))}

    def rel_post(self, O, A, v, k):
        n = A[0].n
        miss = bv(MISS, 32)
        r = zext(v, 64)
        return [('a miss means no element equals the value', Implies(And(v == miss, z3.ULT(k, n)), Not(self.hit(O, A, k)))),
                ('a hit lies in the list and equals the value', Implies(v != miss, And(z3.ULT(r, n), self.hit(O, A, r)))),
                ('no earlier element equals the value', Implies(And(v != miss, z3.ULT(k, r)), Not(self.hit(O, A, k))))]

    def samples(self, rng):
        import replay
        ps = self.params
        vals = replay.rand_args(rng, ps)
        if vals[0] and rng.random() < 0.8:
            v = rng.choice(vals[0])
            vals[1] = list(v) if ps[1] == 'string' else v
        return vals


class FindSorted(Find):
    def sorted(self, O, A):
        a, T = A[0], tag(A[1].kind)
        if O.concrete:
            k = (lambda i: bytes(a.at(i).vals)) if T == 'string' else None
            for i in range(a.n - 1):
                if T == 'string':
                    if k(i) > k(i + 1):
                        return False
                elif not O.cmp('le', T, a.at(i), a.at(i + 1)):
                    return False
            return not (isf(T) and a.n == 1 and not O.cmp('eq', T, a.at(0), a.at(0)))
        return None

    def pre(self, O, A):
        T = tag(A[1].kind)
        if O.concrete:
            if isf(T) and not O.cmp('eq', T, A[1].v, A[1].v):
                return [False]
            return [self.sorted(O, A)]
        a = A[0]
        if T == 'string':
            raise Unsupported('string comparison')
        n = a.n
        out = [E.QFact(lambda i, j: Implies(And(z3.ULE(i, j), z3.ULT(j, n)), O.cmp('le', T, a.at(i), a.at(j))),
                       (a.node.uf.get_id(),), None, 2, 1)]
        if isf(T):
            out += no_nan(O, A, a, T)
            out.append(O.cmp('eq', T, A[1].v, A[1].v))
        return out

    def preds(self, O, A):
        T = tag(A[1].kind)
        return {'lt': lambda k: Implies(z3.ULT(k, A[0].n), O.cmp('lt', T, A[0].at(k), A[1].v)),
                'ge': lambda k: Implies(z3.ULT(k, A[0].n), O.not_(O.cmp('lt', T, A[0].at(k), A[1].v)))}

    exact_cmp = True

    def samples(self, rng):
        import replay
        from ops import fdec, tosigned
        vals = Find.samples(self, rng)
        T = self.params[1]
        if T == 'string':
            vals[0] = sorted(vals[0], key=bytes)
        else:
            if isf(T):
                vals[0] = [x for x in vals[0] if fdec(T, x) == fdec(T, x)]
            key = (lambda b: fdec(T, b)) if isf(T) else (lambda b: tosigned(b, WID[T])) if iss(T) else (lambda b: b)
            vals[0] = sorted(vals[0], key=key)
        return vals


class Compact(Contract):
    safety_full = True
    def __init__(self, reg):
        super().__init__(reg)
        self.pos = reg.name == 'ListCompactPositions'

    def select(self, O, A):
        a = A[0]
        keep = lambda i: O.not_(O.eqv(a.at(i), O.const('u32', MISS)))
        return keep, (lambda i: O.u32(i)) if self.pos else (lambda i: a.at(i)), a.n

    def length(self, O, A):
        return O.u32(self.count(O, A, A[0].n))

    def samples(self, rng):
        import replay
        n = replay.plen(rng, [0, 1, 2, 3, 7, 8, 9, 33, 64, 100])
        return [[MISS if rng.random() < 0.4 else rng.choice([0, 1, 2, MISS - 1, rng.getrandbits(32)]) for _ in range(n)]]


class Gather(Contract):
    def length(self, O, A):
        return A[1].len

    def elem(self, O, A, k):
        j = O.idx(A[1].at(k))
        c = O.ilt(j, A[0].n)
        d = A[2] if A[2].kind == 'string' else A[2].v
        if O.concrete:
            r = A[0].at(j) if c else d
            return r.vals if hasattr(r, 'vals') else r
        if A[2].kind == 'string':
            raise Unsupported('string elements')
        return O.ite(c, A[0].at(j), d)

    def samples(self, rng):
        import replay
        vals = replay.rand_args(rng, self.params)
        n = len(vals[0])
        m = replay.plen(rng, [0, 1, 2, 5, 8, 33, 64])
        vals[1] = [rng.choice([rng.randrange(n + 1), rng.randrange(n + 1), n, n + 1, MISS, 0x80000000]) for _ in range(m)]
        return vals


class Bucketize(Contract):
    def __init__(self, reg):
        super().__init__(reg)
        self.T = tag(reg.params[0])

    def pre(self, O, A):
        b, T = A[1], self.T
        if O.concrete:
            return [all(O.cmp('le', T, b.at(i), b.at(i + 1)) for i in range(b.n - 1)) and
                    (b.n != 1 or O.cmp('eq', T, b.at(0), b.at(0)))]
        n = b.n
        return [E.QFact(lambda i, j: Implies(And(z3.ULE(i, j), z3.ULT(j, n)), O.cmp('le', T, b.at(i), b.at(j))),
                        (b.node.uf.get_id(),), None, 2, 1)] + no_nan(O, A, b, T)

    def bucket(self, O, A, v, n):
        return O.fold('bucket', 'u32', lambda v: O.const('u32', 0),
                      lambda i, r, v: O.ite(O.cmp('lt', self.T, v, A[1].at(i)), r, O.bin('add', 'u32', r, O.const('u32', 1))),
                      n, (v,))

    exact_cmp = True

    def before(self, kc):
        if kc.safety:
            return
        # the count is the boundary position: every boundary below it is not greater, the next one is (boundaries ascend)
        O, A, T = kc.O, kc.A, self.T
        B, n = A[1], A[1].n
        v = z3.BitVec('ind_v', WID[T])
        self.bucket(O, A, v, bv(0, 64))
        f = kc.eng.foldfns['bucket'][0]

        def P(v, x):
            r = zext(f(v, x), 64)
            return Implies(z3.ULE(x, n), And(z3.ULE(r, x), Implies(z3.ULT(r, x), O.cmp('lt', T, v, B.at(r))),
                                             Implies(r != bv(0, 64), Not(O.cmp('lt', T, v, B.at(sub(r, bv(1, 64))))))))
        x = z3.BitVec('ind_n', 64)
        kc.check_lemma('bucket boundary (base)', [], P(v, bv(0, 64)))
        kc.check_lemma('bucket boundary (step)', [z3.ULT(x, bv(kc.LIM, 64)), P(v, x)], P(v, add(x, bv(1, 64))))
        kc.eng.qfacts.append(E.QFact(P, (f.get_id(),), None, 0, 1))

    def cands(self, kc, cands):
        O, A, T = kc.O, kc.A, self.T
        B, n = A[1], A[1].n
        one = bv(1, 64)
        loops = [L for L in kc.eng.loops.values() if hasattr(L, 'guard')]
        by = {L.header: L for L in loops}
        for L in loops:
            xs = []
            Q = L.parent
            while Q:
                if Q in by:
                    xs += [norm(zext(s, 64)) for s in by[Q].sym.values() if s.size() in (32, 64)]
                Q = by[Q].parent if Q in by else None
            for x in xs:
                v = A[0].at(x)
                for t in L.pbs:
                    cands.append(Cand('lo@%s' % L.header, L, lambda S, v=v, t=t: Or(
                        S.t(t) == bv(0, 64), Not(O.cmp('lt', T, S.t(v), B.at(sub(S.t(t), one)))))))
                    cands.append(Cand('hi@%s' % L.header, L, lambda S, v=v, t=t: Or(
                        z3.UGE(S.t(t), n), O.cmp('lt', T, S.t(v), B.at(S.t(t))))))

    def length(self, O, A):
        return A[0].len

    def elem(self, O, A, k):
        return self.bucket(O, A, A[0].at(k), A[1].n)

    def samples(self, rng):
        import replay
        from ops import fdec, tosigned
        T = self.T
        vals = replay.rand_args(rng, self.params)
        n = replay.plen(rng, [0, 1, 2, 3, 15, 16, 17, 18, 33, 40])
        bs = replay.rand_list(rng, T, n, False)
        if isf(T):
            bs = [x for x in bs if fdec(T, x) == fdec(T, x)]
        key = (lambda b: fdec(T, b)) if isf(T) else (lambda b: tosigned(b, WID[T])) if iss(T) else (lambda b: b)
        vals[1] = sorted(bs, key=key)
        if bs and vals[0]:
            for i in range(0, len(vals[0]), 2):
                vals[0][i] = rng.choice(bs)
        return vals


def list_of(reg):
    t = tag(reg.params[0])
    return 'str' if t == 'string' else t


class BuildTable(Scalar):
    """the table maps every element of the list to its first position"""
    rel = True

    def __init__(self, reg):
        Contract.__init__(self, reg)

    def before(self, kc):
        from specs.c06 import first_of
        first_of(kc, kc.A[0], list_of(self.reg), lambda t: trunc(t, 32))

    def prefix(self, O, A):
        return {'id': lambda b: b}

    def rel_post(self, O, A, v, k):
        out = []
        for c, o, off in v.alts:
            t = O.eng.__dict__.get('created', {}).get(o.id if o is not None else None)
            out.append(('the result is a table holding the whole list', Implies(c, t == A[0].n if t is not None else z3.BoolVal(False))))
        return out

    def replay_as(self):
        return pair(self.reg)


class ProbeTable(Contract):
    """every element's position in the table, or the miss marker"""

    def before(self, kc):
        from containers import Table
        T = list_of(self.reg)
        ks = B64 if T == 'str' else BV(WID[T])
        has, pos = z3.Function('HAS', ks, z3.BoolSort()), z3.Function('POS', ks, BV(32))
        kc.eng.__dict__.setdefault('tables', {})[kc.A[1].v.id] = Table(T, has, pos)
        self.fns = (lambda k: has(norm(k)) if T == 'str' else has(kc.A[0].at(k))), (lambda k: pos(norm(k)) if T == 'str' else pos(kc.A[0].at(k)))

    def length(self, O, A):
        return A[0].len

    def elem(self, O, A, k):
        return O.ite(self.fns[0](k), self.fns[1](k), O.const('u32', MISS))

    def replay_as(self):
        return pair(self.reg)


class BuildAndProbe(Contract):
    """both together (execution only): first position of every element of the first list in the second"""
    pair = True

    def length(self, O, A):
        return A[0].len

    def elem(self, O, A, k):
        T, x = list_of(self.reg), A[0].at(k)
        if not hasattr(self, '_m') or self._m[0] is not A:
            tab = {}
            for j in range(A[1].n):
                tab.setdefault(self.key(T, A[1].at(j), ('b', j)), j)
            self._m = (A, tab)
        return self._m[1].get(self.key(T, x, ('a', k)), MISS)

    def key(self, T, x, fresh):
        if T == 'str':
            return bytes(x.vals)
        if isf(T):
            f = fdec(T, x)
            return fresh if f != f else f
        return x


def pair(reg):
    import copy
    r = copy.copy(reg)
    r.name, r.params, r.ret, r.kind, r.needs_ctx = 'ListLookupIndex', [reg.params[0]] * 2, 'u32list', 2, True
    return r, BuildAndProbe(r)


def contract(reg):
    if reg.kind != 2:
        return None
    n = reg.name
    if n.startswith('__BuildLookupTable'):
        return BuildTable(reg)
    if n.startswith('__LookupTable'):
        return ProbeTable(reg)
    return {'Find': Find, 'FindSorted': FindSorted, 'ListCompactPositions': Compact, 'ListCompactIndex': Compact,
            'ListGather': Gather, 'Bucketize': Bucketize, 'ListLookupIndex': BuildAndProbe}.get(n, lambda r: None)(reg)
