"""Contracts of list construction and conversion (C06)."""
import math
from kernel import Contract
from ops import WID, isf, iss, fdec, fenc, tosigned, ANY, Undefined
from specs.c03 import tag, Scalar, no_nan
from specs.c04 import eq, streq
from smt import *
import engine as E
from solve import Cand

MAX = 0xFFFFFFFF


def vals(x):
    return getattr(x, 'vals', x)


class Concat(Contract):
    """all elements of the first operand, then all of the second"""

    def total(self, O, A):
        return O.iadd(A[0].n, A[1].n)

    def err(self, O, A):
        return O.not_(O.ile(self.total(O, A), O.idx(MAX)))

    def length(self, O, A):
        return O.u32(self.total(O, A))

    def elem(self, O, A, k):
        c = O.ilt(k, A[0].n)
        if O.concrete:
            return vals(A[0].at(k) if c else A[1].at(k - A[0].n))
        return O.ite(c, A[0].at(k), A[1].at(O.isub(k, A[0].n)))

    def elem_str(self, O, A, k):
        c = O.ilt(k, A[0].n)
        return [(c, A[0].at(k)), (O.not_(c), A[1].at(O.isub(k, A[0].n)))]

    def sane(self, v):
        return sum(len(x) for x in v[:2]) < 1 << 22


class In(Scalar):
    """1 exactly when some element equals the value"""

    def __init__(self, reg):
        Contract.__init__(self, reg)
        self.T = 'str' if reg.params[0] == 'string' else reg.params[0]

    def hit(self, O, A, i):
        v = A[0] if A[0].kind == 'string' else A[0].v
        return eq(O, self.T, v, A[1].at(i))

    def any(self, O, A, n):
        one, zero = O.const('u8', 1), O.const('u8', 0)
        return O.fold('any', 'u8', zero, lambda i, r: O.ite(O.or_(self.hit(O, A, i), O.eqv(r, one)), one, zero), n)

    def value(self, O, A):
        return self.any(O, A, A[1].n)

    def before(self, kc):
        O, A = kc.O, kc.A
        self.any(O, A, bv(0, 64))
        f = kc.eng.foldfns['any'][0]
        one = bv(1, 8)

        def P(j, x):
            return Implies(And(z3.ULE(j, x), f(j) == one), f(x) == one)
        j, x = z3.BitVec('ind_j', 64), z3.BitVec('ind_n', 64)
        kc.check_lemma('found stays found (base)', [], P(j, j))
        kc.check_lemma('found stays found (step)', [z3.ULT(x, bv(kc.LIM, 64)), P(j, x)], Implies(z3.ULE(j, x), P(j, add(x, bv(1, 64)))))
        kc.eng.qfacts.append(E.QFact(P, (f.get_id(),), None, 2, 1))
        nxt = lambda i: f(add(i, bv(1, 64))) == If(Or(self.hit(O, A, i), f(i) == one), one, bv(0, 8))
        kc.eng.qfacts.append(E.QFact(nxt, (f.get_id(),), None, 1, 1))

    def cands(self, kc, cands):
        O, A = kc.O, kc.A
        for L in kc.eng.loops.values():
            if hasattr(L, 'guard'):
                for t in L.pbs:
                    cands.append(Cand('none@%s' % L.header, L, lambda S, t=t: self.any(O, A, S.t(t)) == bv(0, 8)))

    def samples(self, rng):
        import replay
        v = replay.rand_args(rng, self.params)
        if v[1] and rng.random() < 0.5:
            x = rng.choice(v[1])
            v[0] = list(x) if self.T == 'str' else x
        return v


class Cast(Contract):
    def __init__(self, reg):
        super().__init__(reg)
        self.T, self.R = tag(reg.params[0]), tag(reg.ret)

    def length(self, O, A):
        return A[0].len

    def elem(self, O, A, k):
        return O.cvt(self.T, self.R, A[0].at(k))


def from_chars(s, T):
    """std::from_chars in base 10: the value, or 0 when nothing was parsed or it does not fit"""
    s = bytes(s)
    i, neg = 0, False
    if iss(T) and s[:1] == b'-':
        i, neg = 1, True
    j = i
    while j < len(s) and 48 <= s[j] <= 57:
        j += 1
    if j == i:
        return 0
    v = int(s[i:j]) * (-1 if neg else 1)
    w = WID[T]
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if iss(T) else (0, (1 << w) - 1)
    return v & ((1 << w) - 1) if lo <= v <= hi else 0


def to_chars(b, T):
    """std::to_chars without a format: the shortest text that reads back as the value"""
    if not isf(T):
        return str(tosigned(b, WID[T]) if iss(T) else b).encode()
    import numpy as np
    x = fdec(T, b)
    neg = b >> (WID[T] - 1)
    if x != x:
        return ANY
    if math.isinf(x):
        return b'-inf' if neg else b'inf'
    if x == 0:
        return b'-0' if neg else b'0'
    s = np.format_float_scientific((np.float32 if T == 'f32' else np.float64)(abs(x)), unique=True, trim='-')
    m, e = s.split('e')
    e = int(e)
    digits = m.replace('.', '')
    sci = m + 'e%s%02d' % ('-' if e < 0 else '+', abs(e))
    if e < 0:
        fix = '0.' + '0' * (-e - 1) + digits
    elif len(digits) <= e + 1:
        fix = str(int(abs(x)))
    else:
        fix = digits[:e + 1] + '.' + digits[e + 1:]
    return (('-' if neg else '') + (fix if len(fix) <= len(sci) else sci)).encode()


class ToStrings(Contract):
    """concrete reading only"""

    def sane(self, v):
        return len(v[0]) < 5000

    def length(self, O, A):
        return A[0].len

    def elem(self, O, A, k):
        if not O.concrete:
            raise Unsupported('std::to_chars')
        r = to_chars(A[0].at(k), A[0].T)
        return ANY if r is ANY else list(r)


class FromStrings(Contract):
    def length(self, O, A):
        return A[0].len

    def elem(self, O, A, k):
        if not O.concrete:
            raise Unsupported('std::from_chars')
        return from_chars(A[0].at(k).vals, tag(self.reg.ret))

    def samples(self, rng):
        return [[num_text(rng) for _ in range(rng.choice([0, 1, 2, 3, 8, 33]))]]


def num_text(rng):
    import replay
    r = rng.random()
    if r < 0.2:
        return rng.choice(replay.WORDS)
    w = rng.choice([8, 16, 32, 64])
    v = rng.choice([rng.getrandbits(w), (1 << w) - 1, 1 << w, (1 << (w - 1)) - 1, 1 << (w - 1), (1 << (w - 1)) + 1, rng.randrange(300)])
    s = str(v * rng.choice([1, -1])).encode()
    return rng.choice([s, s, s, s + b'x', s + b' ', b'0' + s, s + b'.5', b'00' + s])


def first_of(kc, la, T, val=None):
    """the kernel's container is filled from this list; the ghost facts about first occurrences"""
    from containers import Source
    src = kc.eng.container_src = Source(kc.eng, la, T, val)
    src.count = lambda n: kc.O.fold('kept', 'u64', kc.O.idx(0), lambda i, r: kc.O.ite(src.first(i), kc.O.iadd(r, kc.O.idx(1)), r), n)
    src.kept = src.count
    return src


class Unique(Contract):
    """the first occurrence of each value, in order"""

    def pre(self, O, A):
        return []

    def concrete(self, O, A):
        T = tag(self.reg.ret)
        out, seen = [], set()
        for i in range(A[0].n):
            x = A[0].at(i)
            if T == 'string':
                key = bytes(x.vals)
            elif isf(T):
                f = fdec(T, x)
                key = ('nan', i) if f != f else f
            else:
                key = x
            if key not in seen:
                seen.add(key)
                out.append(vals(x))
        return out

    def before(self, kc):
        self.src = first_of(kc, kc.A[0], tag(self.reg.ret))

    def select(self, O, A):
        return self.src.first, (lambda i: A[0].at(i)), A[0].n

    def prefix(self, O, A):
        return {'id': lambda b: b}

    def length(self, O, A):
        if O.concrete:
            return A[0].len
        return O.u32(self.count(O, A, A[0].n))


class Cross(Contract):
    def err(self, O, A):
        if not O.concrete:
            raise Unsupported('string lists')
        return A[0].n * A[1].n > MAX

    def concrete(self, O, A):
        return [A[0].at(i).vals + A[2].vals + A[1].at(j).vals for i in range(A[0].n) for j in range(A[1].n)]

    def sane(self, v):
        return len(v[0]) * len(v[1]) < 5000

    def samples(self, rng):
        import replay
        v = replay.rand_args(rng, self.params)
        v[1] = [rng.choice(replay.WORDS) for _ in range(rng.choice([0, 1, 2, 3, 7, 20]))]
        return v


class Zip(Contract):
    def err(self, O, A):
        if not O.concrete:
            raise Unsupported('string lists')
        return A[0].n != A[1].n

    def concrete(self, O, A):
        return [A[0].at(i).vals + A[2].vals + A[1].at(i).vals for i in range(A[0].n)]


class Sort(Contract):
    """concrete reading only: the same elements in ascending or descending order"""

    def __init__(self, reg):
        super().__init__(reg)
        self.desc = reg.name == 'SortDesc'

    def pre(self, O, A):
        if not O.concrete:
            raise Unsupported('std::sort')
        T = tag(self.reg.ret)
        return [not isf(T) or all(fdec(T, A[0].at(i)) == fdec(T, A[0].at(i)) for i in range(A[0].n))]

    zero_eq = True

    def concrete(self, O, A):
        T = tag(self.reg.ret)
        key = (lambda b: fdec(T, b)) if isf(T) else (lambda b: tosigned(b, WID[T])) if iss(T) else (lambda b: b)
        return sorted((A[0].at(i) for i in range(A[0].n)), key=key, reverse=self.desc)


def contract(reg):
    if reg.kind != 2:
        return None
    n = reg.name
    if n.startswith('Cast') and n.endswith('List'):
        if reg.ret == 'stringlist':
            return ToStrings(reg)
        return FromStrings(reg) if reg.params[0] == 'stringlist' else Cast(reg)
    return {'ListConcat': Concat, 'in': In, 'Unique': Unique, 'CrossJoin': Cross, 'ZipConcat': Zip, 'SortAsc': Sort,
            'SortDesc': Sort}.get(n, lambda r: None)(reg)
