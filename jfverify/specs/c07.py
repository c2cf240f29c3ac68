"""Contracts of the string builtins (C07)."""
from kernel import Contract
from ops import WID, isf, iss, ANY, tosigned
from specs.c03 import Scalar
from specs.c06 import Concat, from_chars, to_chars, num_text
from smt import *


class Cmp(Scalar):
    """bytewise order, a proper prefix first; only the sign of the result is specified"""
    rel = True

    def __init__(self, reg):
        Contract.__init__(self, reg)

    def rel_post(self, O, A, v, k):
        a, b = A
        n = If(z3.ULT(a.n, b.n), a.n, b.n)
        c = O.bytecmp(a, b, n)
        z = bv(0, 32)
        less = Or(c == bv(255, 8), And(c == bv(0, 8), z3.ULT(a.n, b.n)))
        same = And(c == bv(0, 8), a.len == b.len)
        return [('zero exactly for equal strings', (v == z) == same),
                ('negative exactly when the first string is the smaller one', (v < z) == less)]

    def value(self, O, A):
        a, b = bytes(A[0].vals), bytes(A[1].vals)
        return 0 if a == b else 0xffffffff if a < b else 1

    def samples(self, rng):
        n = rng.choice([0, 1, 2, 3, 8, 17, 255, 256, 300])
        h = [rng.choice([0, 97, 97, 98, 127, 128, 255]) for _ in range(n)]
        d = rng.choice([0, 0, 1, 2, 3, 128, 255, 256, 257, 384, 512, 65536])
        o = h + [rng.choice([0, 97, 255])] * d
        if rng.random() < 0.4 and o:
            i = rng.randrange(len(o))
            o[i] = rng.choice([0, 97, 128, 255])
        return [h, o] if rng.random() < 0.5 else [o, h]

    def agree(self, got, want):
        s = lambda x: (tosigned(x, 32) > 0) - (tosigned(x, 32) < 0)
        return s(got) == s(want)


class Contains(Scalar):
    def __init__(self, reg):
        Contract.__init__(self, reg)

    def value(self, O, A):
        if not O.concrete:
            raise Unsupported('memchr/memcmp')
        return 1 if bytes(A[1].vals) in bytes(A[0].vals) else 0

    def samples(self, rng):
        import replay
        h = bytes(rng.choice([0, 97, 97, 98, 255]) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 20, 40])))
        r = rng.random()
        if r < 0.5 and h:
            i = rng.randrange(len(h))
            n = h[i:i + rng.choice([0, 1, 2, 3, 9])]
        else:
            n = bytes(rng.choice([0, 97, 98]) for _ in range(rng.choice([0, 1, 2, 3, 4])))
        return [list(h), list(n)]


class ToString(Contract):
    """concrete reading only"""

    def length(self, O, A):
        raise Unsupported('std::to_chars')

    def concrete(self, O, A):
        r = to_chars(A[0].v, self.params[0])
        return None if r is ANY else list(r)


class FromString(Scalar):
    def __init__(self, reg):
        Contract.__init__(self, reg)

    def value(self, O, A):
        if not O.concrete:
            raise Unsupported('std::from_chars')
        return from_chars(A[0].vals, self.reg.ret)

    def samples(self, rng):
        return [list(num_text(rng))]


def contract(reg):
    if reg.kind != 2:
        return None
    n = reg.name
    if n.startswith('Cast') and reg.params == ['string']:
        return FromString(reg)
    if n == 'CastString' and reg.params[0] in WID:
        return ToString(reg)
    return {'StringConcat': Concat, 'StringCmp': Cmp, 'StringContains': Contains}.get(n, lambda r: None)(reg)
