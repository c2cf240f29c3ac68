"""The expression language under contract: what a program tree means.

`Sem` evaluates a program tree over an operations object (ops.ZOps: terms, for the proof; ops.POps: numbers, for the
replay), so one text serves both. It yields the type rules (accept / reject, type of every expression), the value, the
ordered guarded calls the program makes, and the preconditions under which the value is defined.

Trees (Python tuples): ('leaf',T,k) ('sink',k,x) ('const',T,bits) ('str',bytes) ('clist',T,[elems]) ('arg',) ('ctx',) ('out',)
('un',op,x) ('bin',op,a,b) ('call',name,args) ('if',c,a,b) ('switch',[...]) ('ifblock',[...]) ('ref',name)
('seq',[(kind,name,x)...]) ('iso',[...]) with kind do|set|let."""
from ops import WID, isf, iss

NUM = ['u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'f32', 'f64']
LISTS = ['u8list', 'u16list', 'u32list', 'u64list', 'i8list', 'i16list', 'i32list', 'i64list', 'f32list', 'f64list',
         'stringlist']
RANK = {t: i for i, t in enumerate(['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f32', 'f64'])}
ARITH = ['add', 'sub', 'mul', 'div', 'mod']
REL = ['gt', 'ge', 'eq', 'lt', 'le', 'ne']
LOGIC = ['land', 'lor']
BITW = ['and', 'or', 'xor']
SHIFT = ['shl', 'shr']
BINOPS = ARITH + REL + LOGIC + BITW + SHIFT


class Reject(Exception):
    """the program must be refused"""


def isnumt(t):
    return t in RANK


def isint(t):
    return t in RANK and not isf(t)


def promote(a, b):
    """floats dominate integers, a wider type dominates a narrower one, unsigned dominates signed at equal width"""
    return a if RANK[a] >= RANK[b] else b


def agg(t):
    return t == 'string' or t in LISTS


# ------------------------------------------------------------------------------------------------ text form
def text(n):
    k = n[0]
    if k == 'leaf':
        return '(leaf %s %d)' % (n[1], n[2])
    if k == 'sink':
        return '(sink %d %s)' % (n[1], text(n[2]))
    if k == 'const':
        return '(const %s %x)' % (n[1], n[2])
    if k == 'str':
        return '(const string %s)' % n[1].hex()
    if k == 'clist':
        if n[1] == 'stringlist':
            return '(clist stringlist%s)' % ''.join(' x' + e.hex() for e in n[2])
        return '(clist %s%s)' % (n[1], ''.join(' %x' % e for e in n[2]))
    if k in ('arg', 'ctx', 'out'):
        return '(%s)' % k
    if k == 'un':
        return '(un %s %s)' % (n[1], text(n[2]))
    if k == 'bin':
        return '(bin %s %s %s)' % (n[1], text(n[2]), text(n[3]))
    if k == 'call':
        return '(call %s%s)' % (n[1], ''.join(' ' + text(x) for x in n[2]))
    if k == 'if':
        return '(if%s)' % ''.join(' ' + text(x) for x in n[1:])
    if k in ('switch', 'ifblock'):
        return '(%s%s)' % (k, ''.join(' ' + text(x) for x in n[1]))
    if k == 'ref':
        return '(ref %s)' % n[1]
    if k in ('seq', 'iso'):
        return '(%s%s)' % (k, ''.join(' (do %s)' % text(x) if w == 'do' else ' (%s %s %s)' % (w, v, text(x))
                                      for w, v, x in n[1]))
    raise KeyError(k)


# ------------------------------------------------------------------------------------------------ type rules
class Types:
    """assigns a type to every node (by identity path) or raises Reject"""

    def __init__(self, lookup):
        self.lookup = lookup      # (name, [param types]) -> return type or None
        self.scopes = [{}]

    def find(self, name):
        for s in reversed(self.scopes):
            if name in s:
                return s[name]
        return None

    def num2(self, a, b):
        if not (isnumt(a) and isnumt(b)):
            raise Reject('operands')

    def ty(self, n):
        k = n[0]
        if k == 'leaf':
            return n[1]
        if k == 'sink':
            t = self.ty(n[2])
            if t == 'void':
                raise Reject('void argument')
            return 'void'
        if k == 'const':
            return n[1]
        if k == 'str':
            return 'string'
        if k == 'clist':
            return n[1]
        if k in ('arg', 'ctx', 'out'):
            return 'ptr'
        if k == 'un':
            t = self.ty(n[2])
            if not isnumt(t):
                raise Reject('unary operand')
            if n[1] == 'plus':
                return t
            if n[1] == 'minus':
                return 'i32' if t in ('u8', 'i8', 'u16', 'i16') else t
            if n[1] == 'not':
                return 'u8'
            if not isint(t):
                raise Reject('bitwise not')
            return t
        if k == 'bin':
            op = n[1]
            a, b = self.ty(n[2]), self.ty(n[3])
            if op in LOGIC:
                self.num2(a, b)
                return 'u8'
            if op in REL:
                if not (a == b == 'string'):
                    self.num2(a, b)
                return 'u8'
            if op in BITW + SHIFT:
                if not (isint(a) and isint(b)):
                    raise Reject('bitwise operands')
                return a if op in SHIFT else promote(a, b)
            if op == 'add' and a == b and agg(a):
                return a
            self.num2(a, b)
            if op in ('div', 'mod') and n[3][0] == 'const' and isint(b) and n[3][2] == 0:
                raise Reject('division by constant zero')
            return promote(a, b)
        if k == 'call':
            ts = [self.ty(x) for x in n[2]]
            if 'void' in ts:
                raise Reject('void argument')
            r = self.lookup(n[1], ts)
            if r is None:
                raise Reject('no such function')
            return r
        if k == 'if':
            if len(n) != 4:
                raise Reject('if arity')
            c, a, b = [self.ty(x) for x in n[1:]]
            if 'void' in (c, a, b) or not isnumt(c):
                raise Reject('if operands')
            return self.join([a, b])
        if k == 'switch':
            if len(n[1]) % 2 == 0:
                raise Reject('switch arity')
            ts = [self.ty(x) for x in n[1]]
            if 'void' in ts or any(not isnumt(t) for t in ts[:-1:2]):
                raise Reject('switch operands')
            return self.join(ts[1::2] + ts[-1:])
        if k == 'ifblock':
            if len(n[1]) < 2:
                raise Reject('ifblock arity')
            xs = n[1]
            mod = {}
            for i in range(0, len(xs) - 1, 2):
                if not isnumt(self.ty(xs[i])):
                    raise Reject('ifblock condition')
                self.body(xs[i + 1], mod)
            if len(xs) % 2:
                self.body(xs[-1], mod)
            self.scopes[-1].update(mod)
            return 'void'
        if k == 'ref':
            v = self.find(n[1])
            if v is None:
                raise Reject('undefined variable')
            return v[0]
        if k in ('seq', 'iso'):
            for w, name, x in n[1]:
                if k == 'iso':
                    self.scopes.append({})
                t = self.ty(x)
                if w != 'do':
                    if t == 'void':
                        raise Reject('void variable')
                    old = self.find(name)
                    if old is not None and (old[1] or w == 'let' or old[0] != t):
                        raise Reject('redefinition')
                    self.scopes[-1][name] = (t, w == 'let')
                if k == 'iso':
                    self.scopes.pop()
            return 'void'
        raise KeyError(k)

    def body(self, x, mod):
        self.scopes.append({})
        t = self.ty(x)
        s = self.scopes.pop()
        if t != 'void':
            raise Reject('ifblock body')
        for name, v in s.items():
            if self.find(name) is not None:
                mod[name] = (v[0], False)

    def join(self, ts):
        if all(isnumt(t) for t in ts):
            r = ts[0]
            for t in ts[1:]:
                r = promote(r, t)
            return r
        if all(t == ts[0] for t in ts):
            return ts[0]
        raise Reject('branch types')


# ------------------------------------------------------------------------------------------------ meaning
class Sem:
    """values: numbers as bit patterns; pointers as 64-bit handles; strings and lists as (handle, length)"""

    def __init__(self, O, leaf, call, lookup, lit):
        self.O = O
        self.leaf = leaf          # (T, k, guard) -> value
        self.callf = call         # (name, types, values, guard) -> value
        self.lit = lit            # content -> handle
        self.types = Types(lookup)
        self.scopes = [{}]
        self.events = []          # (guard, 'leaf'|'sink', k, type, value)
        self.pre = []             # (guard, condition)

    # -- helpers
    def need(self, g, c):
        self.pre.append((g, c))

    def ite(self, c, a, b):
        O = self.O
        if a is None or b is None:
            return a if b is None else b
        if isinstance(a, tuple):
            return tuple(O.ite(c, x, y) for x, y in zip(a, b))
        return O.ite(c, a, b)

    def truth(self, T, v, g):
        O = self.O
        if isf(T):
            self.need(g, O.cmp('eq', T, v, v))          # truth of a NaN is not specified
            return O.not_(O.cmp('eq', T, v, O.const(T, 0)))
        return O.not_(O.eqv(v, O.const(T, 0)))

    def convert(self, F, T, v):
        return v if F == T or not isnumt(F) else self.O.cvt(F, T, v)

    def find(self, name):
        for s in reversed(self.scopes):
            if name in s:
                return s[name]
        raise KeyError(name)

    def dead(self, g):
        return self.O.concrete and not g

    def t(self, n):
        return n[0]

    # -- evaluation: returns (type, value)
    def ev(self, n, g):
        O = self.O
        k = n[0]
        if k == 'leaf':
            v = self.leaf(n[1], n[2], g)
            self.events.append((g, 'leaf', n[2], n[1], None))
            return n[1], v
        if k == 'sink':
            t, v = self.ev(n[2], g)
            self.events.append((g, 'sink', n[1], t, v))
            return 'void', None
        if k == 'const':
            return n[1], O.const(n[1], n[2]) if not isf(n[1]) else self.bits(n[1], n[2])
        if k == 'str':
            return 'string', (self.lit(('str', n[1])), self.bits('u32', len(n[1])))
        if k == 'clist':
            return n[1], (self.lit(('list', n[1], tuple(n[2]))), self.bits('u32', len(n[2])))
        if k in ('arg', 'ctx', 'out'):
            return 'ptr', self.lit((k,))
        if k == 'un':
            T, v = self.ev(n[2], g)
            return self.unary(n[1], T, v, g)
        if k == 'bin':
            return self.binary(n, g)
        if k == 'call':
            xs = [self.ev(x, g) for x in n[2]]
            return self.callf(self, n[1], [t for t, _ in xs], [v for _, v in xs], g)
        if k == 'if':
            tc, c = self.ev(n[1], g)
            c = self.truth(tc, c, g)
            return self.choose([(c, n[2])], n[3], g)
        if k == 'switch':
            xs = n[1]
            return self.choose([(xs[i], xs[i + 1]) for i in range(0, len(xs) - 1, 2)], xs[-1], g)
        if k == 'ifblock':
            return self.ifblock(n[1], g)
        if k == 'ref':
            return self.find(n[1])
        if k in ('seq', 'iso'):
            for w, name, x in n[1]:
                if k == 'iso':
                    self.scopes.append({})
                tv = self.ev(x, g)
                if w != 'do':
                    self.scopes[-1][name] = tv
                if k == 'iso':
                    self.scopes.pop()
            return 'void', None
        raise KeyError(k)

    def bits(self, T, v):
        O = self.O
        if O.concrete:
            return v
        from smt import bv
        return bv(v, WID[T])

    def unary(self, op, T, v, g):
        O = self.O
        if op == 'plus':
            return T, v
        if op == 'minus':
            R = 'i32' if T in ('u8', 'i8', 'u16', 'i16') else T
            v = self.convert(T, R, v)
            if isf(R):
                m = self.bits(R, 1 << (WID[R] - 1))
                return R, O.bitop('xor', v, m)
            return R, O.bin('sub', R, O.const(R, 0), v)
        if op == 'not':
            return 'u8', O.ite(self.truth(T, v, g), O.const('u8', 0), O.const('u8', 1))
        return T, O.bitop('xor', v, self.bits(T, (1 << WID[T]) - 1))

    def binary(self, n, g):
        O = self.O
        op = n[1]
        A, a = self.ev(n[2], g)
        if op in LOGIC:
            ta = self.truth(A, a, g)
            g2 = O.and_(g, ta) if op == 'land' else O.and_(g, O.not_(ta))
            if self.dead(g2):
                return 'u8', O.const('u8', 1 if ta else 0)
            B, b = self.ev(n[3], g2)
            tb = self.truth(B, b, g2)
            r = O.and_(ta, tb) if op == 'land' else O.or_(ta, tb)
            return 'u8', O.ite(r, O.const('u8', 1), O.const('u8', 0))
        B, b = self.ev(n[3], g)
        if agg(A):
            if op == 'add':
                t, v = self.callf(self, 'StringConcat' if A == 'string' else 'ListConcat', [A, B], [a, b], g)
                return A, v
            _, c = self.callf(self, 'StringCmp', [A, B], [a, b], g)
            r = O.cmp(op, 'i32', c, O.const('i32', 0))
            return 'u8', O.ite(r, O.const('u8', 1), O.const('u8', 0))
        if op in SHIFT:
            w = WID[A]
            self.need(g, O.in_range(B, b, w))
            amt = self.convert(B, A, b)
            return A, O.shift(op, A, a, amt)
        P = promote(A, B)
        a, b = self.convert(A, P, a), self.convert(B, P, b)
        if op in REL:
            return 'u8', O.ite(O.cmp(op, P, a, b), O.const('u8', 1), O.const('u8', 0))
        if op in BITW:
            return P, O.bitop(op, a, b)
        if op in ('div', 'mod') and not isf(P):
            self.need(g, O.not_(O.eqv(b, O.const(P, 0))))
            if iss(P):
                self.need(g, O.not_(O.and_(O.eqv(a, self.bits(P, 1 << (WID[P] - 1))), O.eqv(b, O.const(P, -1)))))
            if self.dead(g):
                return P, a
            if O.concrete:
                O.check(self.pre)
            return P, O.divw(op, P, a, b)
        return P, O.bin(op, P, a, b)

    def choose(self, arms, last, g):
        """arms: (condition node or truth value, branch)"""
        O = self.O
        outs = []
        rest = g
        for c, x in arms:
            if isinstance(c, tuple) and c and isinstance(c[0], str):
                if self.dead(rest):
                    break
                tc, cv = self.ev(c, rest)
                c = self.truth(tc, cv, rest)
            gx = O.and_(rest, c)
            if not self.dead(gx):
                outs.append((c, self.ev(x, gx)))
            else:
                outs.append((c, (self.static(x), None)))
            rest = O.and_(rest, O.not_(c))
        else:
            pass
        if self.dead(rest):
            fin = (self.static(last), None)
        else:
            fin = self.ev(last, rest)
        ts = [tv[0] for _, tv in outs] + [fin[0]]
        if self.O.concrete and len(outs) < len(arms):
            ts = [self.static(x) for _, x in arms] + [fin[0]]
        R = self.types.join(ts)
        r = None if fin[1] is None else self.convert(fin[0], R, fin[1])
        for c, (t, v) in reversed(outs):
            v = None if v is None else self.convert(t, R, v)
            r = self.ite(c, v, r)
        return R, r

    def static(self, n):
        T = Types(self.types.lookup)
        T.scopes = [{k: (v[0], False) for k, v in s.items()} for s in self.scopes]
        return T.ty(n)

    def ifblock(self, xs, g):
        O = self.O
        rest = g
        outs = []
        for i in range(0, len(xs) - 1, 2):
            if self.dead(rest):
                break
            tc, c = self.ev(xs[i], rest)
            c = self.truth(tc, c, rest)
            outs.append((O.and_(rest, c), xs[i + 1]))
            rest = O.and_(rest, O.not_(c))
        if len(xs) % 2:
            outs.append((rest, xs[-1]))
        base = dict()
        res = []
        for gx, x in outs:
            if self.dead(gx):
                continue
            self.scopes.append({})
            self.ev(x, gx)
            s = self.scopes.pop()
            res.append((gx, {n: v for n, v in s.items() if self.visible(n)}))
        names = []
        for _, m in res:
            names += [n for n in m if n not in names]
        for n in names:
            t, v = self.find(n)
            for gx, m in res:
                if n in m:
                    v = self.ite(gx, m[n][1], v)
            self.scopes[-1][n] = (t, v)
        return 'void', None

    def visible(self, n):
        return any(n in s for s in self.scopes)
