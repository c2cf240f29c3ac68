"""Term helpers over z3: smart constructors, exact IEEE comparison formulas, uninterpreted heavy operators,
linear normal forms for 64-bit index terms."""
import z3
import fastz3

BV = z3.BitVecSort
B64 = z3.BitVecSort(64)


class Unsupported(Exception):
    pass


def bv(v, w):
    return z3.BitVecVal(v, w)


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def is_true(e):
    return z3.is_true(e)


def is_false(e):
    return z3.is_false(e)


def And(*xs):
    out = []
    seen = set()
    for x in xs:
        if is_false(x):
            return FALSE
        if is_true(x):
            continue
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*xs):
    out = []
    seen = set()
    for x in xs:
        if is_true(x):
            return TRUE
        if is_false(x):
            continue
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Not(x):
    if is_true(x):
        return FALSE
    if is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if is_true(a):
        return b
    if is_false(a) or is_true(b):
        return TRUE
    if is_false(b):
        return Not(a)
    return z3.Implies(a, b)


def If(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a.eq(b):
        return a
    if z3.is_bool(a):
        if is_true(a) and is_false(b):
            return c
        if is_false(a) and is_true(b):
            return Not(c)
    return z3.If(c, a, b)


def isnum(t):
    return z3.is_bv_value(t)


def num(t):
    return t.as_long()


# ---------------------------------------------------------------- linear forms
_lin_memo = {}
_keep = []


class Lin:
    """const + sum coef*term (mod 2^w)"""
    __slots__ = ('w', 'c', 'm')

    def __init__(self, w, c=0, m=None):
        self.w = w
        self.c = c & ((1 << w) - 1)
        self.m = m or {}

    def add(self, o, k=1):
        M = 1 << self.w
        m = dict(self.m)
        for i, (t, c) in o.m.items():
            if i in m:
                nc = (m[i][1] + k * c) % M
                if nc == 0:
                    del m[i]
                else:
                    m[i] = (t, nc)
            else:
                nc = (k * c) % M
                if nc:
                    m[i] = (t, nc)
        return Lin(self.w, (self.c + k * o.c) % M, m)

    def scale(self, k):
        return Lin(self.w).add(self, k)

    def addc(self, k):
        return Lin(self.w, self.c + k, self.m)

    def key(self):
        return (self.w, self.c, tuple(sorted((i, c) for i, (t, c) in self.m.items())))

    def sconst(self):
        return self.c - (1 << self.w) if self.c >> (self.w - 1) else self.c

    def is_const(self):
        return not self.m

    def div(self, s):
        """exact division of every coefficient (signed view), or None"""
        if s == 1:
            return self
        M = 1 << self.w
        H = M >> 1

        def sg(v):
            return v - M if v >= H else v
        if sg(self.c) % s:
            return None
        m = {}
        for i, (t, c) in self.m.items():
            if sg(c) % s:
                return None
            m[i] = (t, (sg(c) // s) % M)
        return Lin(self.w, (sg(self.c) // s) % M, m)

    def term(self):
        k = self.key()
        r = _term_memo.get(k)
        if r is not None:
            return r
        M = 1 << self.w
        pos, neg = [], []
        for i in sorted(self.m):
            t, c = self.m[i]
            if c == 1:
                pos.append(t)
            elif c == M - 1:
                neg.append(t)
            else:
                pos.append(t * bv(c, self.w))
        r = None
        for t in pos:
            r = t if r is None else r + t
        if self.c or r is None:
            cc = bv(self.c, self.w)
            r = cc if r is None else r + cc
        for t in neg:
            r = r - t
        _term_memo[k] = r
        return r


_term_memo = {}


def lin(t):
    i = t.get_id()
    r = _lin_memo.get(i)
    if r is not None:
        return r
    r = _lin(t)
    _lin_memo[i] = r
    _keep.append(t)
    return r


def _lin(t):
    w = t.size()
    if isnum(t):
        return Lin(w, num(t))
    k = t.decl().kind()
    if k == z3.Z3_OP_BADD:
        r = Lin(w)
        for a in t.children():
            r = r.add(lin(a))
        return r
    if k == z3.Z3_OP_BSUB:
        return lin(t.arg(0)).add(lin(t.arg(1)), -1)
    if k == z3.Z3_OP_BNEG:
        return lin(t.arg(0)).scale(-1)
    if k == z3.Z3_OP_BMUL and t.num_args() == 2:
        a, b = t.arg(0), t.arg(1)
        if isnum(a):
            return lin(b).scale(num(a))
        if isnum(b):
            return lin(a).scale(num(b))
    if k == z3.Z3_OP_BSHL and isnum(t.arg(1)) and num(t.arg(1)) < w:
        return lin(t.arg(0)).scale(1 << num(t.arg(1)))
    return Lin(w, 0, {t.get_id(): (t, 1)})


def add(a, b):
    return lin(a).add(lin(b)).term()


def sub(a, b):
    return lin(a).add(lin(b), -1).term()


def norm(t):
    """canonical linear form of an index term"""
    return lin(t).term()


def zext(t, w):
    if t.size() == w:
        return t
    if isnum(t):
        return bv(num(t), w)
    return z3.ZeroExt(w - t.size(), t)


def sext(t, w):
    if t.size() == w:
        return t
    if isnum(t):
        v = num(t)
        if v >> (t.size() - 1):
            v -= 1 << t.size()
        return bv(v, w)
    return z3.SignExt(w - t.size(), t)


def trunc(t, w):
    if t.size() == w:
        return t
    if isnum(t):
        return bv(num(t), w)
    k = t.decl().kind()
    if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
        a = t.arg(0)
        if a.size() == w:
            return a
        if a.size() > w:
            return trunc(a, w)
        return zext(a, w) if k == z3.Z3_OP_ZERO_EXT else sext(a, w)
    if k == z3.Z3_OP_BADD and all(isnum(c) or c.decl().kind() in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_BADD) for c in t.children()):
        r = None
        for c in t.children():
            c = trunc(c, w)
            r = c if r is None else r + c
        return r
    return z3.Extract(w - 1, 0, t)


# ---------------------------------------------------------------- heavy operators
# Non-constant multiplication, division and remainder, and all floating point arithmetic, are uninterpreted functions;
# `exact_axioms` gives the defining equations of the integer ones for a second, exact solving attempt.
_uf = {}


def uf(name, *sorts):
    k = (name,) + tuple(s.sexpr() if hasattr(s, 'sexpr') else str(s) for s in sorts)
    f = _uf.get(k)
    if f is None:
        f = z3.Function(name, *sorts)
        _uf[k] = f
    return f


HEAVY = {}


def heavy(op, a, b):
    w = a.size()
    if isnum(a) and isnum(b):
        return z3.simplify(EXACT[op](a, b))
    if op == 'mul':
        if isnum(a):
            a, b = b, a
        if isnum(b):
            if num(b) == 0:
                return b
            if num(b) == 1:
                return a
            c = num(b)
            t = (c & -c).bit_length() - 1
            if w != 32 or bin(c >> t).count('1') < 5:
                return a * b
            # a mixing constant: congruence is usually all that is needed, in the normal form (x * odd) << t
            if t:
                return z3.Concat(z3.Extract(w - 1 - t, 0, heavy('mul', a, bv(c >> t, w))), bv(0, t))
    elif isnum(b):
        v = num(b)
        if v and v & (v - 1) == 0 and op in ('udiv', 'urem'):
            s = v.bit_length() - 1
            if op == 'udiv':
                return z3.LShR(a, bv(s, w)) if s else a
            return a & bv(v - 1, w)
        if w <= 8:
            return EXACT[op](a, b)
    f = uf('%s%d' % (op, w), BV(w), BV(w), BV(w))
    HEAVY[f.get_id()] = op
    if op == 'mul':
        COMMUT[f.get_id()] = op
    return f(a, b)


def shl(a, s):
    """a << s for a constant s; a shifted mixing product is one product, as LLVM has it"""
    w = a.size()
    if w == 32 and z3.is_app(a) and a.decl().get_id() in COMMUT and isnum(a.arg(1)):
        return heavy('mul', a.arg(0), bv(num(a.arg(1)) << s, w))
    return lin(a).scale(1 << s).term()


def rotl(a, s):
    w = a.size()
    return shl(a, s) | z3.LShR(a, bv(w - s, w))


EXACT = {
    'mul': lambda a, b: a * b,
    'udiv': lambda a, b: z3.UDiv(a, b),
    'sdiv': lambda a, b: a / b,
    'urem': lambda a, b: z3.URem(a, b),
    'srem': lambda a, b: z3.SRem(a, b),
}
COMMUT = {}


def fop(name, w, *args):
    """uninterpreted floating point operation on bit patterns"""
    if name == 'fdiv' and isnum(args[1]):
        # division by a power of two is multiplication by its (exact) reciprocal
        e, m = fparts(w)
        v = num(args[1])
        ex = (v >> m) & ((1 << e) - 1)
        bias = (1 << (e - 1)) - 1
        if v & ((1 << m) - 1) == 0 and 0 < ex and 0 < 2 * bias - ex < 2 * bias:
            return fop('fmul', w, args[0], bv(v >> (w - 1) << (w - 1) | (2 * bias - ex) << m, w))
    f = uf('%s%d' % (name, w), *([BV(a.size()) for a in args] + [BV(w)]))
    if name in ('fadd', 'fmul'):
        COMMUT[f.get_id()] = name
    return f(*args)


def fparts(w):
    return (8, 23) if w == 32 else (11, 52)


def f_isnan(x):
    w = x.size()
    e, m = fparts(w)
    mag = x & bv((1 << (w - 1)) - 1, w)
    return z3.UGT(mag, bv(((1 << e) - 1) << m, w))


def f_iszero(x):
    w = x.size()
    return (x & bv((1 << (w - 1)) - 1, w)) == bv(0, w)


# Comparisons are predicates with their order axioms first; the exact bit formula is given on a second attempt.
FCMP = {}


def x_lt(a, b):
    w = a.size()
    sa = z3.Extract(w - 1, w - 1, a) == bv(1, 1)
    sb = z3.Extract(w - 1, w - 1, b) == bv(1, 1)
    return z3.And(z3.Not(f_isnan(a)), z3.Not(f_isnan(b)), z3.Not(z3.And(f_iszero(a), f_iszero(b))),
                  z3.If(sa, z3.If(sb, z3.ULT(b, a), z3.BoolVal(True)), z3.If(sb, z3.BoolVal(False), z3.ULT(a, b))))


def x_eq(a, b):
    return z3.And(z3.Not(f_isnan(a)), z3.Not(f_isnan(b)), z3.Or(a == b, z3.And(f_iszero(a), f_iszero(b))))


def x_uno(a, b):
    return z3.Or(f_isnan(a), f_isnan(b))


XCMP = {'flt': x_lt, 'feq': x_eq, 'funo': x_uno}


def f_pred(name, a, b):
    w = a.size()
    if isnum(a) and isnum(b):
        return TRUE if z3.is_true(z3.simplify(XCMP[name](a, b))) else FALSE
    if name != 'flt' and a.get_id() > b.get_id():
        a, b = b, a
    f = uf('%s%d' % (name, w), BV(w), BV(w), z3.BoolSort())
    FCMP[f.get_id()] = name
    if name != 'flt':
        COMMUT[f.get_id()] = name
    return f(a, b)


def fcmp_axioms(a, b):
    lt, gt, eq, un = f_pred('flt', a, b), f_pred('flt', b, a), f_pred('feq', a, b), f_pred('funo', a, b)
    return [Not(And(lt, gt)), Not(And(lt, eq)), Not(And(gt, eq)), Implies(un, And(Not(lt), Not(gt), Not(eq))),
            Or(lt, gt, eq, un), Implies(a == b, And(Not(lt), Not(gt)))]


def f_lt(a, b):
    """a < b, false when unordered"""
    return f_pred('flt', a, b)


def f_eq(a, b):
    return f_pred('feq', a, b)


def f_uno(a, b):
    return f_pred('funo', a, b)


def fcmp(pred, a, b):
    if pred == 'true':
        return TRUE
    if pred == 'false':
        return FALSE
    if pred == 'ord':
        return z3.Not(f_uno(a, b))
    if pred == 'uno':
        return f_uno(a, b)
    o, r = pred[0], pred[1:]
    if o == 'o':
        if r == 'eq':
            return f_eq(a, b)
        if r == 'ne':
            return z3.And(z3.Not(f_uno(a, b)), z3.Not(f_eq(a, b)))
        if r == 'lt':
            return f_lt(a, b)
        if r == 'gt':
            return f_lt(b, a)
        if r == 'le':
            return z3.And(z3.Not(f_uno(a, b)), z3.Not(f_lt(b, a)))
        if r == 'ge':
            return z3.And(z3.Not(f_uno(a, b)), z3.Not(f_lt(a, b)))
    else:
        inv = {'eq': 'one', 'ne': 'oeq', 'lt': 'oge', 'gt': 'ole', 'le': 'ogt', 'ge': 'olt'}[r]
        return z3.Not(fcmp(inv, a, b))
    raise Unsupported('fcmp ' + pred)


def icmp(pred, a, b):
    return {
        'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
        'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
        'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()


def b2bv(c, w=1):
    return If(c, bv(1, w), bv(0, w))


def bv2b(x):
    """i1 -> Bool"""
    if z3.is_bool(x):
        return x
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and isnum(x.arg(1)) and isnum(x.arg(2)):
        v1, v2 = num(x.arg(1)), num(x.arg(2))
        if v1 == 1 and v2 == 0:
            return x.arg(0)
        if v1 == 0 and v2 == 1:
            return Not(x.arg(0))
    return x == bv(1, x.size())


def extract(hi, lo, t):
    """bit slice with the slices of concatenations and extensions resolved"""
    w = hi - lo + 1
    if lo == 0 and w == t.size():
        return t
    if isnum(t):
        return bv((num(t) >> lo) & ((1 << w) - 1), w)
    k = t.decl().kind()
    if k == z3.Z3_OP_ITE and isnum(t.arg(1)) and isnum(t.arg(2)):
        return If(t.arg(0), extract(hi, lo, t.arg(1)), extract(hi, lo, t.arg(2)))
    if k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR) and w == 1:
        cs = [extract(hi, lo, c) for c in t.children()]
        r = cs[0]
        for c in cs[1:]:
            r = r & c if k == z3.Z3_OP_BAND else r | c if k == z3.Z3_OP_BOR else r ^ c
        return r
    if k == z3.Z3_OP_CONCAT:
        pos = t.size()
        parts = []
        for c in t.children():
            top = pos - 1
            bot = pos - c.size()
            pos = bot
            a, b = min(hi, top), max(lo, bot)
            if a >= b:
                parts.append(extract(a - bot, b - bot, c))
        return parts[0] if len(parts) == 1 else z3.Concat(*parts)
    if k == z3.Z3_OP_ZERO_EXT:
        a = t.arg(0)
        if hi < a.size():
            return extract(hi, lo, a)
        if lo >= a.size():
            return bv(0, w)
    if k == z3.Z3_OP_EXTRACT:
        l0 = t.params()[1]
        return extract(hi + l0, lo + l0, t.arg(0))
    return z3.Extract(hi, lo, t)
