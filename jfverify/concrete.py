"""Concrete execution of the extracted transition system (the terms the VC generator produced), used only to discard
invariant candidates that are false on some run before any solver call. Dropping a candidate can never make a proof
succeed, so nothing here is trusted."""
import random, time
import z3
import smt
from smt import *
from engine import Cells, Base, is_ptr
from ops import SArg, LArg, WID, isf
import replay

M64 = (1 << 64) - 1


class Skip(Exception):
    pass


K = z3


class Compiler:
    """z3 terms (bit vectors and booleans) to Python functions over the environment S (symbols) and U (functions)"""

    def __init__(self):
        self.n = 0

    def compile(self, terms, params=()):
        lines, names = [], {}
        pn = {}
        for i, p in enumerate(params):
            pn[p.get_id()] = 'p%d' % i
        order, seen = [], set()
        stack = [(t, False) for t in terms]
        while stack:
            t, done = stack.pop()
            i = t.get_id()
            if done:
                order.append(t)
                continue
            if i in seen:
                continue
            seen.add(i)
            stack.append((t, True))
            for c in t.children():
                if c.get_id() not in seen:
                    stack.append((c, False))
        for t in order:
            i = t.get_id()
            if i in names:
                continue
            names[i] = self.node(t, names, pn, lines)
        args = ', '.join(['S', 'U'] + ['p%d' % i for i in range(len(params))])
        ret = ', '.join(names[t.get_id()] for t in terms)
        src = 'def f(%s):\n%s  return (%s,)\n' % (args, ''.join('  %s\n' % l for l in lines), ret)
        g = {}
        exec(compile(src, '<terms>', 'exec'), {'sx': sx, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}, g)
        return g['f']

    def node(self, t, names, pn, lines):
        i = t.get_id()
        if i in pn:
            return pn[i]
        d = t.decl()
        k = d.kind()
        if k == z3.Z3_OP_TRUE:
            return 'True'
        if k == z3.Z3_OP_FALSE:
            return 'False'
        if z3.is_bv_value(t):
            return str(t.as_long())
        ch = [names[c.get_id()] for c in t.children()]
        if k == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                e = 'S[%d]' % i
            else:
                e = 'U[%d](%s)' % (d.get_id(), ', '.join(ch))
        else:
            w = t.size() if z3.is_bv(t) else 0
            m = (1 << w) - 1
            cw = t.arg(0).size() if t.num_args() and z3.is_bv(t.arg(0)) else 0
            e = self.expr(t, d, k, ch, w, m, cw)
        n = 't%d' % i
        lines.append('%s = %s' % (n, e))
        return n

    def expr(self, t, d, k, ch, w, m, cw):
        if k == z3.Z3_OP_BADD:
            return '(%s) & %d' % (' + '.join(ch), m)
        if k == z3.Z3_OP_BSUB:
            return '(%s) & %d' % (' - '.join(ch), m)
        if k == z3.Z3_OP_BNEG:
            return '(-%s) & %d' % (ch[0], m)
        if k == z3.Z3_OP_BMUL:
            return '(%s) & %d' % (' * '.join(ch), m)
        if k == z3.Z3_OP_BAND:
            return ' & '.join(ch)
        if k == z3.Z3_OP_BOR:
            return ' | '.join(ch)
        if k == z3.Z3_OP_BXOR:
            return ' ^ '.join(ch)
        if k == z3.Z3_OP_BNOT:
            return '%s ^ %d' % (ch[0], m)
        if k == z3.Z3_OP_BSHL:
            return '((%s << %s) & %d if %s < %d else 0)' % (ch[0], ch[1], m, ch[1], w)
        if k == z3.Z3_OP_BLSHR:
            return '(%s >> %s if %s < %d else 0)' % (ch[0], ch[1], ch[1], w)
        if k == z3.Z3_OP_BASHR:
            return '(sx(%s, %d) >> min(%s, %d)) & %d' % (ch[0], w, ch[1], w, m)
        if k == z3.Z3_OP_CONCAT:
            e = ch[0]
            for c, x in zip(ch[1:], t.children()[1:]):
                e = '((%s) << %d | %s)' % (e, x.size(), c)
            return e
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = d.params()
            return '(%s >> %d) & %d' % (ch[0], lo, m)
        if k == z3.Z3_OP_ZERO_EXT:
            return ch[0]
        if k == z3.Z3_OP_SIGN_EXT:
            return 'sx(%s, %d) & %d' % (ch[0], cw, m)
        if k == z3.Z3_OP_ITE:
            return '(%s if %s else %s)' % (ch[1], ch[0], ch[2])
        if k == z3.Z3_OP_EQ:
            return '%s == %s' % (ch[0], ch[1])
        if k == z3.Z3_OP_DISTINCT:
            return '%s != %s' % (ch[0], ch[1])
        if k == z3.Z3_OP_ULT:
            return '%s < %s' % (ch[0], ch[1])
        if k == z3.Z3_OP_ULEQ:
            return '%s <= %s' % (ch[0], ch[1])
        if k == z3.Z3_OP_UGT:
            return '%s > %s' % (ch[0], ch[1])
        if k == z3.Z3_OP_UGEQ:
            return '%s >= %s' % (ch[0], ch[1])
        s = {z3.Z3_OP_SLT: '<', z3.Z3_OP_SLEQ: '<=', z3.Z3_OP_SGT: '>', z3.Z3_OP_SGEQ: '>='}.get(k)
        if s:
            return 'sx(%s, %d) %s sx(%s, %d)' % (ch[0], cw, s, ch[1], cw)
        if k == z3.Z3_OP_AND:
            return ' and '.join(ch) if ch else 'True'
        if k == z3.Z3_OP_OR:
            return ' or '.join(ch) if ch else 'False'
        if k == z3.Z3_OP_NOT:
            return 'not %s' % ch[0]
        if k == z3.Z3_OP_IMPLIES:
            return '(not %s) or %s' % (ch[0], ch[1])
        if k == z3.Z3_OP_XOR:
            return '%s != %s' % (ch[0], ch[1])
        n = {z3.Z3_OP_BUDIV: 'udiv', z3.Z3_OP_BUREM: 'urem', z3.Z3_OP_BSDIV: 'sdiv', z3.Z3_OP_BSREM: 'srem'}.get(k)
        if n is None:
            n = {z3.Z3_OP_BUDIV_I: 'udiv', z3.Z3_OP_BUREM_I: 'urem', z3.Z3_OP_BSDIV_I: 'sdiv', z3.Z3_OP_BSREM_I: 'srem'}.get(k)
        if n:
            return '%s(%s, %s, %d)' % (n, ch[0], ch[1], w)
        raise Skip('no concrete reading of %s' % d.name())


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def udiv(a, b, w):
    return a // b if b else (1 << w) - 1


def urem(a, b, w):
    return a % b if b else a


def sdiv(a, b, w):
    m = (1 << w) - 1
    if not b:
        return 1 if a >> (w - 1) else m
    x, y = sx(a, w), sx(b, w)
    q = abs(x) // abs(y)
    return (q if (x < 0) == (y < 0) else -q) & m


def srem(a, b, w):
    if not b:
        return a
    x, y = sx(a, w), sx(b, w)
    r = abs(x) % abs(y)
    return (-r if x < 0 else r) & ((1 << w) - 1)


def mix(*a):
    h = 0x9E3779B97F4A7C15
    for x in a:
        h = ((h ^ int(x)) * 0xBF58476D1CE4E5B9 + 0x94D049BB133111EB) & M64
        h ^= h >> 29
    return h


class UFs(dict):
    """decl id -> Python function; made on first use"""

    def __init__(self, cf):
        self.cf = cf

    def __missing__(self, k):
        f = self.cf.default_uf(k)
        self[k] = f
        return f


class Syms(dict):
    def __init__(self, cf):
        self.cf = cf

    def __missing__(self, k):
        v = self.cf.default_sym(k)
        self[k] = v
        return v


class Filter:
    def __init__(self, kc, seed=7):
        self.kc, self.eng = kc, kc.eng
        self.rng = random.Random(seed)
        self.cc = Compiler()
        self.cache = {}
        self.decls = {}
        self.visits = 0

    # ------------------------------------------------------------ terms
    def note(self, t):
        """remember the declarations below t"""
        stack, seen = [t], set()
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                self.decls[i if x.num_args() == 0 else d.get_id()] = x if x.num_args() == 0 else d
            stack.extend(x.children())

    def comp(self, terms, params=()):
        key = tuple(t.get_id() for t in terms) + tuple(p.get_id() for p in params)
        r = self.cache.get(key)
        if r is None:
            for t in terms:
                self.note(t)
            r = (self.cc.compile(terms, params), terms, params)
            self.cache[key] = r
        return r[0]

    def ev(self, t, *a, params=()):
        return self.comp([t], params)(self.S, self.U, *a)[0]

    def default_sym(self, k):
        t = self.decls[k]
        if z3.is_bool(t):
            return False
        return mix(hash(t.decl().name()), self.runid) & ((1 << t.size()) - 1)

    def default_uf(self, k):
        d = self.decls[k]
        name = d.name()
        rs = d.range()
        w = rs.size() if rs.kind() == z3.Z3_BV_SORT else 0
        if k in smt.FCMP:
            a, b = z3.BitVecs('x!c y!c', d.domain(0).size())
            f = self.cc.compile([smt.XCMP[smt.FCMP[k]](a, b)], (a, b))
            return lambda x, y: f(None, None, x, y)[0]
        if k in smt.HEAVY:
            op = smt.HEAVY[k]
            m = (1 << w) - 1
            if op == 'mul':
                return lambda x, y: x * y & m
            if op == 'pop8':
                return lambda x: bin(x).count('1')
            g = {'udiv': udiv, 'sdiv': sdiv, 'urem': urem, 'srem': srem}[op]
            return lambda x, y: g(x, y, w)
        cd = getattr(self.eng, 'cmpdefs', {}).get(k)
        if cd:
            def cmpf(*a, f=cd[0], m=cd[1], g=cd[2]):
                x, i, y, j, n = a[:m], a[m], a[m + 1:-2], a[-2], a[-1]
                f, g = self.U[f.get_id()], self.U[g.get_id()]
                for t in range(min(n, 400)):
                    u, v = f(*x, i + t), g(*y, j + t)
                    if u != v:
                        return 255 if u < v else 1
                return 0
            return cmpf
        if k in self.eng.folds:
            r = self.fold(k)
            if r:
                return r
        h = hash(name)
        com = k in smt.COMMUT
        m = (1 << w) - 1
        if w == 0:
            return lambda *a: bool(mix(h, *a) & 1)
        if com:
            return lambda *a: mix(h, *sorted(a)) & m
        return lambda *a: mix(h, *a) & m

    def fold(self, k):
        f, defn, _ = self.eng.folds[k]
        dom = [f.domain(i) for i in range(f.arity())]
        ps = [z3.BitVec('fp!%d' % i, s.size()) if s.kind() == z3.Z3_BV_SORT else z3.Bool('fp!%d' % i) for i, s in enumerate(dom)]
        d = defn(*ps)
        if isinstance(d, list) or d is None:
            one = {32: 0x3f800000, 64: 0x3ff0000000000000}.get(f.range().size())
            h, m = hash(f.name()), (1 << f.range().size()) - 1
            return lambda x: 0 if x == 0 else one if x == 1 else mix(h, x) & m
        step = self.comp([d], tuple(ps))
        memo = {}
        zero = False if f.range().kind() != z3.Z3_BV_SORT else 0

        def get(*a):
            a0, n = a[:-1], a[-1]
            if n > 4096:
                return zero
            l = memo.setdefault(a0, [])
            while len(l) <= n:
                l.append(step(self.S, self.U, *a0, len(l))[0])
            return l[n]
        self.memos.append(memo)
        return get

    # ------------------------------------------------------------ one run
    def run(self, vals):
        eng, kc = self.eng, self.kc
        self.runid = self.rng.getrandbits(30)
        self.memos = []
        self.S, self.U = Syms(self), UFs(self)
        i = 0
        for a in kc.A:
            if isinstance(a, SArg) and a.tag not in WID:
                continue
            v = vals[i]
            i += 1
            if isinstance(a, LArg):
                self.S[a.len.get_id()] = len(v)
                self.U[a.node.uf.get_id()] = lambda k, v=v, r=self.runid: v[k] if k < len(v) else mix(5, k, r) & 255
            elif isinstance(a, SArg):
                self.S[a.v.get_id()] = v
            else:
                self.S[a.len.get_id()] = len(v)
                self.U[a.lens.get_id()] = lambda k, v=v: len(v[k]) if k < len(v) else 0
                self.U[a.byts.get_id()] = lambda k, j, v=v: v[k][j] if k < len(v) and j < len(v[k]) else mix(9, k, j) & 255
        # never-written contents: one value per block and index, whatever the state
        for o in eng.allocs:
            for fo, node in (eng.mem0.get(o.id) or {}).items() if isinstance(eng.mem0.get(o.id), dict) else ():
                if isinstance(node, Base) and not node.pre:
                    self.U[node.uf.get_id()] = lambda i, h=o.id, r=self.runid: mix(h, i, r) & 255
        for f in eng.facts:
            if not self.ev(f):
                raise Skip('facts')
        self.steps = 0
        self.region(None)

    def region(self, parent):
        ls = [L for L in self.loops if self.par(L) is parent]
        for L in ls:
            if self.ev(L.guard):
                self.loop(L)

    def par(self, L):
        P = L.parent
        by = {M.header: M for M in self.loops}
        while P and P not in by:
            P = self.eng.loops[P].parent
        return by.get(P)

    def enter(self, L, S):
        """new state of L's symbols and memory from the view S"""
        upd = [(s.get_id(), self.ev(v)) for s, v in S.sub]
        arr = []
        for oid, h in L.havoc.items():
            if not isinstance(h, dict):
                continue
            o = self.objs.get(oid)
            if o is None or o.count is None:
                raise Skip('block')
            n = self.ev(o.count)
            if n > 600:
                raise Skip('block')
            for fo, node in h.items():
                if not isinstance(node, Base):
                    raise Skip('pointers')
                m = S.mem.get(oid)
                m = (m if m is not None else self.eng.mem0[oid])[fo]
                kk = z3.BitVec('kk!c', 64)
                f = self.comp([m.sel(kk)], (kk,))
                d = {k: f(self.S, self.U, k)[0] for k in range(n)}
                arr.append((node.uf.get_id(), d, oid))
        for i, v in upd:
            self.S[i] = v
        for k, d, h in arr:
            self.U[k] = lambda i, d=d, h=h, r=self.runid: d[i] if i in d else mix(h, i, r) & 255
        for m in self.memos:
            m.clear()

    def loop(self, L):
        self.enter(L, L.entry)
        while True:
            self.steps += 1
            if self.steps > 300 or time.time() > self.tend:
                raise Skip('long')
            self.visit(L)
            self.region(L)
            for g, S in L.back:
                if self.ev(g):
                    self.enter(L, S)
                    break
            else:
                return

    def visit(self, L):
        # all candidates on the first visits, then a sample
        cs = self.by[L]
        self.visits += 1
        full = self.nvis[L] < 12 or self.rng.random() < 0.25
        self.nvis[L] += 1
        if not full:
            return
        kk = z3.BitVec('kk!c', 64)
        ks = list(range(12)) + [self.rng.randrange(80) for _ in range(6)] + [M64]
        keep = []
        for c in cs:
            f = self.fns.get(c)
            if f is None:
                f = self.comp([c.fn(L.head, kk)], (kk,)) if c.quant else self.comp([c.fn(L.head)])
                self.fns[c] = f
            try:
                ok = all(f(self.S, self.U, k)[0] for k in ks) if c.quant else f(self.S, self.U)[0]
            except RecursionError:
                ok = True
            if ok:
                keep.append(c)
            else:
                c.alive = False
        if len(keep) != len(cs):
            self.by[L] = keep

    # ------------------------------------------------------------ driver
    def filter(self, cands, seconds=3.0, runs=60):
        eng = self.eng
        self.objs = {o.id: o for o in eng.allocs}
        for L in eng.loops.values():
            if hasattr(L, 'havoc'):
                pass
        self.loops = sorted([L for L in eng.loops.values() if hasattr(L, 'head')], key=lambda L: eng.pos[L.header])
        self.by = {L: [c for c in cands if c.loop is L and c.alive] for L in self.loops}
        self.nvis = {L: 0 for L in self.loops}
        self.fns = {}
        self.tend = time.time() + seconds
        gen = getattr(self.kc.contract, 'samples', None)
        done = 0
        reg = self.kc.reg
        why = ''
        for n in range(runs):
            if time.time() > self.tend:
                break
            vals = None
            for _ in range(50):
                v = gen(self.rng) if gen and self.rng.random() < 0.7 else replay.rand_args(self.rng, reg.params, 24)
                if replay.expected_pre(self.kc.contract, reg, v):
                    vals = v
                    break
            if vals is None:
                continue
            try:
                self.run(vals)
                done += 1
            except Skip as e:
                why = str(e)
                if why == 'long':
                    done += 1
                elif why not in ('facts',):
                    break
        return done, why
