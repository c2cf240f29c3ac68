"""Path-wise verification condition generator for /repo's class member functions (allocator, parser, registry, engines).

64-bit flat addresses; stack and globals live at fixed concrete addresses, everything reached through a symbolic
pointer lives in a byte-array heap and every access to it must be proved inside a region the contract grants.
Callees are contracts (handlers). Loops are cut at their header: whatever the body modifies is forgotten there, and
candidate invariants are kept only as far as they hold on entry and are preserved (checked by z3, never assumed)."""
import re, time
import z3
from smt import Unsupported

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
STACK0, GLOB0, FN0 = 0x7f0000000000, 0x7e0000000000, 0x7d0000000000
LIMIT = 0x700000000000


def BVV(v, w=64):
    return z3.BitVecVal(v, w)


def simp(t):
    return z3.simplify(t) if isinstance(t, z3.ExprRef) else t


def conc(t):
    """integer value of a term, or None"""
    if z3.is_bv_value(t):
        return t.as_long()
    t = simp(t)
    return t.as_long() if z3.is_bv_value(t) else None


def tsize(t):
    if isinstance(t, str):
        if t == 'ptr':
            return 8
        if t[0] == 'i' and t[1:].isdigit():
            return (int(t[1:]) + 7) // 8
        if t == 'float':
            return 4
        if t == 'double':
            return 8
        raise Unsupported('type ' + t)
    if 's' in t:
        return t['size']
    if 'a' in t:
        return t['n'] * t['es']
    if 'vec' in t:
        return t['n'] * tsize(t['vec'])
    raise Unsupported('type')


def bits(t):
    if t[0] == 'i' and t[1:].isdigit():
        return int(t[1:])
    return 8 * tsize(t)


class Heap:
    """writes over a base array"""
    def __init__(self, base):
        self.base = base
        self.log = ()

    def copy(self):
        h = Heap(self.base)
        h.log = self.log
        return h


class State:
    def __init__(self):
        self.env = {}
        self.cells = {}      # address -> (term, byte index, bytes in term)
        self.objs = {}       # concrete objects: base -> size
        self.heap = None
        self.path = []
        self.regions = []    # (name, base, size, writable)
        self.ghost = {}
        self.events = []
        self.frames = {}
        self.unroll = {}
        self.prev = None
        self.block = None
        self.pc = 0
        self.const_exit = {}
        self.reads = frozenset()
        self.model = None    # (model of the array-free part, number of path conditions it is known for)
        self.watch = ()      # (ghost name, address, region): the byte stored there

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.cells = dict(self.cells)
        s.objs = dict(self.objs)
        s.heap = self.heap.copy()
        s.path = list(self.path)
        s.regions = list(self.regions)
        s.ghost = dict(self.ghost)
        s.reads = self.reads
        s.watch = self.watch
        s.model = self.model
        s.events = list(self.events)
        s.frames = dict(self.frames)
        s.unroll = dict(self.unroll)
        s.const_exit = dict(self.const_exit)
        s.prev, s.block, s.pc = self.prev, self.block, self.pc
        return s


class Ob:
    def __init__(self, kind, name, path, claim):
        self.kind, self.name, self.path, self.claim = kind, name, path, claim


class Stop(Exception):
    """the path ends here (noreturn callee, contract satisfied)"""


class Restart(Exception):
    pass


class Fork(Exception):
    def __init__(self, conds):
        self.conds = conds


class Forks:
    """result of a handler with several outcomes: (condition, function(state) -> value)"""
    def __init__(self, alts):
        self.alts = alts


class Exec:
    MAXPATHS = 4000

    def __init__(self, fn, mod, handlers, timeout=10000, deadline=None):
        self.fn, self.mod = fn, mod
        self.handlers = [(re.compile(rx), h) for rx, h in handlers]
        self.blocks = {b['id']: b['ins'] for b in fn['blocks']}
        self.entry = fn['blocks'][0]['id']
        self.loops = {l['header']: l for l in fn['loops']}
        self.inloops = {}
        for h, l in self.loops.items():
            for b in l['blocks']:
                self.inloops.setdefault(b, []).append(h)
        self.timeout = timeout
        self.deadline = deadline or time.time() + 300
        self.cuts = set()
        self.modified = {}    # header -> {'cells': {(addr, n)}, 'ghost': set, 'regions': {name}, 'phis'}
        self.dead = set()
        self.obs = []
        self.trusted = set()
        self.queries = 0
        self.arr_memo = {}
        self.memo = {}
        self.last_model = None
        self.solver_s = 0.0
        self.fresh_n = 0
        self.bounds = []      # terms for <= candidates
        self.strides = [1, 8, 16]
        self.extra_cands = None
        self.on_ret = None
        self.on_indirect = None
        self.setup = None
        self.loop_events = {'error-status'}
        self.invariants = 0
        self.loop_obs = 0

    # ------------------------------------------------------------ solver
    def fresh(self, name, w=64):
        self.fresh_n += 1
        return z3.BitVec('%s!%d' % (name, self.fresh_n), w)

    def check(self, path, claim=None, timeout=None):
        """'unsat' / 'sat' / 'unknown' of path and not claim"""
        if claim is not None:
            c = simp(claim)
            if z3.is_true(c):
                return 'unsat', None
        if time.time() > self.deadline:
            return 'unknown', None
        if claim is not None and not self.has_array(claim):
            # few hypotheses first: the latest ones are usually enough
            fs = [x for x in path if not self.has_array(x)]
            for n in (5, 14):
                if len(fs) > 2 * n:
                    r, _ = self.ask(fs[-n:] + [z3.Not(claim)], 300)
                    if r == 'unsat':
                        return r, None
            # without the memory: fewer hypotheses, so 'unsat' carries over
            r, _ = self.ask([x for x in path if not self.has_array(x)] + [z3.Not(claim)], (timeout or self.timeout) // 2)
            if r == 'unsat':
                return r, None
        return self.ask(path + ([z3.Not(claim)] if claim is not None else []), timeout or self.timeout)

    def ask(self, fs, ms):
        # a restart runs the same prefix again: same terms, same answers
        key = tuple(sorted(f.get_id() for f in fs))
        hit = self.memo.get(key)
        if hit is not None and (hit[1] != 'unknown' or hit[3] >= ms):
            return hit[1], hit[2]
        r, m = self.ask1(fs, ms)
        if time.time() < self.deadline:
            self.memo[key] = (list(fs), r, m, ms)
        return r, m

    def ask1(self, fs, ms):
        left = ms
        while True:
            spent = 0
            for mk in (z3.SimpleSolver, z3.Solver):
                s = mk()
                s.set('timeout', max(left, 50))
                s.add(*fs)
                t, c = time.time(), time.process_time()
                r = s.check()
                spent += (time.process_time() - c) * 1000
                self.solver_s += time.time() - t
                self.queries += 1
                if r != z3.unknown:
                    return str(r), (s.model() if r == z3.sat else None)
            # the limit is in processor time: a busy machine must not change the outcome
            if spent < 1.2 * left and time.time() < self.deadline and left < 8 * ms:
                left = left * 2
                continue
            return 'unknown', None

    def has_array(self, t):
        k = t.get_id()
        r = self.arr_memo.get(k)
        if r is not None:
            return r[1]
        todo, seen, hit = [t], set(), False
        while todo and not hit:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                hit = True
                break
            if z3.is_app(x) and (x.decl().kind() == z3.Z3_OP_SELECT or z3.is_array(x)):
                hit = True
            todo.extend(x.children())
        self.arr_memo[k] = (t, hit)
        return hit

    def must(self, st, claim):
        return self.check(st.path, claim, 1500)[0] == 'unsat'

    def feasible(self, st, cond):
        c = simp(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        # without the memory: a path explored in vain is only lost time
        if self.has_array(c):
            return True
        if st.model is not None:
            m, n = st.model
            if all(self.has_array(x) or z3.is_true(m.eval(x, model_completion=True)) for x in st.path[n:]):
                st.model = (m, len(st.path))
                if z3.is_true(m.eval(c, model_completion=True)):
                    return True
            else:
                st.model = None
        fs = [x for x in st.path if not self.has_array(x)]
        if len(fs) > 24 and self.ask(fs[-12:] + [c], 200)[0] == 'unsat':
            return False
        r, m = self.ask(fs + [c], 600)
        if m is not None:
            self.last_model = m
        return r != 'unsat'

    def oblige(self, st, kind, name, claim):
        o = Ob(kind, name, list(st.path), claim)
        o.at = '%s+%d' % (st.block, st.pc)
        o.reads = st.reads
        self.obs.append(o)

    # ------------------------------------------------------------ memory
    def stack(self, st, size, name='alloca'):
        self.nstack += 1
        a = STACK0 + self.nstack * 0x100000
        if size > 0xff000:
            raise Unsupported('large stack object')
        st.objs[a] = size
        return a

    def obj_of(self, st, a):
        b = a & ~0xfffff
        return b if b in st.objs else None

    def glob(self, st, name):
        if name not in self.gaddr:
            g = self.mod['globals'].get(name)
            a = GLOB0 + (len(self.gaddr) + 1) * 0x100000
            self.gaddr[name] = a
            self.gname[a] = name
        a = self.gaddr[name]
        if a not in st.objs:
            g = self.mod['globals'].get(name) or {}
            try:
                st.objs[a] = tsize(g['t'])
            except (Unsupported, KeyError):
                st.objs[a] = 8
            if g.get('const') and 'init' in g:
                try:
                    self.init(st, a, g['init'])
                except Unsupported:
                    pass
        return a

    def init(self, st, a, v):
        if 'agg' in v:
            t = v['t']
            if 's' in t:
                for o, x in zip(t['o'], v['agg']):
                    self.init(st, a + o, x)
            else:
                es = t.get('es') or tsize(t['vec'])
                for i, x in enumerate(v['agg']):
                    self.init(st, a + i * es, x)
            return
        if v.get('zero'):
            for i in range(tsize(v['t'])):
                st.cells[a + i] = (BVV(0, 8), 0, 1)
            return
        x = self.val(st, v)
        if isinstance(x, list):
            raise Unsupported('initialiser')
        self.cstore(st, a, x)

    def cstore(self, st, a, v):
        n = (v.size() + 7) // 8
        if v.size() % 8:
            v = z3.ZeroExt(8 * n - v.size(), v)
        for i in range(n):
            st.cells[a + i] = (v, i, n)

    def cload(self, st, a, n):
        c = st.cells.get(a)
        if c is not None and c[1] == 0 and c[2] == n and all(
                st.cells.get(a + i) is not None and st.cells[a + i][0] is c[0] and st.cells[a + i][1] == i for i in range(1, n)):
            return c[0]
        out = []
        whole = all(a + i not in st.cells for i in range(n))
        if whole:
            v = self.fresh('uninit', 8 * n)
            self.cstore(st, a, v)
            return v
        for i in range(n):
            c = st.cells.get(a + i)
            if c is None:
                v = self.fresh('uninit', 8)
                st.cells[a + i] = (v, 0, 1)
                out.append(v)
            elif c[2] == 1:
                out.append(c[0])
            else:
                out.append(z3.Extract(8 * c[1] + 7, 8 * c[1], c[0]))
        r = z3.Concat(*reversed(out)) if n > 1 else out[0]
        return simp(r)

    def region_of(self, st, a, n):
        terms = {x.get_id() for x in self.flatsum(simp(a))}
        hit = [r for r in st.regions if r[1].get_id() in terms or all(x.get_id() in terms for x in self.flatsum(r[1]))]
        for r in hit or list(reversed(st.regions)):
            name, base, size, wr = r
            d = simp(a - base)
            nn = n if isinstance(n, z3.ExprRef) else BVV(n)
            c = z3.And(z3.ULE(nn, size), z3.ULE(d, size - nn))
            if self.must(st, c):
                return r
        return None

    def access(self, st, a, n, write, what):
        r = self.region_of(st, a, n)
        nn = n if isinstance(n, z3.ExprRef) else BVV(n)
        if r is None:
            self.oblige(st, 'bounds', what, z3.Or(FALSE, *[z3.And(z3.ULE(nn, s), z3.ULE(a - b, s - nn)) for _, b, s, w in st.regions if w or not write]))
        else:
            self.oblige(st, 'bounds', what, TRUE if r[3] or not write else FALSE)
        if write and r is not None:
            st.ghost.setdefault('!written', frozenset())
            st.ghost['!written'] = st.ghost['!written'] | {r[0]}
        return r

    def hread(self, st, a, n, reg=None):
        # two accesses in different granted regions never overlap (the regions are pairwise disjoint by contract)
        def disjoint(b, m, r2):
            nonlocal reg
            if r2 is not None:
                if reg is None:
                    reg = self.region_of(st, a, n)
                    reg = reg[0] if reg else ''
                if reg and reg != r2:
                    return True
            d = simp(a - b)
            c = conc(d)
            if c is not None:
                if isinstance(m, int):
                    return c >= m and c <= (1 << 64) - n
            mm = m if isinstance(m, z3.ExprRef) else BVV(m)
            return self.must(st, z3.And(z3.UGE(a - b, mm), z3.ULE(a - b, BVV((1 << 64) - n))))
        log = list(st.heap.log)
        while log:
            w = log.pop()
            if w[0] == 'w':
                _, b, v, m, r2 = w
                if conc(a - b) == 0 and m == n:
                    return v
                if disjoint(b, m, r2):
                    continue
                if m == n and self.must(st, a == b):
                    return v
                # byte by byte
                if n > 1:
                    h = st.heap
                    out = [self.hread(st, simp(a + i), 1, reg) for i in range(n)]
                    return simp(z3.Concat(*reversed(out)))
                d = simp(a - b)
                c = conc(d)
                if c is not None:
                    return simp(z3.Extract(8 * c + 7, 8 * c, v))
                saved = st.heap
                st.heap = Heap(saved.base)
                st.heap.log = tuple(log)
                rest = self.hread(st, a, n, reg)
                st.heap = saved
                byte = z3.Extract(7, 0, z3.LShR(v, z3.ZeroExt(0, self.resize(d, v.size())) * 8))
                return z3.If(z3.ULT(d, BVV(m)), byte, rest)
            else:
                _, b, size, arr, r2 = w
                if disjoint(b, size, r2):
                    continue
                if self.must(st, z3.And(z3.ULE(BVV(n), size), z3.ULE(a - b, size - n))):
                    return self.named(st, arr, a, n)
                raise Unsupported('read across a forgotten region')
        return self.named(st, st.heap.base, a, n)

    def resize(self, t, w):
        if t.size() > w:
            return z3.Extract(w - 1, 0, t)
        return z3.ZeroExt(w - t.size(), t) if t.size() < w else t

    def named(self, st, arr, a, n):
        """one constant per distinct read, defined by the memory"""
        a = simp(a)
        k = (arr.get_id(), a.get_id(), n)
        if k not in self.reads:
            self.fresh_n += 1
            self.reads[k] = (arr, a, z3.BitVec('mem!%d' % self.fresh_n, 8 * n))
        v = self.reads[k][2]
        if k not in st.reads:
            st.reads = st.reads | {k}
            st.path.append(v == self.sel(arr, a, n))
        return v

    def sel(self, arr, a, n):
        if n == 1:
            return z3.Select(arr, simp(a))
        return z3.Concat(*[z3.Select(arr, simp(a + i)) for i in reversed(range(n))])

    def havoc(self, st, base, size, name='havoc', reg=None):
        self.fresh_n += 1
        arr = z3.Array('%s!%d' % (name, self.fresh_n), z3.BitVecSort(64), z3.BitVecSort(8))
        st.heap.log = st.heap.log + (('h', base, size, arr, reg),)
        for k, addr, wreg in st.watch:
            if reg is not None and reg != wreg:
                continue
            st.ghost[k] = z3.If(z3.ULT(addr - base, size if isinstance(size, z3.ExprRef) else BVV(size)), self.sel(arr, addr, 1), st.ghost[k])
        return arr

    def load(self, st, a, n, what='load'):
        c = conc(a)
        if c is not None and c >= FN0 and c < STACK0 + (1 << 40):
            o = self.obj_of(st, c)
            if o is None or c + n > o + st.objs[o]:
                self.oblige(st, 'bounds', what + ' of a local object', FALSE)
                return self.fresh('bad', 8 * n)
            return self.cload(st, c, n)
        cb = self.split(st, a)
        r = self.access(st, a, n, False, what)
        if r is None:
            return self.fresh('unknown', 8 * n)
        return self.hread(st, simp(a), n, r[0])

    def split(self, st, a):
        """symbolic offset into a local object"""
        a = simp(a)
        for x in self.flatsum(a):
            c = conc(x)
            if c is not None and FN0 <= c < STACK0 + (1 << 40):
                raise Unsupported('symbolic offset into a local object')

    def flatsum(self, a):
        if a.decl().kind() == z3.Z3_OP_BADD:
            return [y for x in a.children() for y in self.flatsum(x)]
        return [a]

    def store(self, st, a, v, what='store'):
        n = (v.size() + 7) // 8
        c = conc(a)
        if c is not None and c >= FN0 and c < STACK0 + (1 << 40):
            o = self.obj_of(st, c)
            if o is None or c + n > o + st.objs[o] or o < STACK0:
                self.oblige(st, 'bounds', what + ' to a local object', FALSE)
                return
            self.cstore(st, c, v)
            return
        self.split(st, a)
        r = self.access(st, a, n, True, what)
        if v.size() % 8:
            v = z3.ZeroExt(8 * n - v.size(), v)
        st.heap.log = st.heap.log + (('w', simp(a), v, n, r[0] if r else None),)
        for k, addr, wreg in st.watch:
            if r and r[0] != wreg:
                continue    # different regions do not overlap
            d = simp(addr - a)
            b = v if n == 1 else z3.Extract(7, 0, z3.LShR(v, self.resize(d, v.size()) * 8))
            st.ghost[k] = simp(z3.If(z3.ULT(d, BVV(n)), b, st.ghost[k]))

    # ------------------------------------------------------------ values
    def val(self, st, v):
        if isinstance(v, str):
            return st.env[v]
        if 'c' in v:
            return BVV(int(v['c']), bits(v['t']))
        if 'f' in v:
            return BVV(int(v['f']), bits(v['t']))
        if 'null' in v:
            return BVV(0)
        if 'undef' in v or 'zero' in v:
            return self.undef(v['t'], 'zero' in v)
        if 'fn' in v:
            if v['fn'] not in self.fnaddr:
                self.fnaddr[v['fn']] = FN0 + 0x100 * (len(self.fnaddr) + 1)
            return BVV(self.fnaddr[v['fn']])
        if 'g' in v:
            return BVV(self.glob(st, v['g']))
        if 'cgep' in v:
            return simp(self.gep(st, self.val(st, v['cgep']), v['gep']))
        if 'agg' in v:
            return [self.val(st, x) for x in v['agg']]
        if 'ce' in v:
            if v['ce'] in ('ptrtoint', 'inttoptr', 'bitcast'):
                return self.val(st, v['ops'][0])
        raise Unsupported('constant %s' % (v,))

    def undef(self, t, zero=False):
        if isinstance(t, dict):
            if 's' in t:
                return [self.undef(x, zero) for x in t['s']]
            if 'a' in t:
                return [self.undef(t['a'], zero) for _ in range(t['n'])]
            raise Unsupported('vector value')
        return BVV(0, bits(t)) if zero else self.fresh('undef', bits(t))

    def gep(self, st, base, g):
        if g.get('bad'):
            raise Unsupported('address computation')
        r = base + BVV(g['const'] & ((1 << 64) - 1))
        for v, s in g['vars']:
            x = self.val(st, v)
            if x.size() < 64:
                x = z3.SignExt(64 - x.size(), x)
            r = r + x * BVV(s & ((1 << 64) - 1))
        return simp(r)

    # ------------------------------------------------------------ running
    def run(self):
        for n in range(200):
            self.obs = []
            self.assumed = set()
            self.nstack = 0
            self.gaddr, self.gname, self.fnaddr = {}, {}, {}
            self.fresh_n = 0
            self.reads = {}
            self.invariants = 0
            self.loop_obs = 0
            self.paths = 0
            try:
                st = State()
                st.heap = Heap(z3.Array('heap', z3.BitVecSort(64), z3.BitVecSort(8)))
                st.block = self.entry
                self.setup(self, st)
                work = [st]
                while work:
                    if time.time() > self.deadline:
                        raise Unsupported('time limit')
                    s = work.pop()
                    work.extend(self.step_path(s))
                    # inside loops first: what their invariants cannot be shows early
                    work.sort(key=lambda x: len(x.frames))
            except Restart:
                continue
            return
        raise Unsupported('invariant search did not settle')

    def step_path(self, st):
        """runs one path until it forks or ends; returns the successor states"""
        while True:
            if time.time() > self.deadline:
                raise Unsupported('time limit')
            ins = self.blocks[st.block][st.pc]
            op = ins['op']
            try:
                if op == 'br':
                    if 'cond' not in ins:
                        r = self.goto(st, ins['succ'][0])
                    else:
                        c = self.val(st, ins['cond'])
                        return self.branch(st, [(c == 1, ins['succ'][0]), (c == 0, ins['succ'][1])])
                    if r is None:
                        return []
                    continue
                if op == 'switch':
                    c = self.val(st, ins['cond'])
                    alts = []
                    rest = []
                    for v, b in ins['cases']:
                        e = c == self.val(st, v)
                        alts.append((e, b))
                        rest.append(z3.Not(e))
                    alts.append((z3.And(*rest) if rest else TRUE, ins['default']))
                    return self.branch(st, alts)
                if op == 'ret':
                    self.paths += 1
                    if self.paths > self.MAXPATHS:
                        raise Unsupported('too many paths')
                    self.on_ret(self, st, self.val(st, ins['ops'][0]) if ins.get('ops') else None)
                    return []
                if op == 'unreachable':
                    self.oblige(st, 'unreachable', 'unreachable code', FALSE)
                    return []
                if op == 'select' and ins['t'] == 'ptr':
                    c = self.val(st, ins['ops'][0])
                    k = conc(c)
                    if k is None:
                        out = []
                        for v in (1, 0):
                            if self.feasible(st, c == v):
                                s = st.copy()
                                s.path.append(c == v)
                                s.env[ins['id']] = self.val(s, ins['ops'][1 if v else 2])
                                s.pc += 1
                                out.append(s)
                        return out
                r = self.instr(st, ins)
                if isinstance(r, Forks):
                    out = []
                    for c, f in r.alts:
                        if self.feasible(st, c):
                            s = st.copy()
                            s.path.append(c)
                            try:
                                v = f(s)
                            except Stop:
                                continue
                            if 'id' in ins:
                                s.env[ins['id']] = v
                            s.pc += 1
                            out.append(s)
                    return out
                if 'id' in ins:
                    if r is None:
                        raise Unsupported('no value for ' + ins.get('dn', op))
                    st.env[ins['id']] = r
                st.pc += 1
            except Stop:
                return []

    def branch(self, st, alts):
        out = []
        hs = self.inloops.get(st.block, [])
        known = [simp(c) for c, _ in alts]
        for (c, b), k in zip(alts, known):
            if z3.is_false(k):
                continue
            self.last_model = None
            if not z3.is_true(k) and not self.feasible(st, k):
                continue
            out.append((k, b, self.last_model))
        const = all(z3.is_true(k) or z3.is_false(k) for k in known)
        if const:
            for h in hs:
                bl = self.loops[h]['blocks']
                if any(b not in bl for _, b in alts):
                    st.const_exit[h] = True
        res = []
        for n, (k, b, m) in enumerate(out):
            s = st.copy() if n < len(out) - 1 else st
            if not z3.is_true(k):
                s.path.append(k)
            if m is not None:
                s.model = (m, len(s.path))
            res.append((s, b))
        return [x for x in (self.goto(s, b) for s, b in res) if x is not None]

    def goto(self, st, b):
        src = st.block
        vals = {}
        ins = self.blocks[b]
        n = 0
        for i in ins:
            if i['op'] != 'phi':
                break
            for v, p in i['in']:
                if p == src:
                    vals[i['id']] = self.val(st, v)
                    break
            n += 1
        # leaving loops
        for h in list(st.frames):
            if b not in self.loops[h]['blocks']:
                del st.frames[h]
        if b in self.loops:
            l = self.loops[b]
            back = src in l['blocks']
            if b in self.cuts:
                if back:
                    self.back(st, b, vals)
                    return None
                st.env.update(vals)
                self.enter(st, b, vals)
                st.prev, st.block, st.pc = src, b, n
                return st
            if back:
                if not st.const_exit.pop(b, False):
                    self.cuts.add(b)
                    self.modified[b] = {'cells': set(), 'ghost': set(), 'regions': set()}
                    raise Restart()
                st.unroll[b] = st.unroll.get(b, 0) + 1
                if st.unroll[b] > 300:
                    raise Unsupported('loop does not end')
            else:
                st.unroll[b] = 0
                st.const_exit.pop(b, None)
        st.env.update(vals)
        st.prev, st.block, st.pc = src, b, n
        return st

    # ------------------------------------------------------------ loops
    def items(self, st, h, vals):
        out = {}
        for k, v in vals.items():
            if isinstance(v, z3.BitVecRef):
                out['phi:' + k] = v
        for a, n in sorted(self.modified[h]['cells']):
            out['cell:%x:%d' % (a, n)] = self.cload(st, a, n)
        for g in sorted(self.modified[h]['ghost']):
            if isinstance(st.ghost.get(g), z3.ExprRef):
                out['ghost:' + g] = st.ghost[g]
        return out

    def cand_list(self, fr):
        init = fr['init']
        sym = fr['sym']
        names = [k for k in init if isinstance(init[k], z3.BitVecRef)]
        out = []
        h = fr['h']

        def c(name, f):
            k = (h, name)
            if k not in self.dead:
                out.append((k, f))
        for k in names:
            w = init[k].size()
            if w not in (32, 64):
                c('%s == init' % k, lambda x, k=k: x[k] == init[k])
                c('%s <= 1' % k, lambda x, k=k: z3.ULE(x[k], 1))
            else:
                c('%s >= init' % k, lambda x, k=k: z3.UGE(x[k], init[k]))
                c('%s <= init' % k, lambda x, k=k: z3.ULE(x[k], init[k]))
                for n, t in enumerate(fr['bounds']):
                    if t.size() == w:
                        c('%s <= bound %d' % (k, n), lambda x, k=k, t=t: z3.ULE(x[k], t))
                        c('%s >= bound %d' % (k, n), lambda x, k=k, t=t: z3.UGE(x[k], t))
                        for s in self.strides:
                            if s > 1 and s & (s - 1) == 0:
                                c('(bound %d - %s) %% %d' % (n, k, s), lambda x, k=k, t=t, s=s, w=w: ((t - x[k]) & BVV(s - 1, w)) == 0)
            for j in names:
                if j != k and init[j].size() == w:
                    for s in self.strides:
                        if s == 1 and j < k:
                            continue
                        for sg in (1, -1):
                            c('d(%s) == %d*d(%s)' % (k, sg * s, j),
                              lambda x, k=k, j=j, s=s, sg=sg, w=w: x[k] - init[k] == BVV(sg * s & ((1 << w) - 1), w) * (x[j] - init[j]))
                elif j != k and w == 64 and init[j].size() == 32:
                    for s in self.strides:
                        c('d(%s) == %d*zext d(%s)' % (k, s, j),
                          lambda x, k=k, j=j, s=s: x[k] - init[k] == BVV(s) * z3.ZeroExt(32, x[j] - init[j]))
        if self.extra_cands:
            for name, f in self.extra_cands(self, fr):
                c(name, f)
        return out

    def enter(self, st, h, vals):
        m = self.modified[h]
        init = self.items(st, h, vals)
        fr = {'h': h, 'init': init, 'bounds': list(self.bounds), 'ghost0': dict(st.ghost)}
        fr['sym'] = {}
        cells0 = dict(st.cells)
        # entry checks
        fr['state'] = st
        fr['cands'] = self.cand_list(fr)
        for k, f in list(fr['cands']):
            r, _ = self.check(st.path, f(init))
            if r != 'unsat':
                self.dead.add(k)
                fr['cands'].remove((k, f))
                if k in self.assumed:
                    raise Restart()
        self.assumed |= {k for k, _ in fr['cands']}
        self.loop_obs += len(fr['cands'])
        self.invariants += len(fr['cands'])
        # forget what the body modifies
        sym = {}
        for k, v in init.items():
            x = self.fresh('loop_' + k, v.size()) if isinstance(v, z3.BitVecRef) else z3.FreshConst(v.sort(), k)
            sym[k] = x
            if k.startswith('phi:'):
                st.env[k[4:]] = x
            elif k.startswith('cell:'):
                self.cstore(st, int(k.split(':')[1], 16), x)
            else:
                st.ghost[k[6:]] = x
        for name in m['regions']:
            for r in st.regions:
                if r[0] == name:
                    self.havoc(st, r[1], r[2], 'loop_' + name, name)
        for k, x in sym.items():
            if k.startswith('ghost:'):
                st.ghost[k[6:]] = x     # a watched byte keeps what the invariants say of it
        fr['sym'] = sym
        fr['cells'] = dict(st.cells)
        fr['heaplen'] = len(st.heap.log)
        st.ghost['!written'] = frozenset()
        fr['ghost'] = dict(st.ghost)
        fr['nregions'] = len(st.regions)
        fr['nevents'] = len(st.events)
        for k, f in fr['cands']:
            st.path.append(f(sym))
        st.frames[h] = fr

    def back(self, st, h, vals):
        fr = st.frames[h]
        m = self.modified[h]
        bad = False
        # what else did the body modify?
        diff = {}
        for a, c in st.cells.items():
            o = fr['cells'].get(a)
            if o is not None and not (o[0] is c[0] and o[1] == c[1]) and not any(x <= a < x + n for x, n in m['cells']):
                e1 = c[0] if c[2] == 1 else z3.Extract(8 * c[1] + 7, 8 * c[1], c[0])
                e0 = o[0] if o[2] == 1 else z3.Extract(8 * o[1] + 7, 8 * o[1], o[0])
                if not z3.eq(simp(e1), simp(e0)):
                    diff[a - c[1]] = max(c[2], diff.get(a - c[1], 0))
        for a, n in diff.items():
            m['cells'].add((a, n))
            bad = True
        for g, v in st.ghost.items():
            if g == '!written':
                continue
            o = fr['ghost'].get(g)
            if g not in m['ghost'] and o is not None and not (o is v or (isinstance(v, z3.ExprRef) and isinstance(o, z3.ExprRef) and z3.eq(simp(v), simp(o))) or (not isinstance(v, z3.ExprRef) and o == v)):
                m['ghost'].add(g)
                bad = True
        for e in st.events[fr['nevents']:]:
            if e[0] not in self.loop_events:
                raise Unsupported('%s in a loop' % e[0])
        wr = st.ghost.get('!written', frozenset())
        if len(st.heap.log) > fr['heaplen']:
            new = {n for n in wr if n in [r[0] for r in st.regions[:fr['nregions']]]} - m['regions']
            if new:
                m['regions'] |= new
                bad = True
        if bad:
            raise Restart()
        now = self.items(st, h, vals)
        died = False
        for k, f in fr['cands']:
            r, _ = self.check(st.path, f(now))
            if r != 'unsat' and k not in self.dead:
                self.dead.add(k)
                died = True
        if died:
            raise Restart()
        self.loop_obs += len(fr['cands'])

    # ------------------------------------------------------------ instructions
    def instr(self, st, ins):
        op = ins['op']
        V = lambda i: self.val(st, ins['ops'][i])
        if op == 'alloca':
            return BVV(self.stack(st, ins['size']))
        if op == 'getelementptr':
            return self.gep(st, self.val(st, ins['base']), ins['gep'])
        if op == 'load':
            return self.loadt(st, V(0), ins['t'])
        if op == 'store':
            self.storet(st, V(1), V(0), ins['vt'])
            return None
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a, b = V(0), V(1)
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                self.oblige(st, 'arith', op + ' by zero', b != 0)
            r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: self.bor(a, b),
                 'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b,
                 'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b), 'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b)}[op]()
            return simp(r)
        if op == 'icmp':
            a, b = V(0), V(1)
            f = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'ult': lambda: z3.ULT(a, b),
                 'ule': lambda: z3.ULE(a, b), 'sgt': lambda: a > b, 'sge': lambda: a >= b, 'slt': lambda: a < b, 'sle': lambda: a <= b}[ins['pred']]
            return simp(z3.If(f(), BVV(1, 1), BVV(0, 1)))
        if op == 'zext':
            a = V(0)
            return simp(z3.ZeroExt(bits(ins['t']) - a.size(), a))
        if op == 'sext':
            a = V(0)
            return simp(z3.SignExt(bits(ins['t']) - a.size(), a))
        if op == 'trunc':
            return simp(z3.Extract(bits(ins['t']) - 1, 0, V(0)))
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            a = V(0)
            if isinstance(a, list):
                return a
            return self.resize(a, bits(ins['t']))
        if op == 'select':
            c, a, b = V(0), V(1), V(2)
            k = conc(c)
            if k is not None:
                return a if k else b
            if isinstance(a, list):
                raise Unsupported('select of aggregates')
            return simp(z3.If(c == 1, a, b))
        if op == 'extractvalue':
            a = V(0)
            for i in ins['idx']:
                a = a[i]
            return a
        if op == 'insertvalue':
            return self.insert(V(0), V(1), ins['idx'])
        if op in ('call', 'invoke'):
            return self.call(st, ins)
        if op in ('fcmp', 'fadd', 'fsub', 'fmul', 'fdiv', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc', 'fneg'):
            return self.fresh(op, bits(ins['t']))
        raise Unsupported('instruction ' + op)

    def bor(self, a, b):
        """or of values with disjoint bytes, as a concatenation"""
        if a.size() % 8 or a.size() < 16:
            return a | b
        x, y = self.bytes_of(simp(a)), self.bytes_of(simp(b))
        if x is None or y is None:
            return a | b
        out = []
        for p, q in zip(x, y):
            if conc(p) == 0:
                out.append(q)
            elif conc(q) == 0:
                out.append(p)
            else:
                return a | b
        return z3.Concat(*reversed(out))

    def bytes_of(self, t):
        """least significant first"""
        w = t.size()
        if w % 8:
            return None
        if w == 8:
            return [t]
        k = t.decl().kind()
        if z3.is_bv_value(t):
            v = t.as_long()
            return [BVV((v >> i) & 255, 8) for i in range(0, w, 8)]
        if k == z3.Z3_OP_CONCAT:
            out = []
            for c in reversed(t.children()):
                b = self.bytes_of(c)
                if b is None:
                    return None
                out += b
            return out
        if k == z3.Z3_OP_ZERO_EXT:
            b = self.bytes_of(t.arg(0))
            return b and b + [BVV(0, 8)] * ((w - t.arg(0).size()) // 8)
        if k == z3.Z3_OP_BSHL and conc(t.arg(1)) is not None and conc(t.arg(1)) % 8 == 0:
            b = self.bytes_of(t.arg(0))
            n = conc(t.arg(1)) // 8
            return b and ([BVV(0, 8)] * n + b)[:w // 8]
        return [z3.Extract(i + 7, i, t) for i in range(0, w, 8)]

    def insert(self, a, v, idx):
        a = list(a)
        a[idx[0]] = v if len(idx) == 1 else self.insert(a[idx[0]], v, idx[1:])
        return a

    def loadt(self, st, a, t):
        if isinstance(t, dict):
            if 's' in t:
                return [self.loadt(st, simp(a + o), x) for o, x in zip(t['o'], t['s'])]
            if 'a' in t:
                return [self.loadt(st, simp(a + i * t['es']), t['a']) for i in range(t['n'])]
            raise Unsupported('vector load')
        n = tsize(t)
        v = self.load(st, a, n)
        return self.resize(v, bits(t))

    def storet(self, st, a, v, t):
        if isinstance(v, list):
            offs = t['o'] if 's' in t else [i * t['es'] for i in range(t['n'])]
            ts = t['s'] if 's' in t else [t['a']] * t['n']
            for o, x, y in zip(offs, v, ts):
                self.storet(st, simp(a + o), x, y)
            return
        self.store(st, a, v)

    def call(self, st, ins):
        args = [self.val(st, a) for a in ins['args']]
        if 'fn' not in ins:
            if self.on_indirect is None:
                raise Unsupported('indirect call')
            return self.on_indirect(self, st, ins, self.val(st, ins['ind']), args)
        dn = ins['dn']
        for rx, h in self.handlers:
            if rx.search(dn):
                return h(self, st, ins, args)
        if dn.startswith('llvm.'):
            return self.intrinsic(st, ins, args)
        raise Unsupported('call of ' + dn)

    def intrinsic(self, st, ins, a):
        n = ins['dn']
        if n.startswith(('llvm.lifetime', 'llvm.assume', 'llvm.dbg', 'llvm.experimental.noalias')):
            return None
        if n.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.copy(st, a[0], a[1], a[2])
            return None
        if n.startswith('llvm.memset'):
            k = conc(a[2])
            if k is None or k > 4096:
                raise Unsupported('memset of symbolic length')
            for i in range(k):
                self.store(st, simp(a[0] + i), a[1], 'memset')
            return None
        w = bits(ins['t']) if isinstance(ins.get('t'), str) else 0
        if n.startswith('llvm.umax'):
            return simp(z3.If(z3.UGE(a[0], a[1]), a[0], a[1]))
        if n.startswith('llvm.umin'):
            return simp(z3.If(z3.ULE(a[0], a[1]), a[0], a[1]))
        if n.startswith('llvm.smax'):
            return simp(z3.If(a[0] >= a[1], a[0], a[1]))
        if n.startswith('llvm.smin'):
            return simp(z3.If(a[0] <= a[1], a[0], a[1]))
        if n.startswith('llvm.usub.sat'):
            return simp(z3.If(z3.ULE(a[0], a[1]), BVV(0, w), a[0] - a[1]))
        if n.startswith('llvm.uadd.sat'):
            return simp(z3.If(z3.ULT(a[0] + a[1], a[0]), BVV((1 << w) - 1, w), a[0] + a[1]))
        if n.startswith('llvm.fsh'):
            cc = z3.Concat(a[0], a[1])
            k = conc(a[2])
            if k is None:
                raise Unsupported('funnel shift')
            k %= w
            return simp(z3.Extract(2 * w - 1 - k, w - k, cc) if 'fshl' in n else z3.Extract(w - 1 + k, k, cc))
        if n.startswith('llvm.uadd.with.overflow'):
            s = a[0] + a[1]
            return [s, z3.If(z3.ULT(s, a[0]), BVV(1, 1), BVV(0, 1))]
        if n.startswith('llvm.umul.with.overflow'):
            return [a[0] * a[1], z3.If(z3.BVMulNoOverflow(a[0], a[1], False), BVV(0, 1), BVV(1, 1))]
        if n.startswith('llvm.expect'):
            return a[0]
        raise Unsupported(n)

    def copy(self, st, d, s, n):
        k = conc(n)
        if k is not None and k <= 256:
            # in words where possible
            i = 0
            vals = []
            while i < k:
                m = 8 if k - i >= 8 else 4 if k - i >= 4 else 2 if k - i >= 2 else 1
                vals.append((i, self.load(st, simp(s + i), m, 'copy source')))
                i += m
            for i, v in vals:
                self.store(st, simp(d + i), v, 'copy target')
            return
        for a, w in ((s, False), (d, True)):
            c = conc(a)
            if c is not None and c >= FN0:
                raise Unsupported('copy of symbolic length with a local object')
            r = self.access(st, a, n, w, 'copy')
        self.havoc(st, d, n, 'copy', r[0] if r else None)

    # ------------------------------------------------------------ result
    def prove(self):
        """-> (status, [failed (kind, name, result)], discharged)"""
        failed, ok = [], 0
        for o in self.obs:
            r, m = self.check(o.path, o.claim, self.timeout // 2 if len(o.reads) < 30 else self.timeout * 2)
            if r == 'unknown' and len(o.reads) < 30:
                # reads of the same address are equal: proved one by one from the facts without memory
                eqs = []
                rs = [self.reads[k] for k in o.reads]
                for i, (a1, p1, v1) in enumerate(rs):
                    for a2, p2, v2 in rs[:i]:
                        if v1.size() == v2.size() and z3.eq(a1, a2) and conc(p1 - p2) is None and self.check(o.path, p1 == p2, 1000)[0] == 'unsat':
                            eqs.append(v1 == v2)
                r, m = self.check(o.path + eqs, o.claim, self.timeout * 2)
            if r == 'unsat':
                ok += 1
            else:
                failed.append((o.kind, o.name, 'refuted' if r == 'sat' else 'unknown',
                               {d.name(): str(m[d]) for d in m.decls() if d.arity() == 0 and not z3.is_array(m[d])} if m else {}))
        return failed, ok
