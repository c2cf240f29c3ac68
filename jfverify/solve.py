"""Discharging: ground instantiation of quantified facts and recursive definitions, z3 calls, Houdini over
loop-invariant candidates."""
import time
import z3
from smt import *
from engine import QFact, Cells, Lin, is_ptr


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.exact = 0


class Prover:
    """one per function: facts, quantified facts and recursive definitions shared by all queries"""

    def __init__(self, eng, timeout=4000):
        self.eng = eng
        self.facts = eng.facts
        self.qfacts = eng.qfacts
        self.folds = eng.folds          # uf id -> (uf, defn(args) -> z3 term, depth)
        self.timeout = timeout
        self.patience = 1
        self.stats = Stats()
        self.exact_cmp = getattr(eng, 'exact_cmp', False)

    # -------------------------------------------------------------- scanning
    def apps(self, e):
        """uninterpreted applications below e: list of terms (each reported once per e root, memoised per node)"""
        out = []
        stack = [e]
        seen = set()
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(x):
                n = x.num_args()
                if n:
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.append(x)
                    for j in range(n):
                        stack.append(x.arg(j))
        return out


def timed(s, ms):
    """a check that is given ms of processor time, however busy the machine is"""
    spent, tries = 0.0, 0
    while True:
        c = time.process_time()
        s.set('timeout', int(max(50, ms - spent)))
        r = s.check()
        spent += (time.process_time() - c) * 1000
        tries += 1
        if r != z3.unknown or tries >= 4 or spent > 0.7 * ms:
            return r
        ms, spent = ms * 1.5, 0.0


class Query:
    """incremental closure under instantiation"""

    def __init__(self, pr, depth=1, exact=False):
        self.pr = pr
        self.exact = exact
        self.depth = depth
        self.solver = z3.Solver()
        self.solver.set('timeout', min(pr.timeout, 500))
        self.seen_nodes = set()
        self.idx = {}          # uf id -> {arg ids: args}
        self.done = set()      # (fact index, arg ids)
        self.gen = {}          # (uf id, arg ids) -> generation
        self.pending = []
        self.keep = []
        self.qf = []
        self.ninst = 0
        self.trig_map = {}

    def add(self, f, gen=0):
        if is_true(f):
            return
        self.solver.add(f)
        self.keep.append(f)
        self.scan(f, gen)

    def scan(self, f, gen):
        stack = [f]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in self.seen_nodes:
                continue
            self.seen_nodes.add(i)
            n = x.num_args() if z3.is_app(x) else 0
            if not n:
                continue
            ch = x.children()
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                self.pending.append((d.get_id(), x, ch, gen))
            stack.extend(ch)

    def add_qfact(self, q):
        n = len(self.qf)
        self.qf.append(q)
        for t in q.trig:
            self.trig_map.setdefault(t, []).append(n)
            for kk, args in list(self.idx.get(t, {}).items()):
                if self.gen[(t, kk)] <= q.maxgen:
                    self.inst(n, q, args)

    def inst(self, n, q, args, gen=0):
        k = args[-1]
        if q.nv == 0:
            # all arguments of the application
            key = (n,) + tuple(a.get_id() for a in args)
            if key not in self.done:
                self.done.add(key)
                self.emit(q, q.body(*args), gen)
            return
        if q.nv == 1:
            key = (n, k.get_id())
            if key in self.done:
                return
            self.done.add(key)
            b = q.body(k)
            self.emit(q, b, gen)
        else:
            # two-variable facts: all pairs of index terms of the triggers
            ks = {}
            for t in q.trig:
                for kk, a in self.idx.get(t, {}).items():
                    if self.gen[(t, kk)] <= q.maxgen:
                        ks[a[-1].get_id()] = a[-1]
            for i1, a1 in list(ks.items()):
                for i2, a2 in list(ks.items()):
                    if i1 == i2 or (n, i1, i2) in self.done:
                        continue
                    self.done.add((n, i1, i2))
                    self.emit(q, q.body(a1, a2), gen)

    def emit(self, q, b, gen):
        self.ninst += 1
        if q.lit is not None:
            b = Implies(q.lit, b)
        self.add(b, gen + 1)

    def close(self, limit=6000):
        while self.pending:
            pend, self.pending = self.pending, []
            for fid, x, args, gen in pend:
                kk = tuple(a.get_id() for a in args)
                m = self.idx.setdefault(fid, {})
                if kk in m:
                    continue
                m[kk] = args
                self.gen[(fid, kk)] = gen
                if self.ninst > limit:
                    continue
                if fid in self.trig_map:
                    for n in self.trig_map[fid]:
                        if gen <= self.qf[n].maxgen:
                            self.inst(n, self.qf[n], args, gen)
                fd = self.pr.folds.get(fid)
                if fd is not None and gen <= self.depth * 1 + fd[2]:
                    d = fd[1](*args)
                    if d is not None:
                        self.ninst += 1
                        if isinstance(d, list):
                            for f in d:
                                self.add(f, gen + 1)
                        else:
                            self.add(x == d, gen + 1)
                if fid in COMMUT:
                    f = x.decl()
                    self.solver.add(x == f(args[1], args[0]))
                if fid in FCMP:
                    for f in (fcmp_axioms(args[0], args[1]) + ([x == XCMP[FCMP[fid]](args[0], args[1])] if self.exact or self.pr.exact_cmp or isnum(args[0]) or isnum(args[1]) else [])):
                        self.solver.add(f)
                        self.scan(f, gen)
                if self.exact and fid in HEAVY:
                    self.solver.add(x == EXACT[HEAVY[fid]](*args))

    def check(self, *assumptions):
        t = time.time()
        r = self.solver.check(*assumptions)
        self.pr.stats.queries += 1
        self.pr.stats.time += time.time() - t
        return r

    def oneshot(self, assumptions, factor=0.4):
        """non-incremental check: full preprocessing pays off on these queries"""
        t = time.time()
        s = z3.Solver()
        s.add(*self.solver.assertions())
        s.add(*assumptions)
        r = timed(s, factor * self.pr.timeout)
        self.pr.stats.queries += 1
        self.pr.stats.time += time.time() - t
        return r, (s.model() if r == z3.sat else None)

    def decide(self, *assumptions):
        """one-shot: several solver configurations in turn; (result, model)"""
        t = time.time()
        self.pr.stats.queries += 1
        fs = list(self.solver.assertions()) + list(assumptions)
        r, m = z3.unknown, None
        for mk, to in PORTFOLIO:
            s = mk()
            s.add(*fs)
            r = timed(s, to * self.pr.timeout * self.pr.patience)
            if r != z3.unknown:
                m = s.model() if r == z3.sat else None
                break
        self.pr.stats.time += time.time() - t
        return r, m


PORTFOLIO = [
    (lambda: z3.Solver(), 0.4),
    (lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'ackermannize_bv', 'simplify', 'bit-blast', 'sat').solver(), 1),
    (lambda: z3.SimpleSolver(), 1),
]


class Cand:
    __slots__ = ('name', 'fn', 'lit', 'quant', 'loop', 'alive', 'trig', 'lane', 'done')

    def __init__(self, name, loop, fn, quant=False, trig=(), lane=None):
        """fn(S) -> z3 Bool, or for quantified candidates fn(S, k) -> z3 Bool; S gives the loop state"""
        self.name, self.loop, self.fn, self.quant, self.trig = name, loop, fn, quant, trig
        self.alive = True
        self.lit = None
        self.lane = lane         # bit the candidate is about, or None
        self.done = {}           # edge -> candidates its last proof used


class LState:
    """view of a loop's state at the header, at entry or at a back edge"""

    def __init__(self, L, phis, mem, eng):
        self.L, self.mem, self.eng = L, mem, eng
        self.phis = phis
        self.sub = []
        for i, s in L.sym.items():
            v = phis.get(i)
            if v is None or not isinstance(v, z3.ExprRef):
                continue
            if not v.eq(s):
                self.sub.append((s, v))
        if '$err' in L.havoc:
            e = mem.get('$err', FALSE)
            if not e.eq(L.havoc['$err']):
                self.sub.append((L.havoc['$err'], e))
        # cells of small objects
        for oid, h in L.havoc.items():
            if isinstance(h, Cells):
                m = mem.get(oid, eng.mem0.get(oid))
                for k, (w, v) in h.d.items():
                    if is_ptr(v):
                        continue
                    nv = m.d.get(k)
                    if nv is None or nv[0] != w or is_ptr(nv[1]):
                        nv = (w, eng.fresh('lost', w))
                    if not nv[1].eq(v):
                        self.sub.append((v, nv[1]))

    def t(self, term):
        if not self.sub:
            return term
        return norm64(z3.substitute(term, *self.sub))

    def arr(self, oid, fo=0):
        m = self.mem.get(oid)
        if m is None:
            m = self.eng.mem0[oid]
        return m[fo]

    def obj(self, oid):
        m = self.mem.get(oid)
        if m is None:
            m = self.eng.mem0[oid]
        return m


def norm64(t):
    if z3.is_bv(t):
        return norm(t)
    return t


class Verifier:
    def __init__(self, eng, cands, timeout=4000, log=None, depth=1):
        self.eng = eng
        self.pr = Prover(eng, timeout)
        self.cands = cands
        self.log = log or (lambda *a: None)
        self.depth = depth
        self.nsk = 0
        self.failed = []
        self.deadline = None

    def skolem(self):
        self.nsk += 1
        return z3.BitVec('sk!%d' % self.nsk, 64)

    def prepare(self):
        for L in self.eng.loops.values():
            if not hasattr(L, 'guard'):
                L.states = None
                continue
            L.head = LState(L, L.sym, L.head_mem, self.eng)
            ent = {}
            for i, v in L.entry_phi.items():
                ent[i] = bv(0, 64) if i in L.ptrphi else v
            L.entry = LState(L, ent, L.entry_mem, self.eng)
            L.back = [(g, LState(L, ph, m, self.eng)) for g, ph, m, p in L.backs]
            for g, S in L.back:
                self.widen(L, g, S)
        for n, c in enumerate(self.cands):
            c.lit = z3.Bool('inv!%d' % n)

    def widen(self, L, g, S):
        """a 32-bit counter whose step cannot overflow on this edge: its 64-bit extension moves by the same step"""
        extra = []
        for i, s in L.sym.items():
            v = S.phis.get(i)
            if not isinstance(v, z3.ExprRef) or not z3.is_bv(v) or s.size() != 32:
                continue
            d = lin(v).add(lin(s), -1)
            if not d.is_const() or not 0 < d.sconst() < (1 << 16):
                continue
            c = d.sconst()
            if self.nowrap is None:
                self.nowrap = {}
            key = (g.get_id(), s.get_id(), c)
            if key not in self.nowrap:
                q = z3.Solver()
                q.set('timeout', 300)
                q.add(g, z3.UGT(s, bv((1 << 32) - 1 - c, 32)))
                self.nowrap[key] = (q.check() == z3.unsat, g, s)
            if self.nowrap[key][0]:
                z = zext(s, 64)
                extra.append((z, add(z, bv(c, 64))))
        S.sub = extra + S.sub

    nowrap = None
    hinted = False      # the candidates are known to have carried the proof before

    def allowed(self, L, what):
        """loops whose invariants may be assumed on an edge into L's header: those established earlier in the trace"""
        pos = self.eng.pos
        out = set()
        for M in self.eng.loops.values():
            if pos[M.header] < pos[L.header] or (what == 'step' and M.header in L.blocks):
                out.add(M.header)
        return out

    def base_query(self, exact=False, use=None, lane=None):
        q = Query(self.pr, self.depth, exact)
        for f in self.eng.facts:
            q.add(f)
        for qf in self.eng.qfacts:
            q.add_qfact(qf)
        for c in self.cands:
            if not c.alive:
                continue
            L = c.loop
            if use is not None and L.header not in use:
                continue
            if lane is not None and c.lane is not None and c.lane != lane:
                continue
            if c.quant:
                q.add_qfact(QFact((lambda k, c=c, L=L: Implies(L.guard, c.fn(L.head, k))), c.trig, c.lit))
            else:
                q.add(Implies(And(c.lit, L.guard), c.fn(L.head)))
        return q

    def claims(self, S, cands, sk):
        out = []
        for c in cands:
            try:
                out.append((c, c.fn(S, sk) if c.quant else c.fn(S)))
            except Exception as e:
                raise
        return out

    def houdini_check(self, L, what, guard, S, active, edge):
        """drop candidates of loop L that fail on the edge; returns True when something was dropped"""
        mine = [c for c in active if c.loop is L and c.alive and
                not (edge in c.done and all(x.alive for x in c.done[edge]))]
        if not mine:
            return False
        use = self.allowed(L, what)
        dropped = False
        groups = {}
        for c in mine:
            groups.setdefault(c.lane, []).append(c)
        for lane, cs in sorted(groups.items(), key=lambda x: -1 if x[0] is None else x[0]):
            dropped |= self.check_group(L, what, guard, S, active, cs, use, lane, edge)
        return dropped

    def check_group(self, L, what, guard, S, active, mine, use, lane, edge):
        sk = self.skolem()
        dropped = False

        def deps():
            return [c for c in active if c.alive and c.loop.header in use and
                    (lane is None or c.lane is None or c.lane == lane)]
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('out of time')
        q = self.base_query(use=use, lane=lane)
        q.add(guard)
        sel = {}
        for c, f in self.claims(S, mine, sk):
            s = z3.Bool('chk!%s' % c.lit.decl().name())
            sel[c] = (s, f)
            q.add(Implies(s, Not(f)))
        q.add(z3.Or(*[s for s, f in sel.values()]))
        q.close()
        while True:
            live = [c for c in mine if c.alive]
            if not live:
                return dropped
            ass = [c.lit for c in active if c.alive] + [Not(c.lit) for c in self.cands if not c.alive] + \
                  [z3.Not(sel[c][0]) for c in mine if not c.alive]
            r, m = q.oneshot(ass)
            if r == z3.unsat:
                d = deps()
                for c in live:
                    c.done[edge] = d
                return dropped
            if r == z3.sat:
                n = 0
                for c in live:
                    if z3.is_true(m.eval(sel[c][0], model_completion=False)) or \
                            z3.is_false(m.eval(sel[c][1], model_completion=True)):
                        c.alive = False
                        dropped = True
                        n += 1
                if n == 0:
                    raise Unsupported('houdini stuck')
            else:
                # undecided: the candidates one at a time, each with only the instances it needs
                for c in live:
                    if self.deadline and time.time() > self.deadline:
                        raise Unsupported('out of time')
                    d = deps()
                    q = self.base_query(use=use, lane=lane)
                    q.add(guard)
                    q.add(Not(sel[c][1]))
                    q.close()
                    r, m = q.decide(*([x.lit for x in active if x.alive]))
                    if r == z3.unknown and self.hinted:
                        self.pr.patience = 4
                        r, m = q.decide(*([x.lit for x in active if x.alive]))
                        self.pr.patience = 1
                    if r != z3.unsat:
                        c.alive = False
                        dropped = True
                        if r == z3.unknown:
                            self.log('undecided', what, c.name)
                    else:
                        c.done[edge] = d
                return dropped

    def houdini(self):
        loops = [L for L in self.eng.loops.values() if hasattr(L, 'head')]
        loops.sort(key=lambda L: L.depth)
        rounds = 0
        while True:
            rounds += 1
            dropped = False
            active = [c for c in self.cands if c.alive]
            for L in loops:
                dropped |= self.houdini_check(L, 'init', L.guard, L.entry, active, (L.header, 'init'))
            for L in loops:
                for n, (g, S) in enumerate(L.back):
                    dropped |= self.houdini_check(L, 'step', g, S, active, (L.header, n))
            if not dropped:
                break
            if rounds > 60:
                raise Unsupported('houdini does not converge')
        self.log('houdini rounds', rounds, 'alive', sum(c.alive for c in self.cands), 'of', len(self.cands))

    def reachable(self, guard, inv=True):
        q = self.base_query(use=None if inv else ())
        q.add(guard)
        q.close()
        return q.check(*([c.lit for c in self.cands if c.alive] if inv else [])) != z3.unsat

    def vacuous_loops(self):
        """loops whose invariants contradict each other although the header can be reached"""
        out = []
        for L in self.eng.loops.values():
            if hasattr(L, 'head') and not self.reachable(L.guard) and self.reachable(L.guard, False):
                out.append(L.header)
        return out

    def prove(self, obl, extra_facts=(), exact=True):
        """-> 'proved' | ('refuted', model) | 'unknown'"""
        if is_true(obl.claim) or is_false(obl.guard):
            return 'proved', None
        lits = [c.lit for c in self.cands if c.alive]

        def attempt(exact, lane=None):
            q = self.base_query(exact=exact, lane=lane)
            for f in extra_facts:
                q.add(f)
            q.add(obl.guard)
            q.add(Not(obl.claim))
            q.close()
            r, m = q.decide(*lits)
            return r, m, any(fid in HEAVY or fid in FCMP for fid in q.idx)
        r, m = self.rounds(obl, attempt, exact)
        if r == 'unknown' and not (self.deadline and time.time() > self.deadline):
            # undecided in the usual time: once more, with patience, before this is called a failure
            self.pr.patience = 5
            try:
                r, m = self.rounds(obl, attempt, exact)
            finally:
                self.pr.patience = 1
        return r, m

    def rounds(self, obl, attempt, exact):
        r, m, has = attempt(False, obl.lane)
        if r == z3.unsat:
            return 'proved', None
        if obl.lane is not None:
            r, m, has = attempt(False)
            if r == z3.unsat:
                return 'proved', None
        if exact and (has or self.depth < 3):
            old = self.depth
            self.depth = max(old, 3)
            r2, m2, _ = attempt(has)
            self.depth = old
            self.pr.stats.exact += 1
            if r2 == z3.unsat:
                return 'proved', None
            if r2 == z3.sat or has:
                r, m = r2, m2
        return ('refuted', m) if r == z3.sat else ('unknown', m)


def core_of(q, lits):
    """names of the invariants an unsatisfiable query uses (all of them when the solver cannot say)"""
    s = z3.Solver()
    s.set('timeout', 4000)
    s.add(*q.solver.assertions())
    r = s.check(*lits)
    if r == z3.unsat:
        return {x.decl().name() for x in s.unsat_core()}
    return None


def needed(ver, obls):
    """a subset of the alive invariants that still carries every obligation (backward closure of unsat cores)"""
    cands = [c for c in ver.cands if c.alive]
    bylit = {c.lit.decl().name(): c for c in cands}
    need, work = set(), []

    def use(names):
        for n in (bylit if names is None else names):
            if n in bylit and n not in need:
                need.add(n)
                work.append(bylit[n])

    def ask(guard, claim, allowed, lane, extra=()):
        best = None
        for exact, depth in ((False, ver.depth), (True, 3)):
            old, ver.depth = ver.depth, depth
            q = ver.base_query(exact=exact, use=allowed, lane=lane)
            ver.depth = old
            for f in extra:
                q.add(f)
            q.add(guard)
            q.add(Not(claim))
            q.close()
            best = core_of(q, [c.lit for c in cands if allowed is None or c.loop.header in allowed])
            if best is not None:
                break
        use(best)
    for ob, extra in obls:
        if not (is_true(ob.claim) or is_false(ob.guard)):
            ask(ob.guard, ob.claim, None, ob.lane, extra)
    while work:
        c = work.pop()
        L = c.loop
        for what, g, S in [('init', L.guard, L.entry)] + [('step', g, S) for g, S in L.back]:
            ask(g, c.fn(S, ver.skolem()) if c.quant else c.fn(S), ver.allowed(L, what), c.lane)
    return [c.name for c in cands if c.lit.decl().name() in need]
