"""Contract checking of one registered C function: binds the registered signature to the extracted IR, runs the VC
generator, infers loop invariants from the contract's templates, discharges every obligation."""
import re, time, traceback, hashlib
import z3
from smt import *
import engine as E
from engine import Engine, Obj, Ptr, Base, PtrBase, Cells, Obligation, null_ptr, is_ptr, FillN, StoreN, IteN
from solve import Verifier, Cand, LState
from ops import ZOps, LArg, SArg, WID, isf

ELEM = {'u8list': 'u8', 'u16list': 'u16', 'u32list': 'u32', 'u64list': 'u64', 'i8list': 'i8', 'i16list': 'i16',
        'i32list': 'i32', 'i64list': 'i64', 'f32list': 'f32', 'f64list': 'f64', 'stringlist': 'str', 'string': 'i8'}

LIBM = {'exp', 'log', 'log2', 'log10', 'sin', 'cos', 'tan', 'sqrt', 'floor', 'ceil', 'round', 'trunc', 'fmod', 'pow',
        'rint', 'nearbyint', 'exp2', 'cbrt', 'fmin', 'fmax'}


class Res:
    """outcome for one function"""

    def __init__(self, name):
        self.name = name
        self.status = None       # proved | refuted | unknown | unsupported | error
        self.obligations = 0
        self.discharged = 0
        self.failed = []         # [(kind, name, status, model info)]
        self.note = ''
        self.queries = 0
        self.solver_s = 0.0
        self.invariants = 0
        self.trusted = set()
        self.model = None
        self.inputs = None
        self.wall = 0.0

    def as_dict(self):
        return dict(name=self.name, status=self.status, obligations=self.obligations, discharged=self.discharged,
                    failed=self.failed, note=self.note, queries=self.queries, solver_s=round(self.solver_s, 3),
                    invariants=self.invariants, trusted=sorted(self.trusted), wall=round(self.wall, 2),
                    inputs=self.inputs)


def alloc_handler(eng, ins, args, g, st, blk):
    """contract of Arena::Allocate (discharged under C14): a fresh block of `size` bytes; null for size 0"""
    eng.trusted.add('Arena::Allocate')
    size = args[1]
    align = args[2] if len(args) > 2 else bv(8, 64)
    if not isnum(align):
        raise Unsupported('variable alignment')
    o = eng.alloc('alloc', 'arena%d' % (len(eng.allocs) + 1), size, st)
    o.inloop = [L.header for L in eng.cur_loops]
    hint = getattr(eng, 'alloc_hint', None)
    o.hint = hint
    return Ptr.one(o)


def libm_name(n):
    if n in LIBM:
        return n, 64
    if n.endswith('f') and n[:-1] in LIBM:
        return n[:-1], 32
    return None


class Boundary:
    """callee contracts"""

    def __init__(self):
        self.rules = []

    def add(self, rx, f):
        self.rules.append((re.compile(rx), f))

    def __call__(self, eng, ins, args, g, st, blk):
        n, dn = ins['fn'], ins.get('dn', ins['fn'])
        lm = libm_name(n)
        if lm:
            return fop(lm[0], lm[1], *args)
        for rx, f in self.rules:
            if rx.search(dn):
                return f(eng, ins, args, g, st, blk)
        raise Unsupported('call to %s' % dn[:200])


def h_adderror(eng, ins, args, g, st, blk):
    st['$err'] = TRUE
    eng.trusted.add('ExecContext::AddError')
    return None


def h_nop(eng, ins, args, g, st, blk):
    eng.trusted.add('std::string temporaries (error text)')
    return None


def bytecmp(eng, x, y, n):
    """sign (as 8 bits: -1, 0, 1) of the comparison of n unsigned bytes; x, y: (content function, fixed arguments, offset)"""
    if x[0].name() > y[0].name():
        r = bytecmp(eng, y, x, n)
        return If(r == bv(1, 8), bv(255, 8), If(r == bv(255, 8), bv(1, 8), bv(0, 8)))
    args = [norm(t) for t in list(x[1]) + [x[2]] + list(y[1]) + [y[2], n]]
    name = 'CMP_%s_%s' % (x[0].name(), y[0].name())
    fs = eng.__dict__.setdefault('cmpfns', {})
    if name not in fs:
        f = fs[name] = z3.Function(name, *([a.sort() for a in args] + [BV(8)]))

        def sane(*a, f=f):
            r = f(*a)
            return And(Or(r == bv(0, 8), r == bv(1, 8), r == bv(255, 8)), Implies(a[-1] == bv(0, 64), r == bv(0, 8)))
        eng.qfacts.append(E.QFact(sane, (f.get_id(),), None, 0, 1))
        eng.__dict__.setdefault('cmpdefs', {})[f.get_id()] = (x[0], len(x[1]), y[0], len(y[1]))
    return fs[name](*args)


def bytes_at(eng, st, p):
    """alternatives (condition, object, offset, content key) of a pointer to bytes"""
    out = []
    for c, o, off in p.alts:
        if o is None or o.kind == 'undef':
            out.append((c, None, off, None))
            continue
        if o.stride != 1:
            raise Unsupported('byte comparison of %r' % o)
        m = eng.mem_of(st, o)[0]
        if not isinstance(m, Base):
            raise Unsupported('byte comparison of written memory')
        out.append((c, o, off, (m.uf, m.pre, off.term())))
    return out


def h_memcmp(eng, ins, args, g, st, blk):
    eng.trusted.add('memcmp (sign of the first differing byte)')
    n = args[2]
    nz = n != bv(0, 64)
    mag = eng.fresh('memcmp', 32) & bv(0x3fffffff, 32)
    r = None
    for c, o, off, k in bytes_at(eng, st, args[0]):
        for c2, o2, off2, k2 in bytes_at(eng, st, args[1]):
            cc = And(g, c, c2)
            if is_false(cc):
                continue
            if o is None or o2 is None:
                eng.oblige('bounds', 'memcmp through a null pointer', And(cc, nz), FALSE)
                continue
            eng.range_ok(o, off, n, 'memcmp of', And(cc, nz))
            eng.range_ok(o2, off2, n, 'memcmp of', And(cc, nz))
            w = bytecmp(eng, k, k2, n)
            x = If(w == bv(0, 8), bv(0, 32), If(w == bv(255, 8), ~mag, mag + bv(1, 32)))
            r = x if r is None else If(And(c, c2), x, r)
    return bv(0, 32) if r is None else r


def h_noreturn(eng, ins, args, g, st, blk):
    eng.oblige('unreachable', 'call of %s' % ins.get('dn', '')[:60], g, FALSE)
    return None


# ---- std::vector<scalar>: a private heap block, sized once ----
VEL = {'unsigned int': 4, 'int': 4, 'unsigned long': 8, 'long': 8, 'unsigned short': 2, 'short': 2, 'unsigned char': 1,
       'signed char': 1, 'float': 4, 'double': 8}


def vec_of(eng, ins, p):
    if len(p.alts) != 1 or p.alts[0][1] is None:
        raise Unsupported('vector object')
    o = p.alts[0][1]
    v = eng.__dict__.setdefault('vecs', {}).get(o.id)
    if v is None:
        raise Unsupported('vector of unknown origin')
    return v


def vec_elem(ins):
    m = re.match(r'std::vector<([a-z ]+), std::allocator', ins.get('dn', ''))
    if not m or m.group(1) not in VEL:
        raise Unsupported('vector element type: ' + ins.get('dn', '')[:80])
    return VEL[m.group(1)]


def h_vec_ctor(eng, ins, args, g, st, blk):
    es = vec_elem(ins)
    n = args[1]
    eng.trusted.add('std::vector (private block of n elements)')
    # beyond 2^40 elements the constructor throws or the allocation fails
    eng.facts.append(Implies(g, z3.ULT(n, bv(1 << 40, 64))))
    o = eng.alloc('heap', 'vector', lin(n).scale(es).term(), st, (es, [(0, 8 * es, False)]))
    o.count = n
    o.inloop = [L.header for L in eng.cur_loops]
    if re.search(r'::vector\(unsigned long, [^)]*const&, std::alloc', ins['dn']):
        v = eng.load(st, args[2], 'i%d' % (8 * es), g)
    else:
        v = bv(0, 8 * es)
    st[o.id] = {0: FillN(eng.mem0[o.id][0], bv(0, 64), n, lambda idx, v=v: v)}
    eng.__dict__.setdefault('vecs', {})[args[0].alts[0][1].id] = o
    return None


def h_vec_data(eng, ins, args, g, st, blk):
    return Ptr.one(vec_of(eng, ins, args[0]))


def h_vec_end(eng, ins, args, g, st, blk):
    o = vec_of(eng, ins, args[0])
    return Ptr.one(o, lin(o.count).scale(o.stride))


def h_vec_size(eng, ins, args, g, st, blk):
    return vec_of(eng, ins, args[0]).count


def h_vec_at(eng, ins, args, g, st, blk):
    o = vec_of(eng, ins, args[0])
    eng.oblige('bounds', 'vector index', g, z3.ULT(args[1], o.count))
    return Ptr.one(o, lin(args[1]).scale(o.stride))


def h_ignore(eng, ins, args, g, st, blk):
    return None


def default_boundary():
    b = Boundary()
    b.add(r'^std::vector<.*>::vector\(unsigned long', h_vec_ctor)
    b.add(r'^std::vector<.*>::~vector\(', h_ignore)
    b.add(r'^std::vector<.*>::operator\[\]\(', h_vec_at)
    b.add(r'^std::vector<.*>::(begin|data|cbegin)\(', h_vec_data)
    b.add(r'^std::vector<.*>::(end|cend)\(', h_vec_end)
    b.add(r'^std::vector<.*>::size\(', h_vec_size)
    b.add(r'^(memcmp|bcmp)$', h_memcmp)
    b.add(r'Arena::Allocate\(', alloc_handler)
    import containers
    containers.install(b)
    b.add(r'ExecContext::AddError', h_adderror)
    b.add(r'^std::__cxx11::basic_string<|^std::(__cxx11::)?to_string|operator\+<char', h_nop)
    b.add(r'std::__throw_|^abort$|__assert_fail|std::terminate|__cxa_', h_noreturn)
    return b


BOUNDARY_RX = [
    r'Arena::', r'ExecContext::', r'std::__cxx11::basic_string<', r'std::(__cxx11::)?to_string\(', r'operator\+<char',
    r'std::(_V2::)?unordered_(map|set)<', r'std::unordered_(map|set)<', r'std::sort<', r'std::stable_sort<',
    r'std::nth_element<', r'std::to_chars', r'std::from_chars', r'std::vector<', r'std::hash<', r'MurmurHash3_',
    r'std::deque<', r'std::map<', r'std::set<', r'std::function<',
]


class Bound:
    """the function's arguments as seen by its contract"""
    pass


def fam_bytes(eng, key, name):
    k = ('fam', key)
    if k not in eng.__dict__.setdefault('fams', {}):
        eng.fams[k] = z3.Function('B_' + name, B64, B64, BV(8))
    return eng.fams[k]


def make_list(eng, name, tag, ln, mem0, readonly=True):
    n = zext(ln, 64)
    if tag == 'str':
        o = Obj('operand', name, lin(n).scale(16).term(), readonly)
        o.layout(16, [(0, 64, True), (8, 32, False)])
        o.count = n
        lens = z3.Function('L_' + name, B64, BV(32))
        byts = z3.Function('B_' + name, B64, B64, BV(8))
        cache = {}

        def mk(idx):
            k = idx.get_id()
            if k not in cache:
                f = Obj('operand', '%s[..]' % name, zext(lens(idx), 64), readonly)
                f.layout(1, [(0, 8, False)])
                f.count = f.size
                f.fam = (name, idx)
                mem0[f.id] = {0: Base(byts, (idx,))}
                cache[k] = (Ptr.one(f), idx)
            return cache[k][0]
        mem0[o.id] = {0: PtrBase(mk), 8: Base(lens)}
        o.fam_fns = (lens, byts)
        return o
    w = WID[tag] // 8
    o = Obj('operand', name, lin(n).scale(w).term() if w > 1 else n, readonly)
    o.layout(w, [(0, 8 * w, False)])
    o.count = n
    o.elemtag = tag
    mem0[o.id] = {0: Base(z3.Function('E_' + name, B64, BV(8 * w)))}
    return o


class StrElem:
    """a string element of a list operand (contract view)"""

    def __init__(self, la, k):
        self.la, self.k = la, k
        self.len = la.lens(norm(k))
        self.n = zext(self.len, 64)

    def at(self, j):
        return self.la.byts(norm(self.k), norm(j))

    def key(self):
        return self.la.byts, (norm(self.k),), bv(0, 64)


class StrListArg:
    tag = 'str'
    T = 'str'

    def __init__(self, obj, ln):
        self.obj, self.len = obj, ln
        self.n = zext(ln, 64)
        self.lens, self.byts = obj.fam_fns

    def at(self, k):
        return StrElem(self, k)


def bind(eng, fn, params, needs_ctx, mem0):
    """returns (ir argument values, contract arguments)"""
    ir = fn['args']
    vals, cargs = [], []
    i = 0
    sret = None
    if ir and 'sret' in ir[0]:
        sret = Obj('alloca', 'sret', bv(ir[0]['sret']['size'], 64))
        mem0[sret.id] = Cells()
        vals.append(Ptr.one(sret))
        i = 1
    ps = list(params) + (['ptr'] if needs_ctx else [])
    for n, p in enumerate(ps):
        nm = 'a%d' % n
        if p in ELEM:
            ln = z3.BitVec(nm + '_len', 32)
            o = make_list(eng, nm, ELEM[p], ln, mem0)
            if p == 'stringlist':
                ca = StrListArg(o, ln)
            else:
                ca = LArg(o, ln, ELEM[p])
                ca.node = mem0[o.id][0]
            ca.kind = p
            cargs.append(ca)
            if 'byval' in ir[i]:
                b = Obj('alloca', nm + '_byval', bv(16, 64))
                mem0[b.id] = Cells({0: (64, Ptr.one(o)), 8: (32, ln)})
                vals.append(Ptr.one(b))
                i += 1
            else:
                if ir[i]['t'] != 'ptr' or ir[i + 1]['t'] not in ('i32', 'i64'):
                    raise Unsupported('argument passing of %s' % p)
                vals.append(Ptr.one(o))
                vals.append(ln if ir[i + 1]['t'] == 'i32' else zext(ln, 64))
                i += 2
        elif p in WID:
            w = WID[p]
            x = z3.BitVec(nm, w)
            t = ir[i]['t']
            iw = E.width(t)
            if iw != w:
                raise Unsupported('scalar argument width')
            vals.append(x)
            ca = SArg(x, p)
            ca.kind = p
            cargs.append(ca)
            i += 1
        elif p == 'ptr':
            last = n == len(ps) - 1
            o = Obj('ctx' if last else 'opaque', 'ctx' if last else nm)
            vals.append(Ptr.one(o))
            ca = SArg(o, 'ptr')
            ca.kind = 'ptr'
            cargs.append(ca)
            i += 1
        else:
            raise Unsupported('parameter type ' + p)
    if i != len(ir):
        raise Unsupported('argument count: %d bound of %d' % (i, len(ir)))
    return vals, cargs, sret


class Contract:
    """base class: subclasses override what applies"""
    ret = 'list'

    def __init__(self, reg):
        self.reg = reg
        self.params = reg.params

    def args(self, A):
        return A

    def pre(self, O, A):
        return []

    # what even memory safety takes for granted
    def safety_pre(self, O, A):
        return []

    def err(self, O, A):
        return O.false

    # list results
    def length(self, O, A):
        raise NotImplementedError

    def elem(self, O, A, k):
        raise NotImplementedError

    # scalar results
    def value(self, O, A):
        raise NotImplementedError

    # auxiliary definitions for the argument: {name: fn(b) -> term}  (accumulators over a prefix of b elements)
    def prefix(self, O, A):
        return {}

    # the same over the range [x, y)
    def prefix2(self, O, A):
        return {}

    # order-preserving selection: (keep(i), value(i), total) - the result is value(i) for the kept i, in order
    def select(self, O, A):
        return None

    # operands small enough to be worth executing (replay only)
    def sane(self, vals):
        return True

    safety_full = False   # memory safety rests on the functional invariants
    def safety_prefix(self, O, A):
        return {}

    concrete_runs = True
    from_start = False
    fold_depth = 0
    exact_cmp = False     # float comparisons by their bit formula from the start (order reasoning)
    rel = False           # result described by rel_post instead of value (proof reading)
    zero_eq = False      # -0.0 and +0.0 are the same value to this contract
    lanes = False

    def str_elems(self, kc, obls, cc, ok, inr, k, m, i, st, tag):
        """string list results: element k has the length and the bytes the contract's elem_str says"""
        eng = kc.eng
        want = self.elem_str(kc.O, kc.A, k)
        p, ln = m[0].sel(i), m[8].sel(i)
        g = And(cc, ok, inr)
        j = z3.BitVec('j_post', 64)
        for c0, w in want:
            obls.append(Obligation('post', 'length of result strings' + tag, And(g, c0), ln == w.len))
            for c, o, off in p.alts:
                cj = And(g, c0, c, z3.ULT(j, w.n))
                if is_false(cj):
                    continue
                if o is None or o.stride != 1:
                    obls.append(Obligation('post', 'result strings have contents' + tag, cj, FALSE))
                    continue
                b = eng.mem_of(st, o)[0].sel(add(off.term(), j))
                obls.append(Obligation('post', 'bytes of result strings' + tag, cj, b == w.at(j)))

    def elem_str(self, O, A, k):
        raise Unsupported('string elements')

    def count(self, O, A, n):
        """number of kept positions below n (as a 64-bit index)"""
        keep = self.select(O, A)[0]
        f = O.fold('kept', 'u64', O.idx(0), lambda i, r: O.ite(keep(i), O.iadd(r, O.idx(1)), r), n)
        return f

    def select_lemmas(self, kc):
        eng, O, A = kc.eng, kc.O, kc.A
        self.count(O, A, bv(0, 64))
        f = eng.foldfns['kept'][0]
        uf_, d, _ = eng.folds[f.get_id()]
        eng.folds[f.get_id()] = (uf_, d, self.fold_depth)
        # induction lemmas: kept(n) <= n, and kept is monotone
        kc.lemma('kept(n) <= n', lambda n: z3.ULE(f(n), n), (f.get_id(),))
        kc.lemma2('kept monotone', lambda i, j: z3.ULE(f(i), f(j)), (f.get_id(),))
        keep = self.select(O, A)[0]
        eng.qfacts.append(E.QFact(lambda i: f(add(i, bv(1, 64))) == If(keep(i), f(i) + bv(1, 64), f(i)),
                                  (f.get_id(),), None, 1, 1))

    # predicates true of every index below / from a bound
    def preds(self, O, A):
        return {}

    # stage values of result elements other than the final one (e.g. the seed of an in-place accumulator)
    def stages(self, O, A):
        return {}

    def extra_facts(self, O, A, eng):
        return


def lane_eq(a, b, l):
    return a == b if l is None else extract(l, l, a) == extract(l, l, b)


def symbols(t, memo={}):
    k = t.get_id()
    r = memo.get(k)
    if r is not None:
        return r[0]
    s = set()
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    s.add(x.get_id())
            elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                s.add(('f', x.decl().get_id()))
            stack.extend(x.children())
    memo[k] = (s, t)
    return s


class KernelCheck:
    def __init__(self, fn, module, reg, contract, boundary=None, timeout=4000, log=None):
        self.fn, self.module, self.reg, self.contract = fn, module, reg, contract
        self.eng = Engine(fn, module, boundary or default_boundary())
        self.timeout = timeout
        self.log = log or (lambda *a: None)
        self.mem0 = {}
        self.lemmas = []
        self.select = None
        self.safety = False      # memory safety obligations only

    # ------------------------------------------------------------ candidates
    def make_cands(self):
        eng, C, O, A = self.eng, self.contract, self.O, self.A
        cands = []
        lens = [a.n for a in A if hasattr(a, 'n')]
        scal = [a.v for a in A if isinstance(a, SArg) and a.tag in WID and not isf(a.tag)]
        loops = [L for L in eng.loops.values() if hasattr(L, 'guard')]
        byhdr = {L.header: L for L in loops}
        for L in loops:
            own = set(s.get_id() for s in L.sym.values())
            ownf = set()
            for oid, h in L.havoc.items():
                if isinstance(h, Cells):
                    for k, (w, v) in h.d.items():
                        if not is_ptr(v):
                            own.add(v.get_id())
                elif isinstance(h, dict):
                    for f in h.values():
                        if isinstance(f, Base):
                            ownf.add(('f', f.uf.get_id()))
                elif z3.is_expr(h):
                    own.add(h.get_id())
            later = set()
            chain = []
            P = L.parent
            while P:
                chain.append(byhdr[P]) if P in byhdr else None
                P = byhdr[P].parent if P in byhdr else None

            # symbols that exist when the loop is entered
            known = set()
            for a in A:
                if hasattr(a, 'len'):
                    known.add(a.len.get_id())
                elif isinstance(a, SArg) and z3.is_expr(a.v):
                    known.add(a.v.get_id())
            for Q in loops:
                if Q in chain or eng.pos[Q.header] < eng.pos[L.header]:
                    for s in Q.sym.values():
                        known.add(s.get_id())

            def invariant(t):
                return all((x in known or (isinstance(x, tuple) and x not in ownf)) for x in symbols(t)) and \
                    not any(x in own for x in symbols(t))

            def headterm(t):
                ss = symbols(t)
                return all(x in known or x in own or (isinstance(x, tuple) and x not in ownf) for x in ss) and \
                    any(x in own for x in ss)
            ints = []       # (name, term) own scalar symbols
            for i, s in L.sym.items():
                ints.append((i, s))
            for oid, h in L.havoc.items():
                if isinstance(h, Cells):
                    for k, (w, v) in h.d.items():
                        if not is_ptr(v) and w in (8, 16, 32, 64):
                            ints.append(('cell%d_%d' % (oid, k), v))
            ent = {}
            for i, s in L.sym.items():
                ent[i] = bv(0, 64) if i in L.ptrphi else L.entry_phi[i]
            # loop-invariant bounds
            bounds = {}

            def addb(t):
                if z3.is_bv(t) and t.size() in (32, 64):
                    t = norm(zext(t, 64))
                    bounds[t.get_id()] = t
            for l in lens:
                addb(l)
            for t in ent.values():
                if invariant(t):
                    addb(t)
            extra_idx = {}
            for pred, a, b in L.cmps:
                for x, y in ((a, b), (b, a)):
                    if z3.is_bv(x) and x.size() in (32, 64):
                        if invariant(x):
                            addb(x)
                        else:
                            # split a linear form into loop part and invariant part
                            lx, ly = lin(x), lin(y)
                            d = ly.add(lx, -1)
                            inv = Lin(x.size(), 0, {i: tc for i, tc in d.m.items() if invariant(tc[0])})
                            addb(inv.term())
            for Q in chain:
                for s in Q.sym.values():
                    if s.size() in (32, 64):
                        addb(s)
            for s in scal:
                if s.size() in (32, 64):
                    addb(s)
            steps = {}
            for i, s in L.sym.items():
                for g, phis, m, p in L.backs:
                    d = lin(phis[i]).add(lin(s), -1)
                    if d.is_const():
                        steps.setdefault(i, set()).add(d.sconst())
                    else:
                        steps.setdefault(i, set()).add(None)

            def cand(name, fn, quant=False, trig=(), lane=None):
                cands.append(Cand('%s@%s' % (name, L.header), L, fn, quant, trig, lane))
            idxs = []       # 64-bit terms over own symbols that can serve as prefix bounds
            for i, s in ints:
                if s.size() in (32, 64):
                    idxs.append(norm(zext(s, 64)))
            # index relative to the pointer's base
            for i, (o, off, sc) in L.ptrphi.items():
                d = off.div(sc)
                if d is not None and (d.m or d.c):
                    idxs.append(d.add(lin(L.sym[i])).term())
                    extra_idx[i] = idxs[-1]
            for t in list(idxs):
                for b in bounds.values():
                    cand('le', lambda S, t=t, b=b: z3.ULE(S.t(t), b))
                    cand('ge', lambda S, t=t, b=b: z3.UGE(S.t(t), b))
                    if not isnum(b):
                        cand('lt', lambda S, t=t, b=b: z3.ULT(S.t(t), b))
            # sums of two indices within a bound
            pr = list({t.get_id(): t for t in idxs}.values())
            for x in range(len(pr)):
                for y in range(x + 1, len(pr)):
                    sm = add(pr[x], pr[y])
                    if len(pr) <= 4:
                        for b in bounds.values():
                            cand('sumle', lambda S, t=sm, b=b: z3.ULE(S.t(t), b))
                            cand('sumeq', lambda S, t=sm, b=b: S.t(t) == b)
                    cand('rel', lambda S, a=pr[x], b=pr[y]: z3.ULE(S.t(a), S.t(b)))
                    cand('rel', lambda S, a=pr[x], b=pr[y]: z3.ULE(S.t(b), S.t(a)))
            # constant-step counters: stay congruent, and move in lock step
            st_list = [(i, L.sym[i], list(v)[0]) for i, v in steps.items() if len(v) == 1 and None not in v]
            for i, s, d in st_list:
                e = ent[i]
                if abs(d) > 1:
                    w = s.size()
                    ad = abs(d)
                    if ad & (ad - 1) == 0:
                        cand('cong', lambda S, s=s, e=e, ad=ad, w=w: (S.t(s) - e) & bv(ad - 1, w) == bv(0, w))
                    else:
                        cand('cong', lambda S, s=s, e=e, ad=ad, w=w: z3.URem(S.t(s) - e, bv(ad, w)) == bv(0, w))
                # distance to a bound stays congruent is implied
                if d == 0:
                    cand('const', lambda S, s=s, e=e: S.t(s) == e)
            for x in range(len(st_list)):
                for y in range(len(st_list)):
                    if x == y:
                        continue
                    i, s, d = st_list[x]
                    j, t, f = st_list[y]
                    if f == 0 or d == 0 or d % f:
                        continue
                    c = d // f
                    if abs(c) == 1 and y < x:
                        continue
                    # s - s0 == c*(t - t0)  (in the narrower width)
                    w = min(s.size(), t.size())
                    cand('lock', lambda S, s=s, t=t, c=c, w=w, e1=ent[i], e2=ent[j]:
                         trunc(S.t(s), w) - trunc(e1, w) == (trunc(S.t(t), w) - trunc(e2, w)) * bv(c, w))
                    if s.size() != t.size():
                        W = max(s.size(), t.size())
                        cand('lockw', lambda S, s=s, t=t, c=c, W=W, e1=ent[i], e2=ent[j]:
                             zext(S.t(s), W) - zext(e1, W) == (zext(S.t(t), W) - zext(e2, W)) * bv(c, W))
            # adding up the bits of a word one at a time: what has been added and what remains make up all its bits
            for i, s in L.sym.items():
                for g, phis, m, p in L.backs:
                    d = lin(phis[i]).add(lin(s), -1)
                    if d.is_const() or len(d.m) != 1 or s.size() not in (32, 64):
                        continue
                    stack = [list(d.m.values())[0][0]]
                    while stack:
                        x = stack.pop()
                        if x.decl().kind() == z3.Z3_OP_BLSHR and x.size() in (32, 64) and invariant(x.arg(0)) and headterm(x.arg(1)):
                            w, k, n = x.arg(0), x.arg(1), s.size()
                            def pc(q, f=E.pop8x):
                                return sum((zext(f(extract(8 * b + 7, 8 * b, q)), q.size()) for b in range(q.size() // 8)),
                                           bv(0, q.size()))
                            eng.facts.append(pc(w) == pc(w, E.pop8))      # pop8 stands for exactly this
                            fit = (lambda q, n=n: zext(q, n) if q.size() <= n else trunc(q, n))
                            cand('bitsum', lambda S, s=s, w=w, k=k, e=ent[i], fit=fit, pc=pc:
                                 S.t(s) + fit(pc(z3.LShR(w, S.t(k)))) == e + fit(pc(w)))
                        stack += x.children()
            if '$err' in L.havoc:
                ee = L.entry_mem.get('$err', FALSE)
                cand('err', lambda S, ee=ee: S.mem.get('$err', FALSE) == ee)
            # prefix bounds for quantified candidates
            pb = {}
            for t in idxs:
                pb[t.get_id()] = t
            for oid, lst in L.stores.items():
                for o, fo, ix in lst:
                    if headterm(ix):
                        t = norm(ix)
                        pb[t.get_id()] = t
            for Q in chain:
                for s in Q.sym.values():
                    if s.size() in (32, 64):
                        q = norm(zext(s, 64))
                        pb[q.get_id()] = q
                        for t in idxs:
                            u = add(t, q)
                            pb[u.get_id()] = u
            for x in range(len(pr)):
                for y in range(x + 1, len(pr)):
                    u = add(pr[x], pr[y])
                    pb[u.get_id()] = u
            if C.from_start:
                # the distance a counter has moved
                for i, s, d in st_list:
                    u = norm(zext(sub(s, ent[i]), 64))
                    pb[u.get_id()] = u
                    for e in [norm(zext(sub(bv(0, s.size()), ent[i]), 64))] + [b for b in bounds.values() if not isnum(b)]:
                        cand('moved', lambda S, u=u, e=e: z3.ULE(S.t(u), e))
            pbs = list(pb.values())
            if getattr(C, 'next_bound', False):
                for t in list(pbs):
                    u = add(t, bv(1, 64))
                    if u.get_id() not in pb:
                        pb[u.get_id()] = u
                        pbs.append(u)
            L.pbs = pbs
            if getattr(C, 'ptr_acc', False):
                # an index whose element is the accumulated value
                for a in A:
                    if not isinstance(a, LArg):
                        continue
                    for nm, f in self.prefix.items():
                        for t in idxs:
                            for b in pbs:
                                v = f(b)
                                if z3.is_bv(v) and v.size() == a.node.uf.range().size():
                                    cand('ptracc_' + nm, lambda S, t=t, a=a, f=f, b=b: a.at(S.t(t)) == f(S.t(b)))
            L.bounds = list(bounds.values())
            # scalar accumulators over a prefix
            for nm, f in self.prefix.items():
                for i, s in ints:
                    for b in pbs:
                        v = f(b)
                        if z3.is_bool(v):
                            if s.size() == 1:
                                cand('acc_' + nm, lambda S, s=s, f=f, b=b: bv2b(S.t(s)) == f(S.t(b)))
                            continue
                        if v.size() == s.size():
                            cand('acc_' + nm, lambda S, s=s, f=f, b=b: S.t(s) == f(S.t(b)))
                        elif s.size() in (32, 64) and v.size() in (32, 64) and nm.startswith('n_'):
                            cand('acc_' + nm, lambda S, s=s, f=f, b=b: zext(S.t(s), 64) == zext(f(S.t(b)), 64))
            inv_b = [t for t in bounds.values()]
            pairs = [(x, y) for x in pbs for y in pbs if x is not y] + [(x, y) for x in inv_b for y in pbs]
            if C.lanes:
                # a byte covers positions from a fixed base up to a moving end
                moving = [norm(zext(s, 64)) for i, s in L.sym.items() if s.size() in (32, 64)]
                outer = {}
                for Q in loops:
                    if Q is not L and self.eng.pos[Q.header] < self.eng.pos[L.header]:
                        for s in Q.sym.values():
                            if s.size() in (32, 64):
                                outer[s.get_id()] = norm(zext(s, 64))
                outer = list(outer.values()) + [b for b in inv_b if not isnum(b)]
                pairs = [(x, y) for x in outer for m in moving for y in (m, add(x, m))]
            for nm, f in self.prefix2.items():
                for x, y in pairs:
                    v = f(x, y)
                    for i, s in ints:
                        if s.size() == v.size():
                            for l in self.lanes(v):
                                cand('acc2_' + nm, lambda S, s=s, f=f, x=x, y=y, l=l:
                                     lane_eq(S.t(s), f(S.t(x), S.t(y)), l), lane=l)
                        elif C.lanes and s.size() > v.size():
                            for l in self.lanes(v):
                                cand('acc2_' + nm, lambda S, s=s, f=f, x=x, y=y, l=l:
                                     lane_eq(S.t(s), f(S.t(x), S.t(y)), l), lane=l)
                    for oid, lst in L.stores.items():
                        seen_ix = set()
                        for o, fo, ix in lst:
                            if ix.get_id() in seen_ix or len(seen_ix) > 2:
                                continue
                            seen_ix.add(ix.get_id())
                            h = L.havoc.get(oid)
                            if not isinstance(h, dict) or not isinstance(h.get(fo), Base) or \
                                    h[fo].uf.range().size() != v.size():
                                continue
                            if not (invariant(ix) or headterm(ix)):
                                continue
                            for l in self.lanes(v):
                                cand('at_' + nm, lambda S, oid=oid, fo=fo, ix=ix, f=f, x=x, y=y, l=l:
                                     lane_eq(S.arr(oid, fo).sel(S.t(norm(ix))), f(S.t(x), S.t(y)), l), lane=l)
            for nm, (f, trig) in self.preds.items():
                for b in pbs + list(bounds.values()):
                    cand('all_' + nm, lambda S, k, f=f, b=b: Implies(z3.ULT(k, S.t(b)), f(k)), True, trig)
                for b in pbs:
                    cand('from_' + nm, lambda S, k, f=f, b=b: Implies(z3.UGE(k, S.t(b)), f(k)), True, trig)
            # contents written by the loop
            for oid, h in L.havoc.items():
                if not isinstance(h, dict):
                    continue
                ob = [o for o in eng.allocs if o.id == oid]
                for fo, node in h.items():
                    if not isinstance(node, Base):
                        continue
                    trig = (node.uf.get_id(),)
                    entry = L.entry_mem.get(oid, eng.mem0.get(oid))[fo]
                    if not isinstance(entry, (Base,)) or getattr(eng, 'always_frame', True):
                        for b in pbs:
                            cand('keep_from', lambda S, k, oid=oid, fo=fo, entry=entry, b=b: Implies(
                                z3.UGE(k, S.t(b)), S.arr(oid, fo).sel(k) == entry.sel(k)), True, trig)
                        ixs = {ix.get_id(): norm(ix) for o, f2, ix in L.stores.get(oid, []) if f2 == fo and invariant(ix)}
                        if len(ixs) == 1 and all(invariant(ix) for o, f2, ix in L.stores.get(oid, []) if f2 == fo):
                            ix = list(ixs.values())[0]
                            cand('keep_except', lambda S, k, oid=oid, fo=fo, entry=entry, b=ix: Implies(
                                k != b, S.arr(oid, fo).sel(k) == entry.sel(k)), True, trig)
                        eb = {}
                        for t in pbs:
                            te = L_entry_term(L, t)
                            if te is not None:
                                eb[te.get_id()] = te
                        for b in list(eb.values()) + list(bounds.values()):
                            if isnum(b) and num(b) == 0:
                                continue
                            cand('keep_below', lambda S, k, oid=oid, fo=fo, entry=entry, b=b: Implies(
                                z3.ULT(k, b), S.arr(oid, fo).sel(k) == entry.sel(k)), True, trig)
                    if self.select and node.uf.range().size() == WID[ELEM[self.reg.ret]]:
                        keep, val, tot = self.select
                        ft = (eng.foldfns['kept'][0].get_id(),)
                        for b in pbs + list(bounds.values()):
                            cand('sel', lambda S, k, oid=oid, fo=fo, b=b: Implies(
                                And(z3.ULT(k, S.t(b)), keep(k)),
                                S.arr(oid, fo).sel(norm(C.count(O, A, k))) == val(k)), True, ft)
                    for nm, f in self.stages.items():
                        try:
                            v = f(bv(0, 64), bv(0, 64))
                        except Exception:
                            continue
                        if not z3.is_bv(v) or node.uf.range().size() != v.size():
                            continue
                        for b in pbs:
                            for l in self.lanes(v):
                                cand('data_' + nm, lambda S, k, oid=oid, fo=fo, f=f, b=b, l=l: Implies(
                                    z3.ULT(k, S.t(b)), lane_eq(S.arr(oid, fo).sel(k), f(k, S.t(b)), l)), True, trig, l)
                            cand('accd_' + nm, lambda S, k, oid=oid, fo=fo, f=f, b=b: Implies(
                                z3.ULT(k, self.reslen), S.arr(oid, fo).sel(k) == f(k, S.t(b))), True, trig) \
                                if nm in self.inplace else None
        self.contract_cands(cands)
        # remove duplicates created by aliasing terms
        return cands

    def contract_cands(self, cands):
        f = getattr(self.contract, 'cands', None)
        if f:
            f(self, cands)

    def lanes(self, v):
        """bit by bit where the contract asks for it"""
        return range(v.size()) if self.contract.lanes else (None,)

    # ------------------------------------------------------------ lemmas (ghost facts about recursive definitions)
    LIM = 1 << 40

    def lemma(self, name, P, trig, skip=None):
        """P(n) for all n < 2^40 by induction on n, then available as a fact"""
        n = z3.BitVec('ind_n', 64)
        self.check_lemma(name + ' (base)', [], P(bv(0, 64)))
        self.check_lemma(name + ' (step)', [z3.ULT(n, bv(self.LIM, 64)), P(n)], P(add(n, bv(1, 64))))
        self.eng.qfacts.append(E.QFact(lambda k: TRUE if skip and skip(k) else
                                       Implies(z3.ULT(k, bv(self.LIM, 64)), P(k)), trig, None, 1, 1))

    def lemma_from(self, name, hyps, P, trig):
        """P(n) for all n < 2^40, from instances of facts already available"""
        n = z3.BitVec('ind_n', 64)
        self.check_lemma(name, [z3.ULT(n, bv(self.LIM, 64))] + hyps(n), P(n))
        self.eng.qfacts.append(E.QFact(lambda k: Implies(z3.ULT(k, bv(self.LIM, 64)), P(k)), trig, None, 1, 1))

    def lemma2(self, name, P, trig):
        """P(i, j) for all i <= j < 2^40 by induction on j"""
        i, j = z3.BitVec('ind_i', 64), z3.BitVec('ind_j', 64)
        self.check_lemma(name + ' (base)', [], P(i, i))
        self.check_lemma(name + ' (step)', [z3.ULT(j, bv(self.LIM, 64)), z3.ULE(i, j), P(i, j)],
                         P(i, add(j, bv(1, 64))))
        self.eng.qfacts.append(E.QFact(lambda a, b: Implies(And(z3.ULE(a, b), z3.ULT(b, bv(self.LIM, 64))), P(a, b)),
                                       trig, None, 2, 1))

    def check_lemma(self, name, hyps, claim):
        v = Verifier(self.eng, [], self.timeout)
        r, m = v.prove(Obligation('lemma', name, TRUE, claim), hyps)
        self.lemmas.append((name, r))
        if r != 'proved':
            raise Unsupported('lemma not proved: ' + name)

    # ------------------------------------------------------------ run
    def setup(self):
        eng, fn, reg = self.eng, self.fn, self.reg
        if hasattr(self.contract, 'bind'):
            vals, cargs, sret = self.contract.bind(eng, fn, self.mem0)
        else:
            vals, cargs, sret = bind(eng, fn, reg.params, reg.needs_ctx, self.mem0)
        eng.setup(vals, self.mem0)
        self.sret = sret
        self.O = ZOps(eng)
        self.A = cargs
        C = self.contract
        eng.exact_cmp = C.exact_cmp
        for f in (C.safety_pre if self.safety else C.pre)(self.O, cargs):
            if isinstance(f, E.QFact):
                eng.qfacts.append(f)
            else:
                eng.facts.append(f)

    def result(self):
        """merge the return states: ([(guard, value, mem)])"""
        eng = self.eng
        out = []
        for g, v, st in eng.rets:
            if self.sret is not None:
                m = st[self.sret.id]
                v = [m.d[0][1], m.d[8][1]]
            out.append((g, v, st))
        return out

    def posts(self):
        eng, C, O, A = self.eng, self.contract, self.O, self.A
        obls = []
        e = C.err(O, A)
        for n, (g, v, st) in enumerate(self.result()):
            tag = '' if len(eng.rets) == 1 else ' (return %d)' % (n + 1)
            es = st.get('$err', FALSE)
            obls.append(Obligation('post', 'error recorded exactly when the contract says so' + tag, g, es == e))
            if C.rel:
                k = z3.BitVec('k_post', 64)
                for nm, cl in C.rel_post(O, A, v, k):
                    obls.append(Obligation('post', nm + tag, And(g, Not(e)), cl))
            elif C.ret == 'scalar':
                want = C.value(O, A)
                if z3.is_bool(want):
                    want = zext(b2bv(want), v.size())
                obls.append(Obligation('post', 'result value' + tag, And(g, Not(e)), v == want))
            elif C.ret == 'list':
                p, ln = v[0], v[1]
                ln = trunc(ln, 32)
                want = C.length(O, A)
                obls.append(Obligation('post', 'result length' + tag, And(g, Not(e)), ln == want))
                obls.append(Obligation('post', 'empty result on error' + tag, And(g, e), ln == bv(0, 32)))
                self.list_post(obls, g, e, p, ln, st, tag)
        extra = getattr(C, 'extra_posts', None)
        if extra:
            extra(self, obls)
        return obls

    def safety_posts(self):
        """a returned list lies inside memory of this execution"""
        obls = []
        for n, (g, v, st) in enumerate(self.result()):
            if self.contract.ret == 'list':
                self.list_post(obls, g, FALSE, v[0], trunc(v[1], 32), st, '' if len(self.eng.rets) == 1 else ' (return %d)' % (n + 1))
        return obls

    def list_post(self, obls, g, e, p, ln, st, tag):
        eng, C, O, A = self.eng, self.contract, self.O, self.A
        k = z3.BitVec('k_post', 64)
        n = zext(ln, 64)
        inr = z3.ULT(k, n)
        rt = ELEM[self.reg.ret]
        w = WID[rt] if rt != 'str' else None
        for c, o, off in p.alts:
            cc = And(g, c)
            if is_false(cc):
                continue
            if o is None:
                obls.append(Obligation('post', 'null result is empty' + tag, cc, ln == bv(0, 32)))
                continue
            if o.kind in ('undef', 'opaque', 'ctx', 'fnptr', 'alloca'):
                obls.append(Obligation('post', 'result points to memory of this execution' + tag, And(cc, n != bv(0, 64)), FALSE))
                continue
            if o.stride is None:
                # never accessed: contents arbitrary
                o.layout((w or 128) // 8, [(0, w, False)] if w else [(0, 64, True), (8, 32, False)])
                eng.init_alloc(o)
            s = (w // 8) if w else 16
            if o.stride != s:
                raise Unsupported('result element size')
            i0 = off.div(s)
            if i0 is None:
                raise Unsupported('result offset')
            i0 = i0.term()
            obls.append(Obligation('post', 'result lies inside its block' + tag, cc,
                                   And(z3.ULE(i0, o.count), z3.ULE(n, o.count - i0))))
            if self.safety:
                continue
            m = eng.mem_of(st, o)
            if w and C.select(O, A):
                keep, val, tot = C.select(O, A)
                cnt = C.count(O, A, k)
                got = m[0].sel(add(i0, cnt))
                obls.append(Obligation('post', 'kept elements appear in order' + tag,
                                       And(cc, Not(e), z3.ULT(k, tot), keep(k)), got == val(k)))
            elif w:
                got = m[0].sel(add(i0, k))
                want = C.elem(O, A, k)
                for l in self.lanes(want):
                    obls.append(Obligation('post', 'result elements' + tag, And(cc, Not(e), inr), lane_eq(got, want, l), l))
            else:
                C.str_elems(self, obls, cc, Not(e), inr, k, m, add(i0, k), st, tag)

    def prepare(self):
        """VC generation, ghost lemmas and invariant candidates"""
        eng = self.eng
        self.setup()
        C, O, A = self.contract, self.O, self.A
        if C.ret == 'list':
            rt = ELEM[self.reg.ret]
            eng.alloc_hint = WID[rt] // 8 if rt in WID else None
        hook = getattr(C, 'before', None)
        if hook:
            hook(self)
        eng.run()
        self.cands = []
        if eng.loops and self.safety and not C.safety_full:
            self.prefix = self.prefix2 = self.preds = self.stages = {}
            self.inplace = set()
            self.prefix = C.safety_prefix(O, A)
            self.cands = self.make_cands()
            self.name_cands()
        elif eng.loops:
            self.prefix = C.prefix(O, A)
            self.prefix2 = C.prefix2(O, A)
            self.select = C.select(O, A)
            if self.select:
                C.select_lemmas(self)
            self.preds = {}
            for nm, pf in C.preds(O, A).items():
                probe = z3.BitVec('probe', 64)
                trig = set()
                stack, seen = [pf(probe)], set()
                while stack:
                    x = stack.pop()
                    if x.get_id() in seen:
                        continue
                    seen.add(x.get_id())
                    if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED \
                            and x.arg(x.num_args() - 1).eq(probe):
                        trig.add(x.decl().get_id())
                    stack.extend(x.children())
                self.preds[nm] = (pf, tuple(trig))
            self.stages = dict(C.stages(O, A))
            self.inplace = getattr(C, 'inplace', set())
            if C.ret == 'list':
                self.reslen = zext(C.length(O, A), 64)
                if self.select:
                    self.prefix.setdefault('n_kept', lambda b: C.count(O, A, b))
                elif ELEM[self.reg.ret] != 'str':
                    self.stages.setdefault('elem', lambda k, b: C.elem(O, A, k))
            self.cands = self.make_cands()
            self.name_cands()
        self.fingerprint = hashlib.sha256(repr([c.name for c in self.cands]).encode()).hexdigest()[:16]
        self.post_obls = self.safety_posts() if self.safety else self.posts()
        self.post_extra = C.post_facts(O, A) if hasattr(C, 'post_facts') else []

    def name_cands(self):
        # names that do not depend on IR numbering: loop ordinal and ordinal among candidates of that name
        order = {h: n for n, h in enumerate(sorted({c.loop.header for c in self.cands}, key=lambda h: self.eng.pos[h]))}
        cnt = {}
        for c in self.cands:
            nm = '%s@L%d' % (c.name.split('@')[0], order[c.loop.header])
            if c.lane is not None:
                nm += '.%d' % c.lane
            cnt[nm] = cnt.get(nm, -1) + 1
            c.name = '%s#%d' % (nm, cnt[nm])

    def attempt(self, only=None, deadline=None, stop_first=False):
        """one proof attempt with the candidates (or the hinted subset)"""
        eng = self.eng
        res = Res(self.fn['name'])
        res.trusted = eng.trusted
        cands = self.cands
        for c in cands:
            c.alive = only is None or c.name in only
            c.done = {}
        if only is not None:
            cands = [c for c in cands if c.alive]
        ver = Verifier(eng, cands, self.timeout, self.log)
        ver.deadline = deadline
        ver.hinted = only is not None
        self.ver = ver
        ver.prepare()
        if cands:
            self.log('candidates', len(cands))
            if only is None and self.contract.concrete_runs:
                import concrete
                t = time.time()
                try:
                    d = concrete.Filter(self).filter(cands)
                except Exception as ex:
                    d = repr(ex) + traceback.format_exc()
                self.log('concrete runs', d, 'left', sum(c.alive for c in cands), round(time.time() - t, 2))
            ver.houdini()
            for c in cands:
                if c.alive:
                    self.log('  inv', c.name)
        # hoare-style: invariants are obligations too (init + preservation, discharged by the fixpoint above)
        alive = sum(c.alive for c in cands)
        res.invariants = alive
        inv_obl = sum((1 + len(c.loop.backs)) for c in cands if c.alive)
        res.obligations += inv_obl + len(self.lemmas)
        res.discharged += inv_obl + len(self.lemmas)
        todo = [(ob, ()) for ob in eng.obls] + [(ob, self.post_extra) for ob in self.post_obls]
        seen = {}
        for ob, ex in todo:
            res.obligations += 1
            key = (ob.guard.get_id(), ob.claim.get_id())
            if key in seen:
                r, m = seen[key]
            elif deadline and time.time() > deadline:
                r, m = 'unknown', None
            elif stop_first and res.failed:
                r, m = 'skipped', None
            else:
                r, m = ver.prove(ob, ex)
                seen[key] = (r, m)
            if r == 'proved':
                res.discharged += 1
            else:
                self.log('FAILED', ob, r)
                res.failed.append((ob.kind, ob.name, r))
                if m is not None and res.model is None:
                    res.model = m
                    res.inputs = self.extract_inputs(m)
        if not res.failed:
            for h in ver.vacuous_loops():
                res.failed.append(('vacuity', 'contradictory invariants at loop %s' % h, 'unknown'))
            # vacuity: some return must be reachable under the assumptions, or the proof says nothing
            if eng.rets and not any(ver.reachable(g) for g, v, st in eng.rets):
                res.failed.append(('vacuity', 'no return is reachable under the assumed preconditions', 'unknown'))
        res.queries, res.solver_s = ver.pr.stats.queries, ver.pr.stats.time
        if not res.failed:
            res.status = 'proved'
        elif any(r == 'refuted' for _, _, r in res.failed):
            res.status = 'refuted'
        else:
            res.status = 'unknown'
        return res

    def minimise(self):
        """names of the invariants the (successful) proof needs"""
        from solve import needed
        if not self.cands:
            return []
        return needed(self.ver, [(ob, ()) for ob in self.eng.obls] + [(ob, self.post_extra) for ob in self.post_obls])

    def guarded(self, f, *a, **kw):
        t0 = time.time()
        try:
            res = f(*a, **kw) or Res(self.fn['name'])
        except Unsupported as ex:
            res = Res(self.fn['name'])
            res.status = 'unsupported'
            res.note = str(ex)
            self.log(traceback.format_exc())
        except Exception as ex:
            res = Res(self.fn['name'])
            res.status = 'error'
            res.note = repr(ex)[:300] + ' ' + traceback.format_exc()[-700:]
            self.log(traceback.format_exc())
        res.wall = time.time() - t0
        return res

    def run(self, hints=None, deadline=None):
        res = self.guarded(self.prepare)
        if res.status:
            return res
        r2 = self.guarded(self.attempt, hints, deadline)
        r2.wall += res.wall
        return r2

    def extract_inputs(self, m):
        """operand values from a counter-model (best effort, for replay)"""
        out = []
        try:
            for a in self.A:
                if isinstance(a, LArg):
                    n = m.eval(a.len, model_completion=True).as_long()
                    vals = {}
                    f = a.node.uf
                    d = {}
                    fi = m[f]
                    dflt = 0
                    if fi is not None:
                        for i in range(fi.num_entries()):
                            en = fi.entry(i)
                            d[en.arg_value(0).as_long()] = en.value().as_long()
                        ev = fi.else_value()
                        dflt = ev.as_long() if z3.is_bv_value(ev) else 0
                    out.append({'len': n, 'els': {str(k): v for k, v in sorted(d.items()) if k < n}, 'default': dflt})
                elif isinstance(a, SArg) and a.tag in WID:
                    out.append(m.eval(a.v, model_completion=True).as_long())
                elif isinstance(a, StrListArg):
                    n = m.eval(a.len, model_completion=True).as_long()
                    els = {}
                    fi = m[a.lens]
                    dl = 0
                    if fi is not None:
                        for i in range(fi.num_entries()):
                            en = fi.entry(i)
                            els[en.arg_value(0).as_long()] = en.value().as_long()
                        ev = fi.else_value()
                        dl = ev.as_long() if z3.is_bv_value(ev) else 0
                    by = {}
                    fi = m[a.byts]
                    if fi is not None:
                        for i in range(fi.num_entries()):
                            en = fi.entry(i)
                            by.setdefault(en.arg_value(0).as_long(), {})[en.arg_value(1).as_long()] = en.value().as_long()
                    out.append({'len': n, 'slen': {str(k): v for k, v in els.items() if k < n}, 'sdef': dl,
                                'bytes': {str(k): {str(j): c for j, c in v.items()} for k, v in by.items() if k < n}})
                else:
                    out.append(None)
        except Exception as ex:
            return None
        return out


def L_entry_term(L, t):
    sub = []
    for i, s in L.sym.items():
        v = bv(0, 64) if i in L.ptrphi else L.entry_phi[i]
        sub.append((s, v))
    r = z3.substitute(t, *sub) if sub else t
    return norm(r)
