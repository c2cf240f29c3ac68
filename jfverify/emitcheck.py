"""Contracts on the code generator, decided on the code it emits.

/repo's own front half (validator, code generator) is run on program trees whose operands are opaque external calls;
the module it hands to the JIT is captured unchanged and the verifier proves, for every operand value, that the entry
function equals the reference semantics (sem.py): value, static type, and the guarded, ordered external calls."""
import ctypes, json, math, os, pickle, random, re, shutil, signal, struct, subprocess, sys, tempfile, time
import z3
from smt import *
import engine as E
from engine import Engine, Obj, Ptr, Obligation
from solve import Verifier
import ops
from ops import ZOps, POps, WID, isf, iss, ANY, Undefined
import sem
from sem import Sem, Types, Reject, NUM, agg, isnumt, text

HERE = os.path.dirname(os.path.abspath(__file__))


class CannotRun(Exception):
    """the concrete reading has no answer for this program"""


# ------------------------------------------------------------------------------------------------ builtins
CASTS = {'CastU8': 'u8', 'CastU16': 'u16', 'CastU32': 'u32', 'CastU64': 'u64', 'CastI8': 'i8', 'CastI16': 'i16',
         'CastI32': 'i32', 'CastI64': 'i64', 'CastF32': 'f32', 'CastF64': 'f64'}
UNARYF = {'frac', 'trunc', 'ceil', 'floor', 'round', 'sin', 'cos', 'tan', 'sqrt'}
LOGS = {'exp', 'log', 'log2', 'log10'}


def math_sig(name, ts):
    """result type of a scalar math builtin, None when there is no such overload"""
    if name in CASTS:
        return CASTS[name] if len(ts) == 1 and isnumt(ts[0]) else None
    if len(ts) == 1:
        t = ts[0]
        if name in LOGS:
            return {'f32': 'f32', 'f64': 'f64', 'i32': 'f64', 'u32': 'f64', 'i64': 'f64', 'u64': 'f64'}.get(t)
        if name in UNARYF:
            return t if t in ('f32', 'f64') else None
        if name == 'abs':
            return {'i8': 'i32', 'i16': 'i32', 'i32': 'i32', 'i64': 'i64', 'f32': 'f32', 'f64': 'f64'}.get(t)
    if len(ts) == 2:
        if name == 'pow':
            return {('f32', 'i32'): 'f32', ('f64', 'i32'): 'f64', ('i32', 'i32'): 'f64', ('i64', 'i32'): 'f64',
                    ('f32', 'f32'): 'f32', ('f64', 'f64'): 'f64'}.get(tuple(ts))
        if name in ('min', 'max'):
            return ts[0] if ts[0] == ts[1] and isnumt(ts[0]) else None
    return None


MATHFN = ['exp', 'log', 'log2', 'log10', 'frac', 'trunc', 'ceil', 'floor', 'round', 'sin', 'cos', 'tan', 'sqrt', 'abs',
          'pow', 'min', 'max']


def builtin(s, name, ts, vs, g):
    """value of an inlined builtin, or None when the name has no inline contract"""
    O = s.O
    R = math_sig(name, ts)
    if R is not None:
        if name in CASTS:
            return R, s.convert(ts[0], R, vs[0])
        if name in ('min', 'max'):
            T = R
            if isf(T):
                z = O.const(T, 0)
                s.need(g, O.and_(O.cmp('eq', T, vs[0], vs[0]), O.cmp('eq', T, vs[1], vs[1])))
                s.need(g, O.not_(O.and_(O.cmp('eq', T, vs[0], z), O.cmp('eq', T, vs[1], z))))
            c = O.cmp('lt' if name == 'min' else 'gt', T, vs[0], vs[1])
            return R, O.ite(c, vs[0], vs[1])
        if name == 'pow':
            if ts[1] == 'i32':
                return R, O.fn2('powi', R, s.convert(ts[0], R, vs[0]), vs[1])
            return R, O.fn2('pow', R, vs[0], vs[1])
        v = s.convert(ts[0], R, vs[0])
        if name == 'abs':
            if isf(R):
                return R, O.bitop('and', v, s.bits(R, (1 << (WID[R] - 1)) - 1))
            m = s.bits(R, 1 << (WID[R] - 1))
            s.need(g, O.not_(O.eqv(v, m)))
            return R, O.ite(O.cmp('lt', R, v, O.const(R, 0)), O.bin('sub', R, O.const(R, 0), v), v)
        if name == 'frac':
            return R, O.bin('sub', R, v, O.fn('trunc', R, v))
        return R, O.fn(name, R, v)
    if name in ('Len', 'StringLen') and len(ts) == 1 and agg(ts[0]):
        return 'u32', vs[0][1]
    if name == 'FindMiss' and not ts:
        return 'u32', s.bits('u32', 0xffffffff)
    if name == 'Truncate' and len(ts) == 2 and ts[1] == 'u32':
        n = vs[0][1]
        k = O.ite(O.cmp('lt', 'u32', n, vs[1]), n, vs[1])
        return ts[0], (s.cut(vs[0][0], k, ts[0]) if O.concrete else vs[0][0], k)
    if name == 'FilterByBitmap' and len(ts) == 2:
        _, n = s.callf(s, 'CountBits', [ts[1]], [vs[1]], g)
        return s.raw('FilterByBitmap', [ts[0], ts[1], 'u32'], [vs[0], vs[1], n], g)
    if name in ('GroupKeys', 'GroupSum', 'GroupMax', 'GroupMin', 'GroupAvg') and len(ts) == 2:
        _, n = s.callf(s, 'GroupCount', [ts[1]], [vs[1]], g)
        return s.raw(name, [ts[0], ts[1], 'u32'], [vs[0], vs[1], n], g)
    if name == 'ListLookupIndex' and len(ts) == 2:
        k = 'Int' if ts[0] != 'stringlist' else 'String'
        _, t = s.raw('__BuildLookupTable' + k, [ts[1]], [vs[1]], g)
        return s.raw('__LookupTable' + k, [ts[0], 'ptr'], [vs[0], t], g)
    return None


class ZOpsE(ZOps):
    """as ZOps; operations on literals are folded exactly as the IR builder folds them"""

    def __init__(self, eng):
        ZOps.__init__(self, eng)
        self.P = POps()

    def bin(self, op, T, a, b):
        if isf(T) and isnum(a) and isnum(b):
            return bv(self.P.bin(op, T, num(a), num(b)), WID[T])
        return ZOps.bin(self, op, T, a, b)

    def cvt(self, F, T, a):
        if isnum(a) and (isf(F) or isf(T)):
            r = self.P.cvt(F, T, num(a))
            if r is not ANY:
                return bv(r, WID[T])
        return ZOps.cvt(self, F, T, a)

    def divw(self, op, T, a, b):
        return heavy(('s' if iss(T) else 'u') + ('div' if op == 'div' else 'rem'), a, b)

    def fn2(self, name, T, *args):
        return fop(name, WID[T], *args)


class POpsE(POps):
    def fn2(self, name, T, a, b):
        if a is ANY or b is ANY:
            return ANY
        x = ops.fdec(T, a)
        y = ops.tosigned(b, 32) if name == 'powi' else ops.fdec(T, b)
        lm = ops.libm()
        lm.pow.restype = ctypes.c_double
        lm.pow.argtypes = [ctypes.c_double, ctypes.c_double]
        return ops.fenc(T, lm.pow(float(x), float(y)))


APPROX = re.compile(r'\(call (exp|log|log2|log10|sin|cos|tan|pow|sqrt) ')


# ------------------------------------------------------------------------------------------------ capture
def child(code, args, timeout):
    return subprocess.Popen([sys.executable, '-c', code] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=HERE)


EMIT = ('import ctypes,sys\nl=ctypes.CDLL(sys.argv[1])\n'
        'sys.exit(l.jf_emit(sys.argv[2].encode(),sys.argv[3].encode(),sys.argv[4].encode()))\n')


def emit_slice(b, progs, d):
    """[{captured, broken, type, msg, module}] for a slice of program texts; a crash of the compiler is reported as such"""
    res = []
    start = 0
    part = 0
    while start < len(progs):
        sub = os.path.join(d, str(part))
        os.makedirs(sub, exist_ok=True)
        part += 1
        pf, rf = os.path.join(sub, 'progs'), os.path.join(sub, 'res')
        with open(pf, 'w') as f:
            f.write('\n'.join(progs[start:]) + '\n')
        try:
            p = subprocess.run([sys.executable, '-c', EMIT, b['so'], pf, sub, rf], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=120 + len(progs), cwd=HERE)
            rc, err = p.returncode, p.stderr[-500:].decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            rc, err = -9, 'the compiler does not finish'
        lines = open(rf, errors='replace').read().splitlines() if os.path.exists(rf) else []
        lines = lines[:len(progs) - start]
        mods = []
        lst = []
        for n, l in enumerate(lines):
            c, bad, ty, msg = l.split('|', 3)
            e = {'captured': c == '1', 'broken': bad == '1', 'type': ty.lower(), 'msg': msg, 'module': None}
            if e['captured']:
                lst.append(e)
                mods.append(os.path.join(sub, '%d.bc' % n))
            res.append(e)
        if mods:
            lf, of = os.path.join(sub, 'list'), os.path.join(sub, 'out')
            with open(lf, 'w') as f:
                f.write('\n'.join(mods) + '\n')
            q = subprocess.run([b['irdump'], '--emit', lf, of], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if q.returncode:
                raise RuntimeError('irdump: ' + q.stderr[-500:].decode())
            with open(of) as f:
                for e, l in zip(lst, f):
                    e['module'] = json.loads(l)
        shutil.rmtree(sub)
        start += len(lines)
        if start < len(progs):
            if rc == 0:
                raise RuntimeError('jf_emit stopped early: ' + err)
            res.append({'captured': False, 'broken': False, 'type': '', 'msg': 'the compiler crashed (status %d) %s' % (rc, err),
                        'module': None, 'crash': True})
            start += 1
    return res


# ------------------------------------------------------------------------------------------------ the emitted function
def fresh_handle(name):
    return z3.BitVec(name, 64)


def handle(p):
    r = None
    for c, o, l in reversed(p.alts):
        h = bv(0, 64) if o is None else o.handle
        if not (l.is_const() and l.c == 0):
            h = add(h, l.term())
        r = h if r is None else If(c, h, r)
    return r


def opq(name, h):
    o = Obj('opaque', name)
    o.handle = h
    return Ptr.one(o)


def flat(v):
    """number -> [term]; pointer -> [handle]; (ptr,len) -> [handle,len]"""
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in flat(x)]
    if isinstance(v, Ptr):
        return [handle(v)]
    return [v]


class Lits:
    """literal contents -> handles, shared by both sides"""

    def __init__(self):
        self.m = {}

    def h(self, key):
        if key not in self.m:
            self.m[key] = z3.BitVec('lit!%d' % len(self.m), 64)
        return self.m[key]


def lit_key(node):
    """content key of a literal of the program text"""
    if node[0] == 'str':
        return ('bytes', node[1])
    _, T, xs = node
    if T == 'stringlist':
        return ('strs',) + tuple(xs)
    w = WID[T[:-4]] // 8
    return ('bytes', b''.join(int(x).to_bytes(w, 'little') for x in xs))


def global_key(mod, name):
    """content key of a constant global of the module"""
    g = mod['globals'][name]
    if not g['const'] or 'init' not in g:
        return None
    t, init = g['t'], g['init']
    if not (isinstance(t, dict) and 'a' in t):
        return None
    et, n = t['a'], t['n']
    if isinstance(et, str):
        w = E.width(et) // 8
        if 'zero' in init:
            return ('bytes', bytes(w * n))
        out = b''
        for x in init['agg']:
            v = int(x['c']) if 'c' in x else int(x['f']) if 'f' in x else None
            if v is None:
                return None
            out += (v & ((1 << (8 * w)) - 1)).to_bytes(w, 'little')
        return ('bytes', out)
    strs = []
    if 'zero' in init:
        return ('strs',) + (b'',) * n
    for x in init['agg']:
        if 'zero' in x:
            strs.append(b'')
            continue
        p, l = x['agg']
        ln = int(l['c'])
        if 'null' in p or ln == 0:
            if ln:
                return None
            strs.append(b'')
            continue
        while 'cgep' in p:
            if p['gep'].get('const') or p['gep'].get('vars'):
                return None
            p = p['cgep']
        k = global_key(mod, p['g'])
        if k is None or k[0] != 'bytes' or len(k[1]) < ln:
            return None
        strs.append(k[1][:ln])
    return ('strs',) + tuple(strs)


def tystr(T):
    if T in ('ptr', 'void'):
        return T
    if isnumt(T):
        return {'f32': 'float', 'f64': 'double'}.get(T, 'i%d' % WID[T])
    return 'agg'


def irty(t):
    return 'agg' if isinstance(t, dict) else t


class EmitEngine(Engine):
    def __init__(self, fn, module, world):
        Engine.__init__(self, fn, module, EmitEngine.external)
        self.w = world
        self.events = []

    def global_obj(self, name):
        if name in self.globals:
            return self.globals[name]
        o = Obj('opaque', name)
        k = global_key(self.module, name)
        o.handle = self.w.lits.h(k) if k else fresh_handle('glob!' + name)
        self.globals[name] = o
        return o

    def undef(self, t):
        if t == 'ptr':
            return opq('undef', self.fresh('undef', 64))
        return Engine.undef(self, t)

    def arith(self, op, ins, a, b, g):
        w = a.size()
        if ins.get('nsw') and op in ('add', 'sub', 'mul'):
            f = {'add': lambda: z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)),
                 'sub': lambda: z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)),
                 'mul': lambda: z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))}[op]
            self.oblige('arith', '%s nsw' % op, g, f())
        if ins.get('nuw') and op in ('add', 'sub', 'mul'):
            f = {'add': lambda: z3.BVAddNoOverflow(a, b, False), 'sub': lambda: z3.BVSubNoUnderflow(a, b, False),
                 'mul': lambda: z3.BVMulNoOverflow(a, b, False)}[op]
            self.oblige('arith', '%s nuw' % op, g, f())
        if op == 'shl' and (ins.get('nsw') or ins.get('nuw')):
            r = a << b
            self.oblige('arith', 'shl wrap flag', g, And(*([z3.LShR(r, b) == a] if ins.get('nuw') else []),
                                                         *([(r >> b) == a] if ins.get('nsw') else [])))
        if ins.get('exact'):
            if op in ('lshr', 'ashr'):
                self.oblige('arith', 'exact shift', g, (z3.LShR(a, b) << b) == a)
            else:
                self.oblige('arith', 'exact division', g,
                            (z3.SRem(a, b) if op == 'sdiv' else z3.URem(a, b)) == bv(0, w))
        return Engine.arith(self, op, ins, a, b, g)

    def exec(self, ins, g, st, blk):
        if ins.get('fmf'):
            self.oblige('arith', 'fast-math flag on %s in strict mode' % ins['op'], g, FALSE)
        if ins.get('nneg'):
            a = self.val(ins['ops'][0])
            self.oblige('arith', 'nneg', g, a >= bv(0, a.size()))
        if ins['op'] in ('fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc'):
            a = self.val(ins['ops'][0])
            if isnum(a) and ins['op'] in ('sitofp', 'uitofp'):
                F = ('i' if ins['op'] == 'sitofp' else 'u') + '%d' % a.size()
                T = 'f%d' % E.width(ins['t'])
                if F in WID:
                    return bv(POps().cvt(F, T, num(a)), WID[T])
        return Engine.exec(self, ins, g, st, blk)

    def intrinsic(self, n, ins, g, st):
        base = n.split('.')[1]
        if base == 'abs' and ins['args'][1].get('c') not in (None, '0'):
            a = self.val(ins['args'][0])
            self.oblige('arith', 'abs of the least integer', g, a != bv(1 << (a.size() - 1), a.size()))
        return Engine.intrinsic(self, n, ins, g, st)

    def external(self, ins, args, g, st, blk):
        sym = ins['fn']
        m = re.match(r'([A-Za-z0-9_]+)\((.*)\)$', sym)
        if not m:
            raise Unsupported('call of ' + sym)
        name, ps = m.group(1), [x.strip().lower() for x in m.group(2).split(',')] if m.group(2).strip() else []
        fl = flat(args)
        if [tystr(t) for t in ps] != [irty(t) for t in ins['ats']]:
            self.oblige('call', 'argument types of ' + sym, g, FALSE)
            raise Unsupported('argument types of ' + sym)
        pos = (self.pos[blk], len(self.events))
        if name.startswith('leaf_') and ps == ['ptr', 'u32'] and name[5:] in LEAFT:
            k = num(fl[1]) if isnum(fl[1]) else None
            self.events.append(('leaf', name[5:], k, g, fl, pos))
            return self.w.leaf_ir(name[5:], k)
        if name == 'sink' and ps[:2] == ['ptr', 'u32']:
            k = num(fl[1]) if isnum(fl[1]) else None
            self.events.append(('sink', ps[2], k, g, fl, pos))
            return None
        r = self.w.symbol(name, ps)
        if r is None:
            self.oblige('call', 'no registered function has the symbol ' + sym, g, FALSE)
            raise Unsupported('unknown symbol ' + sym)
        if irty(ins.get('t', 'void')) != tystr(r.ret):
            self.oblige('call', 'result type of ' + sym, g, FALSE)
            raise Unsupported('result type of ' + sym)
        self.events.append(('call', '%s_%x' % (r.name, r.addr), None, g, fl, pos))
        return self.w.apply_ir(r, fl)


LEAFT = set(NUM + sem.LISTS + ['string', 'ptr'])


class World:
    """what both sides share: leaf values, registered functions, literals, the entry arguments"""

    def __init__(self, regs):
        self.lits = Lits()
        self.byname = {}
        self.bysym = {}
        self.h = {k: fresh_handle('h_' + k) for k in ('arg', 'ctx', 'out')}
        for r in regs:
            self.byname[(r.name, tuple(r.params))] = r
            if r.kind == 2:
                self.bysym[(r.name, tuple(r.params + (['ptr'] if r.needs_ctx else [])))] = r

    def symbol(self, name, ps):
        return self.bysym.get((name, tuple(ps)))

    def lookup(self, name, ts):
        r = self.byname.get((name, tuple(ts)))
        return r.ret if r else None

    # leaf values
    def leaf(self, T, k, g=None):
        if isnumt(T):
            return z3.BitVec('leaf_%s_%s' % (T, k), WID[T])
        if T == 'ptr':
            return z3.BitVec('leaf_ptr_%s' % k, 64)
        return (z3.BitVec('leaf_%s_%s_p' % (T, k), 64), z3.BitVec('leaf_%s_%s_n' % (T, k), 32))

    def wrap(self, T, v):
        if isnumt(T):
            return v
        if T == 'ptr':
            return opq('p', v)
        return [opq('p', v[0]), v[1]]

    def leaf_ir(self, T, k):
        if k is None:
            raise Unsupported('leaf with a computed number')
        return self.wrap(T, self.leaf(T, k))

    # registered functions: one uninterpreted function per C function and argument shape
    def apply(self, r, fl):
        key = '%s_%x' % (r.name, r.addr)
        srt = [x.sort() for x in fl]
        T = r.ret
        if T == 'void':
            return None
        if isnumt(T) or T == 'ptr':
            return uf('cf_' + key, *(srt + [BV(WID.get(T, 64))]))(*fl) if fl else z3.BitVec('cf_' + key, WID.get(T, 64))
        if not fl:
            return (z3.BitVec('cf_p_' + key, 64), z3.BitVec('cf_n_' + key, 32))
        return (uf('cf_p_' + key, *(srt + [B64]))(*fl), uf('cf_n_' + key, *(srt + [BV(32)]))(*fl))

    def apply_ir(self, r, fl):
        return None if r.ret == 'void' else self.wrap(r.ret, self.apply(r, fl))


class ZSem(Sem):
    def __init__(self, eng, world):
        self.w = world
        Sem.__init__(self, ZOpsE(eng), world.leaf, ZSem.call_fn, world.lookup, self.lit_handle)

    def lit_handle(self, key):
        if key[0] in ('arg', 'ctx', 'out'):
            return self.w.h[key[0]]
        if key[0] == 'str':
            return self.w.lits.h(('bytes', key[1]))
        return self.w.lits.h(lit_key(('clist', key[1], key[2])))

    def call_fn(self, name, ts, vs, g):
        r = builtin(self, name, ts, vs, g)
        if r is not None and self.w.byname.get((name, tuple(ts))) is not None and \
                self.w.byname[(name, tuple(ts))].kind == 1:
            return r
        return self.raw(name, ts, vs, g)

    def raw(self, name, ts, vs, g):
        r = self.w.byname.get((name, tuple(ts)))
        if r is None or r.kind != 2:
            r2 = self.w.bysym.get((name, tuple(ts) + ('ptr',)))
            if r2 is None:
                raise Unsupported('the contract needs %s(%s)' % (name, ', '.join(ts)))
            r = r2
        fl = [y for v in vs for y in (v if isinstance(v, tuple) else (v,))]
        if r.needs_ctx or (r.params and r.params[-1] == 'ptr' and len(r.params) == len(ts) + 1):
            fl.append(self.w.h['ctx'])
        self.events.append((g, 'call', '%s_%x' % (r.name, r.addr), None, fl))
        return r.ret, self.w.apply(r, fl)


# ------------------------------------------------------------------------------------------------ one program
def verify(prog, e, regs, cfg):
    """proof of one emitted program -> (failed [(kind,name,status)], n obligations, stats, counter-models)"""
    w = World(regs)
    mod = e['module']
    fns = [f for f in mod['functions']]
    if len(fns) != 1:
        return [('emit', 'one function expected', 'refuted')], 1, None, []
    fn = fns[0]
    eng = EmitEngine(fn, mod, w)
    eng.setup([opq('arg', w.h['arg']), opq('ctx', w.h['ctx']), opq('out', w.h['out'])], {})
    ref = ZSem(eng, w)
    RT, RV = ref.ev(prog, TRUE)
    eng.run()
    obls = list(eng.obls)
    # every path returns
    obls.append(Obligation('return', 'every path returns', TRUE, Or(*[g for g, _, _ in eng.rets])))
    if RT != 'void':
        want = flat(RV)
        for g, v, _ in eng.rets:
            got = flat(v)
            obls.append(Obligation('value', 'the result is the value of the expression', g, same(RT, got, want)))
    # events
    key = {}
    for i, (g, kind, k, T, v) in enumerate(ref.events):
        if kind != 'call':
            if (kind, k) in key:
                raise Unsupported('call number %s used twice' % k)
            key[(kind, k)] = i
    got = {}
    for ev in eng.events:
        kind, T, k, g, fl, pos = ev
        if kind == 'call':
            gs = [rg for rg, rk, rs, _, _ in ref.events if rk == 'call' and rs == T]
            obls.append(Obligation('event', 'a call of %s is one the program makes' % T, g, Or(*gs)))
            continue
        got.setdefault((kind, k), []).append(ev)
        if (kind, k) not in key:
            obls.append(Obligation('event', '%s %s is not part of the program' % (kind, k), g, FALSE))
    for i, (g, kind, k, T, v) in enumerate(ref.events):
        if kind == 'call':
            continue
        evs = got.get((kind, k), [])
        if any(x[1] != T for x in evs):
            obls.append(Obligation('event', '%s %s has the declared type' % (kind, k), TRUE, FALSE))
            continue
        obls.append(Obligation('event', '%s %s happens when its branch is selected' % (kind, k), g, Or(*[x[3] for x in evs])))
        for n, x in enumerate(evs):
            obls.append(Obligation('event', '%s %s happens only when its branch is selected' % (kind, k), x[3], g))
            for y in evs[:n]:
                obls.append(Obligation('event', '%s %s happens once' % (kind, k), x[3], Not(y[3])))
            obls.append(Obligation('event', '%s %s gets the entry argument' % (kind, k), x[3], x[4][0] == w.h['arg']))
            if kind == 'sink':
                obls.append(Obligation('event', 'sink %s gets the value' % k, x[3], same(T, x[4][2:], flat(v))))
    # order
    seq = [(i, x) for i, r in enumerate(ref.events) if r[1] != 'call' for x in got.get((r[1], r[2]), [])]
    for a in range(len(seq)):
        for b2 in range(a + 1, len(seq)):
            (i, x), (j, y) = seq[a], seq[b2]
            if i < j and x[5] > y[5]:
                obls.append(Obligation('event', '%s %s before %s %s' % (x[0], x[2], y[0], y[2]), x[3], Not(y[3])))
    facts = [Implies(g, c) for g, c in ref.pre]
    ver = Verifier(eng, [], cfg['timeout'])
    ver.prepare()
    failed, models = [], []
    todo = [o for o in obls if not (is_true(o.claim) or is_false(o.guard))]
    # all obligations of a kind in one query; one by one only when that does not go through
    for kind in sorted({o.kind for o in todo}):
        some = [o for o in todo if o.kind == kind]
        if len(some) > 3:
            st, _ = ver.prove(Obligation(kind, 'all', TRUE, And(*[Implies(o.guard, o.claim) for o in some])), facts)
            if st == 'proved':
                todo = [o for o in todo if o.kind != kind]
    for o in todo:
        st, m = ver.prove(o, facts)
        if st != 'proved':
            failed.append((o.kind, o.name, st))
            if m is not None:
                models.append(model_slots(m, prog))
    if facts and not failed and any(not is_true(f) for f in facts):
        st, _ = ver.prove(Obligation('vacuity', 'operands satisfying the precondition exist', TRUE, FALSE), facts)
        if st == 'proved':
            failed.append(('vacuity', 'no operand satisfies the precondition', 'refuted'))
    st = ver.pr.stats
    return failed, len(obls), st, models


def same(T, got, want):
    if len(got) != len(want):
        return FALSE
    if T == 'ptr' or isnumt(T):
        return And(*[a == b for a, b in zip(got, want)])
    return And(got[1] == want[1], Or(want[1] == bv(0, 32), got[0] == want[0]))


def leaves(n, out):
    if isinstance(n, (list, tuple)):
        if n and n[0] == 'leaf':
            out.append((n[1], n[2]))
        for x in n:
            leaves(x, out)
    return out


def sinks(n, out):
    if isinstance(n, (list, tuple)):
        if n and n[0] == 'sink':
            out.append(n[1])
        for x in n:
            sinks(x, out)
    return out


def model_slots(m, prog):
    d = {}
    for T, k in leaves(prog, []):
        if isnumt(T):
            v = m.eval(z3.BitVec('leaf_%s_%s' % (T, k), WID[T]), model_completion=True)
            d[k] = v.as_long()
    return d


# ------------------------------------------------------------------------------------------------ replay
class PSem(Sem):
    """concrete reading: strings and lists are (content, length)"""

    def __init__(self, regs, slots):
        self.w = World(regs) if not isinstance(regs, World) else regs
        self.slots = slots
        Sem.__init__(self, POpsE(), lambda T, k, g: slots[k], PSem.call_fn, self.w.lookup, self.lit_content)

    def lit_content(self, key):
        if key[0] in ('arg', 'ctx', 'out'):
            raise CannotRun(key[0])
        if key[0] == 'str':
            return key[1]
        k = lit_key(('clist', key[1], key[2]))
        if k[0] == 'strs':
            return k[1:]
        return k[1]

    def cut(self, content, n, T):
        if T == 'stringlist':
            return content[:n]
        return content[:n * (WID[T[:-4]] // 8)] if T != 'string' else content[:n]

    def raw(self, name, ts, vs, g):
        raise CannotRun(name)

    def call_fn(self, name, ts, vs, g):
        if name == 'StringCmp':
            a, b = vs[0][0], vs[1][0]
            return 'i32', 0 if a == b else 1 if a > b else 0xffffffff
        if name in ('StringConcat', 'ListConcat'):
            return ts[0], (vs[0][0] + vs[1][0], vs[0][1] + vs[1][1])
        r = builtin(self, name, ts, vs, g)
        if r is None:
            raise CannotRun(name)
        return r


def rand_slots(rng, prog, n):
    out = []
    specials = {}
    for T in NUM:
        w = WID[T]
        if isf(T):
            xs = [0.0, 1.0, -1.0, 0.5, -2.5, 3.0, 1e9, -1e9, 100.25, 1e-3, 7.75, float('inf'), float('nan'), -0.0]
            specials[T] = [ops.fenc(T, x) for x in xs]
        else:
            M = (1 << w) - 1
            specials[T] = sorted({0, 1, 2, 3, 5, 7, M, M - 1, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1, 31 & M, 100, w - 1,
                                  w // 2})
    ls = leaves(prog, [])
    for i in range(n):
        d = {}
        same_v = rng.random() < 0.2
        for T, k in ls:
            if isnumt(T):
                r = rng.random()
                if r < 0.55:
                    d[k] = rng.choice(specials[T])
                elif isf(T):
                    d[k] = ops.fenc(T, rng.uniform(-50, 50) if r < 0.9 else rng.uniform(-1e12, 1e12))
                else:
                    d[k] = rng.getrandbits(WID[T])
                if same_v and not isf(T):
                    d[k] = ops.tosigned(5, 8) & ((1 << WID[T]) - 1)
            elif T == 'string':
                c = bytes(rng.choice(b'ab\0\xff') for _ in range(rng.choice([0, 0, 1, 2, 3, 5])))
                d[k] = (c, len(c))
            elif T in sem.LISTS and T != 'stringlist':
                m = rng.choice([0, 1, 2, 4])
                c = bytes(rng.getrandbits(8) for _ in range(m * (WID[T[:-4]] // 8)))
                d[k] = (c, m)
            else:
                raise CannotRun(T)
        out.append(d)
    return out


class RS(ctypes.Structure):
    _fields_ = [('p', ctypes.c_void_p), ('n', ctypes.c_uint64)]


def native(so, prog_text, vectors, ret, seconds):
    """runs the program through the real engine in a child; yields (index, rc, result, trace) or ('crash', index) / ('nocompile', msg)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            f = os.fdopen(w, 'wb')
            signal.alarm(int(seconds) + 5)
            try:
                ctypes.CDLL('libgcc_s.so.1', ctypes.RTLD_GLOBAL)      # run-time support the JIT resolves in the process
            except OSError:
                pass
            lib = ctypes.CDLL(so)
            lib.jf_msg.restype = ctypes.c_char_p
            dn = os.open('/dev/null', os.O_WRONLY)
            os.dup2(dn, 2)
            if not lib.jf_compile(prog_text.encode()):
                pickle.dump(('nocompile', lib.jf_msg().decode('utf8', 'replace')), f)
                f.flush()
                os._exit(0)
            slots = (ctypes.c_uint64 * 512)()
            res = (ctypes.c_uint64 * 4)()
            trace = (ctypes.c_uint64 * 3000)()
            keep = []
            for i, d in enumerate(vectors):
                pickle.dump(('start', i), f)
                f.flush()
                for k, v in d.items():
                    if isinstance(v, tuple):
                        buf = ctypes.create_string_buffer(v[0], max(1, len(v[0])))
                        keep.append(buf)
                        slots[2 * k], slots[2 * k + 1] = ctypes.addressof(buf), v[1]
                    else:
                        slots[2 * k], slots[2 * k + 1] = v, 0
                n = lib.jf_run(ctypes.byref(slots), ctypes.byref(res), 1 if ret == 'void' else 0, ctypes.byref(trace), 3000)
                if n < 0:
                    pickle.dump(('res', i, -1, lib.jf_msg().decode('utf8', 'replace'), None), f)
                else:
                    if ret == 'void':
                        val = None
                    elif isnumt(ret):
                        val = res[0] & ((1 << WID[ret]) - 1)
                    else:
                        nb = res[1] * (1 if ret == 'string' else WID[ret[:-4]] // 8 if ret != 'stringlist' else 0)
                        val = (ctypes.string_at(res[0], nb) if res[0] and nb else b'', res[1])
                    pickle.dump(('res', i, 0, val, list(trace[:n])), f)
                f.flush()
                del keep[:]
        finally:
            os._exit(0)
    os.close(w)
    out = []
    with os.fdopen(r, 'rb') as f:
        while True:
            try:
                out.append(pickle.load(f))
            except Exception:
                break
    _, st = os.waitpid(pid, 0)
    if out and out[-1][0] == 'start':
        out.append(('crash', out[-1][1], st))
    return [o for o in out if o[0] != 'start']


def close(T, a, b, approx):
    if a is ANY:
        return True
    if isf(T):
        if ops.isnan(T, a) and ops.isnan(T, b):
            return True
        if a == b:
            return True
        if approx:
            x, y = ops.fdec(T, a), ops.fdec(T, b)
            if math.isinf(x) or math.isinf(y) or x != x or y != y:
                return math.isinf(x) and math.isinf(y) and x == y
            return abs(x - y) <= 2e-3 * max(abs(x), abs(y), 1e-30) or abs(x - y) < 1e-9
        return False
    return a == b


def search(so, prog, regs, models, seconds=12.0, n=250, seed=1, only=None):
    """a confirmed disagreement between the running engine and the contract, or None"""
    w = World(regs)
    txt = text(prog)
    approx = bool(APPROX.search(txt))
    try:
        if only is not None:
            vecs = only
        else:
            vecs = [m for m in models if m or not leaves(prog, [])] if all(isnumt(T) for T, _ in leaves(prog, [])) else []
            vecs = [{k: m.get(k, 0) for _, k in leaves(prog, [])} for m in vecs]
            vecs += rand_slots(random.Random(seed), prog, n)
    except CannotRun as ex:
        return {'error': 'not replayed: the program needs ' + str(ex)}
    exp, good = [], []
    ret = 'void'
    for d in vecs:
        s = PSem(w, d)
        try:
            T, v = s.ev(prog, True)
            s.O.check(s.pre)
        except Undefined:
            continue
        except CannotRun as ex:
            return {'error': 'not replayed: the contract of %s is not evaluated' % ex}
        ret = T
        good.append(d)
        exp.append((T, v, s.events))
    if not good:
        return None
    for o in native(so, txt, good, ret, seconds):
        if o[0] == 'nocompile':
            return {'what': 'the program is refused: ' + o[1], 'args': enc_slots(good[0])}
        if o[0] == 'crash':
            return {'what': 'the compiled program crashes (status %s)' % o[2], 'args': enc_slots(good[o[1]])}
        i = o[1]
        T, v, evs = exp[i]
        if o[2] < 0:
            return {'what': 'execution fails: ' + str(o[3]), 'args': enc_slots(good[i])}
        if T != 'void':
            if isnumt(T):
                ok = close(T, v, o[3], approx)
            elif T == 'stringlist':
                ok = v[1] == o[3][1]
            else:
                ok = tuple(v) == tuple(o[3])
            if not ok:
                return {'what': 'the result is %s, the contract says %s' % (show(T, o[3]), show(T, v)), 'args': enc_slots(good[i])}
        tr = [tuple(o[4][k:k + 3]) for k in range(0, len(o[4]), 3)]
        want = []
        for g, kind, k, T2, x in evs:
            if g and kind in ('leaf', 'sink'):
                want.append((0 if kind == 'leaf' else 1, k, x if kind == 'sink' and isnumt(T2) else None, T2))
        ok = len(tr) == len(want) and all(a[0] == b[0] and a[1] == b[1] and
                                         (b[2] is None or close(b[3], b[2], a[2] & ((1 << WID[b[3]]) - 1), approx))
                                         for a, b in zip(tr, want))
        if not ok:
            return {'what': 'the calls made are %s, the contract says %s' % (
                [('leaf', 'sink')[a[0]] + str(a[1]) + ('=%x' % a[2] if a[0] else '') for a in tr],
                [('leaf', 'sink')[b[0]] + str(b[1]) + ('=%x' % b[2] if isinstance(b[2], int) else '') for b in want]),
                'args': enc_slots(good[i])}
    return None


def show(T, v):
    if isinstance(v, int):
        return '%#x' % v + (' (%r)' % ops.fdec(T, v) if isf(T) else '')
    return repr(v)


def enc_slots(d):
    return {'slots': {str(k): (v if isinstance(v, int) else [v[0].hex(), v[1]]) for k, v in d.items()}}


def dec_slots(d):
    return {int(k): (v if isinstance(v, int) else (bytes.fromhex(v[0]), v[1])) for k, v in d['slots'].items()}


# ------------------------------------------------------------------------------------------------ units
def expect(prog, w):
    """('ok', type) or ('reject', why)"""
    try:
        return 'ok', Types(w.lookup).ty(prog)
    except Reject as ex:
        return 'reject', str(ex)


def unit(shared, b, regs, named, cfg, rule=None):
    """named: [(unit name, program, expectation or None)]; emits, proves, replays. One result per program"""
    d = tempfile.mkdtemp(prefix='jfemit')
    out = []
    try:
        w = World(regs)
        named = [(n, ('sink', 255, p) if expect(p, w) == ('ok', 'ptr') else p, x) for n, p, x in named]
        em = emit_slice(b, [text(p) for _, p, _ in named], d)
        for (name, prog, want), e in zip(named, em):
            t0 = time.time()
            bn = cfg.get('bounded_names')
            r = {'unit': name, 'mode': 'bounded' if bn and re.search(bn, name) else 'proved', 'obligations': 1, 'discharged': 0, 'failed': [], 'note': '', 'found': None,
                 'spec': 'emit', 'reg': None, 'status': 'error', 'prog': text(prog), 'queries': 0, 'solver_s': 0.0,
                 'extra': {'program': text(prog), 'tree': repr(prog)}}
            out.append(r)
            try:
                one(r, prog, want, e, w, b, regs, cfg)
            except Unsupported as ex:
                r['failed'] = [('unsupported', str(ex), 'unsupported')]
                r['status'] = 'unsupported'
                r['note'] = str(ex)
                if e['captured']:
                    r['found'] = search(b['so'], prog, regs, [], n=400, seed=cfg['seed'])
            r['wall'] = round(time.time() - t0, 3)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def one(r, prog, want, e, w, b, regs, cfg):
    exp, ty = want or expect(prog, w)
    acc = e['captured']

    def bad(what):
        r['failed'] = [('type', what, 'refuted')]
        r['status'] = 'refuted'
        r['note'] = e['msg'][:300]
        r['found'] = {'what': what, 'args': {'program': text(prog)}}
    if e.get('crash'):
        return bad('the compiler crashes on this program')
    if e['broken']:
        return bad('the code generator produced an invalid module')
    if acc != (exp == 'ok'):
        return bad('accepted, but it must be refused (%s)' % ty if acc else 'refused, but it is a valid program')
    if not acc and '[internal]' in e['msg']:
        return bad('an invalid program is not refused by validation but by an internal error')
    if not acc:
        r['status'] = 'proved'
        r['obligations'] = r['discharged'] = 1
        r['rejection'] = True
        return
    if e['type'] != ty:
        return bad('reported type %s, the type rules say %s' % (e['type'], ty))
    failed, n, st, models = verify(prog, e, regs, cfg)
    r['obligations'] = n + 1
    r['discharged'] = n + 1 - len(failed)
    r['failed'] = failed
    if st:
        r["queries"], r["solver_s"] = st.queries, round(st.time, 3)
    if not failed:
        r['status'] = 'proved'
        return
    r['status'] = 'refuted' if any(f[2] == 'refuted' for f in failed) else 'unknown'
    r['found'] = search(b['so'], prog, regs, models, seed=cfg['seed'])


def replay_program(d, b, regs):
    prog = eval(d['extra']['tree'], {'__builtins__': {}})
    print(d['unit'], d['extra']['program'])
    a = d['found']['args']
    if 'slots' in a:
        x = search(b['so'], prog, regs, [], only=[dec_slots(a)])
        print('operands', json.dumps(a['slots']))
        print('->', x['what'] if x and 'what' in x else 'agrees with the contract')
        return 1 if x and 'what' in x else 0
    t = tempfile.mkdtemp(prefix='jfemit')
    try:
        e = emit_slice(b, [text(prog)], t)[0]
    finally:
        shutil.rmtree(t)
    print('->', {k: v for k, v in e.items() if k != 'module'})
    return 1
