"""Contracts of the list hash (C19): the mixing function over bytes, and the builtin that hands it a list's bytes."""
import re, subprocess
from kernel import Contract
from ops import WID, SArg, LArg
from specs.c03 import Scalar
from smt import *
import engine as E
import smt as S

SEED = 0x9747b28c
ELT = {'u8list': 1, 'i8list': 1, 'u16list': 2, 'i16list': 2, 'u32list': 4, 'i32list': 4, 'u64list': 8, 'i64list': 8,
       'f32list': 4, 'f64list': 8}
CORE = 'MurmurHash3_x86_32'


def rotl(x, r):
    return (x << r | x >> (32 - r)) & 0xffffffff


def murmur(d, h):
    """the published algorithm"""
    n = len(d) // 4
    M = 0xffffffff
    for i in range(n):
        k = int.from_bytes(d[4 * i:4 * i + 4], 'little')
        k = rotl(k * 0xcc9e2d51 & M, 15) * 0x1b873593 & M
        h = (rotl(h ^ k, 13) * 5 + 0xe6546b64) & M
    k = int.from_bytes(d[4 * n:], 'little')
    if len(d) & 3:
        h ^= rotl(k * 0xcc9e2d51 & M, 15) * 0x1b873593 & M
    h ^= len(d) & M
    h ^= h >> 16
    h = h * 0x85ebca6b & M
    h ^= h >> 13
    h = h * 0xc2b2ae35 & M
    return h ^ h >> 16


def b32(x):
    return bv(x, 32)


def mul(a, b):
    return heavy("mul", a, b)


def mix(k):
    return mul(S.rotl(mul(k, b32(0xcc9e2d51)), 15), b32(0x1b873593))


def fmix(h):
    h = h ^ z3.LShR(h, 16)
    h = mul(h, b32(0x85ebca6b))
    h = h ^ z3.LShR(h, 13)
    h = mul(h, b32(0xc2b2ae35))
    return h ^ z3.LShR(h, 16)


class Hash(Scalar):
    """the builtin: the core applied to all bytes of the list, with the fixed seed"""

    def __init__(self, reg):
        Contract.__init__(self, reg)
        self.w = ELT[reg.params[0]]

    def value(self, O, A):
        if O.concrete:
            return murmur(b''.join(v.to_bytes(self.w, 'little') for v in A[0].vals), SEED)
        return z3.BitVec('murmur_of_the_bytes', 32)

    def samples(self, rng):
        import replay
        n = rng.choice(list(range(0, 20)) + [63, 64, 65, 1000, 1001, 1023, 4099])
        return [replay.rand_list(rng, self.reg.params[0][:-4], n, rng.random() < 0.3)]


class Core(Contract):
    ret = 'void'
    from_start = True

    concrete_runs = False

    def replay_as(self):
        return self.reg.partner, Hash(self.reg.partner)

    def bind(self, eng, fn, mem0):
        ir = fn['args']
        if len(ir) != 4 or ir[0]['t'] != 'ptr' or ir[3]['t'] != 'ptr':
            raise Unsupported('parameters of the hash function')
        n = z3.BitVec('a0_len', 64)
        o = E.Obj('operand', 'a0', n, True)
        o.layout(1, [(0, 8, False)])
        o.count = n
        o.elemtag = 'u8'
        mem0[o.id] = {0: E.Base(z3.Function('E_a0', B64, BV(8)))}
        a = LArg(o, n, 'u8')
        a.n = n
        a.node = mem0[o.id][0]
        a.kind = 'u8list'
        # at most 2^32 - 1 elements of at most 8 bytes
        eng.facts.append(z3.ULE(n, bv(8 * 0xffffffff, 64)))
        w = E.width(ir[1]['t'])
        if w < 64:
            ln = z3.Extract(w - 1, 0, n)
        else:
            ln = n
        seed = z3.BitVec('seed', 32)
        s = SArg(seed, 'u32')
        s.kind = 'u32'
        out = E.Obj('alloca', 'out', bv(4, 64))
        mem0[out.id] = E.Cells()
        self.out = out
        return [E.Ptr.one(o), ln, seed, E.Ptr.one(out)], [a, s], None

    def body(self, O, A, b):
        a, s = A

        def step(i, h):
            j = lin(i).scale(4).term()
            k = z3.Concat(*[a.at(add(j, bv(x, 64))) for x in (3, 2, 1, 0)])
            return mul(S.rotl(h ^ mix(k), 13), b32(5)) + b32(0xe6546b64)
        return O.fold('mur', 'u32', s.v, step, b)

    def prefix(self, O, A):
        return {'mur': lambda b: self.body(O, A, b)}

    def extra_posts(self, kc, obls):
        O, A = kc.O, kc.A
        a = A[0]
        nb = z3.LShR(a.n, 2)
        h = self.body(O, A, nb)
        j = lin(nb).scale(4).term()
        t = [a.at(add(j, bv(x, 64))) for x in range(3)]
        z = bv(0, 8)
        r = z3.Extract(1, 0, a.n)
        tails = [h] + [h ^ mix(z3.Concat(*([z] * (4 - m) + list(reversed(t[:m]))))) for m in (1, 2, 3)]
        for n, (g, v, st) in enumerate(kc.result()):
            d = kc.eng.mem_of(st, self.out).d
            if 0 not in d or d[0][0] != 32:
                obls.append(E.Obligation('post', 'the hash is stored', g, FALSE))
                continue
            for m in range(4):
                obls.append(E.Obligation('post', 'the hash of a length with remainder %d' % m, And(g, r == bv(m, 2)),
                                         d[0][1] == fmix(tails[m] ^ trunc(a.n, 32))))

    def value(self, O, A):
        raise Unsupported('no result')


def h_core(eng, ins, args, g, st, blk):
    eng.trusted.discard('')
    a = eng.c19_operand
    p, ln, seed, out = args
    if not E.is_ptr(p) or not E.is_ptr(out):
        raise Unsupported('arguments of the hash function')
    want = lin(a.n).scale(a.w).term()
    eng.oblige('call', 'every byte of the list is hashed', g, ln == (want if ln.size() == 64 else trunc(want, ln.size())))
    if ln.size() < 64:
        # the callee is specified for the true length only
        eng.oblige('call', 'the byte count fits the parameter', g, z3.ULE(want, bv((1 << (ln.size() - 1)) - 1, 64)))
    eng.oblige('call', 'the seed is the fixed one', g, seed == b32(SEED))
    for c, o, off in p.alts:
        eng.oblige('call', 'the list itself is hashed', And(g, c), Or(a.n == bv(0, 64), off.term() == bv(0, 64)) if o is a.obj else a.n == bv(0, 64))
    eng.store(st, out, z3.BitVec('murmur_of_the_bytes', 32), 'i32', g)
    return None


def boundary():
    import kernel
    b = kernel.default_boundary()
    b.add(r'MurmurHash3_x86_32\(', h_core)
    return b


def before(self, kc):
    a = kc.A[0]
    a.w = self.w
    kc.eng.c19_operand = a


Hash.before = before


def extra(b, regs):
    """the mixing function itself, found by name"""
    import check, registry
    nm = '/usr/lib/llvm-19/bin/llvm-nm'
    for rel, bc in b['bc'].items():
        for l in subprocess.run([nm, '--defined-only', bc], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.splitlines():
            f = l.split()
            if len(f) >= 2 and re.search(r'\d+MurmurHash3_x86_32E', f[-1]) and f[-2] in 'tTwW':
                ir = check.extract(b, {rel: [f[-1]]})
                fn, mod = ir[f[-1]]
                r = registry.Reg()
                r.name, r.params, r.ret, r.kind, r.needs_ctx, r.sym, r.addr = CORE, ['bytes', 'u32', 'ptr'], 'void', 2, False, f[-1], 0
                r.partner = next(x for x in regs if x.name == 'MurmurHash3X8632' and x.params == ['u8list'])
                return [(f[-1], fn, {'globals': mod['globals']}, r, 'c19')]
    return []


def contract(reg):
    if reg.kind != 2:
        return None
    if reg.name == 'MurmurHash3X8632' and reg.params[0] in ELT and reg.ret == 'u32':
        return Hash(reg)
    if reg.name == CORE:
        return Core(reg)
    return None
