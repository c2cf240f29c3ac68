"""The program trees the code-generator contracts are instantiated on. Operands are opaque calls, so a proof about a tree
holds for all operand values; the finite dimensions (operators, types, literal kinds) are enumerated completely, the
shapes of nested control flow and scoping are enumerated up to a stated size."""
import random
from sem import NUM, LISTS, BINOPS, ARITH, REL, LOGIC, BITW, SHIFT, isint
from ops import WID, isf, iss, fenc
import emitcheck

ALLT = NUM + ['string'] + LISTS + ['ptr']


def L(T, k):
    return ('leaf', T, k)


def special(T):
    w = WID[T]
    if isf(T):
        return [fenc(T, x) for x in (0.0, -0.0, 1.0, -2.5, 3.0e9)]
    M = (1 << w) - 1
    return sorted({0, 1, 2, 3, M, M >> 1, (M >> 1) + 1})


# ------------------------------------------------------------------------------------------------ C09
def operators():
    out = []
    for op in BINOPS:
        for a in ALLT:
            for b in ALLT:
                out.append(('%s %s,%s' % (op, a, b), ('bin', op, L(a, 0), L(b, 1)), None))
    for op in ('plus', 'minus', 'not', 'bnot'):
        for a in ALLT:
            out.append(('%s %s' % (op, a), ('un', op, L(a, 0)), None))
    for op in BINOPS:
        for T in NUM:
            if isf(T) and op in BITW + SHIFT:
                continue
            for v in special(T):
                if op not in SHIFT or v < WID[T]:      # larger constant shifts are outside the contract
                    out.append(('%s %s,const %x' % (op, T, v), ('bin', op, L(T, 0), ('const', T, v)), None))
                out.append(('%s const %x,%s' % (op, v, T), ('bin', op, ('const', T, v), L(T, 0)), None))
            # the same operand twice, and an operand that is itself an operator
            out.append(('%s of results %s' % (op, T),
                        ('bin', op, ('bin', 'add', L(T, 0), L(T, 1)), ('bin', 'sub', L(T, 2), L(T, 3))), None))
    for op in ARITH:
        for T in NUM:
            z = ('const', T, 0)
            out.append(('%s %s,zero' % (op, T), ('bin', op, L(T, 0), z), None))
    return out


def literals():
    out = []
    for T in NUM:
        for v in special(T):
            out.append(('literal %s %x' % (T, v), ('const', T, v), None))
    for s in (b'', b'a', b'\0', b'ab\0cd', b'\xff' * 40, bytes(range(256))):
        out.append(('literal string %s' % s.hex()[:40], ('str', s), None))
    for T in NUM:
        n = T + 'list'
        sp = special(T)
        for xs in ([], sp[:1], sp, sp * 9, [0] * 5):
            out.append(('literal %s %d' % (n, len(xs)), ('clist', n, tuple(xs)), None))
        # two list literals in one program stay two lists
        for xs, ys in ((sp, sp[::-1]), (sp[:1], sp[1:2]), (sp[1:2], sp[:1]), ([], sp)):
            out.append(('two literals %s' % n, ('seq', [('set', 'a', ('clist', n, tuple(xs))), ('set', 'b', ('clist', n, tuple(ys))),
                                                        ('do', '', ('sink', 1, ('ref', 'a'))), ('do', '', ('sink', 2, ('ref', 'b')))]), None))
    for T, x, y in (('u8', 'i8', 0), ('u32', 'i32', 0), ('i64', 'u64', 0)):
        out.append(('same numbers, two types', ('seq', [('do', '', ('sink', 1, ('clist', T + 'list', (1, 2)))),
                                                        ('do', '', ('sink', 2, ('clist', x + 'list', (1, 2))))]), None))
    nan = {'f32': [0x7fc00000, 0x7fc00001], 'f64': [0x7ff8000000000000, 0x7ff8000000000001]}
    for T in ('f32', 'f64'):
        for xs, ys in (([nan[T][0]], [fenc(T, 1.0)]), ([fenc(T, 1.0)], [nan[T][0]]), ([nan[T][0]], [nan[T][1]]),
                       ([fenc(T, 1.0), nan[T][0]], [fenc(T, 1.0), fenc(T, 2.0)])):
            out.append(('two literals with NaN %s' % T, ('seq', [('do', '', ('sink', 1, ('clist', T + 'list', tuple(xs)))),
                                                               ('do', '', ('sink', 2, ('clist', T + 'list', tuple(ys))))]), None))
    for xs in ([], [b''], [b'a', b'b'], [b'', b'x', b''], [b'a\0b', b'a']):
        out.append(('literal stringlist %d' % len(xs), ('clist', 'stringlist', tuple(xs)), None))
    out.append(('two stringlists', ('seq', [('do', '', ('sink', 1, ('clist', 'stringlist', (b'a', b'b')))),
                                            ('do', '', ('sink', 2, ('clist', 'stringlist', (b'a', b'c')))),
                                            ('do', '', ('sink', 3, ('str', b'a'))), ('do', '', ('sink', 4, ('str', b'b')))]), None))
    # every ordered pair of literals from a family of near-equal contents, both in one program (the payload caches)
    def pair(n, x, y):
        out.append(('two literals ' + n, ('seq', [('do', '', ('sink', 1, x)), ('do', '', ('sink', 2, y)), ('do', '', ('sink', 3, x))]), None))
    fam = [b'ab', b'ab\0', b'ab\0cd', b'ab\0xy', b'a', b'A', b'abc', b'\0', b'\0\0', b'\0ab', b'ba', b'ab\xff', b'x' * 40 + b'1', b'x' * 40 + b'2', b'']
    for x in fam:
        for y in fam:
            pair('strings', ('str', x), ('str', y))
            pair('string and list', ('str', x), ('clist', 'stringlist', (y,)))
            pair('stringlists', ('clist', 'stringlist', (x, y)), ('clist', 'stringlist', (y, x)))
            pair('stringlists', ('clist', 'stringlist', (x,)), ('clist', 'stringlist', (y, y)))
    for T in NUM:
        one, two, big = (fenc(T, 1.0), fenc(T, 2.0), fenc(T, -0.0)) if isf(T) else (1, 2, 1 << (WID[T] - 1))
        fl = [(), (one,), (one, one), (one, two), (two, one), (0,), (0, 0), (big,), (one, 0), (0, one), (one,) * 9, (one,) * 8 + (two,), (two,) + (one,) * 8]
        for i, x in enumerate(fl):
            for y in fl:
                pair('%slist' % T, ('clist', T + 'list', x), ('clist', T + 'list', y))
            for U in NUM:
                if U != T and not isf(U) and not isf(T):
                    y = tuple(v & ((1 << WID[U]) - 1) for v in x)
                    pair('%slist,%slist' % (T, U), ('clist', T + 'list', x), ('clist', U + 'list', y))
    for k in ('arg', 'ctx', 'out'):
        out.append(('entry pointer ' + k, ('sink', 1, (k,)), None))
    return out


# ------------------------------------------------------------------------------------------------ C10
def conversions():
    out = []
    for a in NUM:
        for n, t in emitcheck.CASTS.items():
            out.append(('%s(%s)' % (n, a), ('call', n, [L(a, 0)]), ('ok', t)))
            for v in special(a)[:4]:
                if isf(a):
                    continue
                out.append(('%s(const %s %x)' % (n, a, v), ('call', n, [('const', a, v)]), ('ok', t)))
        for b in NUM:
            out.append(('if branches %s,%s' % (a, b), ('if', L('u8', 0), L(a, 1), L(b, 2)), None))
            out.append(('switch branches %s,%s' % (a, b), ('switch', [L('i32', 0), L(a, 1), L('u8', 2), L(b, 3), L('u8', 4)]), None))
            out.append(('sum %s,%s' % (a, b), ('bin', 'add', L(a, 0), L(b, 1)), None))
            out.append(('compare %s,%s' % (a, b), ('bin', 'lt', L(a, 0), L(b, 1)), None))
            if isint(a) and isint(b):
                out.append(('shift %s,%s' % (a, b), ('bin', 'shl', L(a, 0), L(b, 1)), None))
                out.append(('and %s,%s' % (a, b), ('bin', 'and', L(a, 0), L(b, 1)), None))
            out.append(('stored %s,%s' % (a, b), ('sink', 1, ('bin', 'sub', L(a, 0), L(b, 1))), None))
    for a in NUM:
        out.append(('minus %s' % a, ('un', 'minus', L(a, 0)), None))
    for T in ALLT:
        if T not in NUM:
            for n in emitcheck.CASTS:
                if T == 'string':
                    continue
                out.append(('%s(%s)' % (n, T), ('call', n, [L(T, 0)]), ('reject', 'no cast')))
    return out


# ------------------------------------------------------------------------------------------------ C11
def control(blocks=120):
    out = []
    cnt = [0]

    def leaf(T='i32'):
        cnt[0] += 1
        return L(T, cnt[0])

    def sink(x):
        cnt[0] += 1
        return ('sink', cnt[0], x)

    def add(name, p, want=None):
        out.append((name, p, want))
        cnt[0] = 0
    # every condition type, every node kind
    for T in NUM:
        add('if condition %s' % T, ('if', leaf(T), leaf(), leaf()))
        add('switch condition %s' % T, ('switch', [leaf(T), leaf(), leaf(T), leaf(), leaf()]))
        add('ifblock condition %s' % T, ('ifblock', [leaf(T), sink(leaf()), sink(leaf())]))
        for U in NUM:
            for op in LOGIC:
                add('%s %s,%s' % (op, T, U), ('bin', op, leaf(T), leaf(U)))
    for T in ALLT:
        add('if branches %s' % T, ('if', leaf('u8'), leaf(T), leaf(T)))
        add('switch branches %s' % T, ('switch', [leaf('u8'), leaf(T), leaf('u8'), leaf(T), leaf(T)]))
        add('switch only default %s' % T, ('switch', [leaf(T)]))
        for U in ('u8', 'f64', 'string', 'i32list', 'ptr'):
            add('if mixed %s,%s' % (T, U), ('if', leaf('u8'), leaf(T), leaf(U)))
            add('switch mixed %s,%s' % (T, U), ('switch', [leaf('u8'), leaf(T), leaf('u8'), leaf(U), leaf(T)]))
        add('if condition %s' % T, ('if', leaf(T), leaf(), leaf()))
        add('ifblock condition %s' % T, ('ifblock', [leaf(T), sink(leaf())]))
        add('ifblock value body %s' % T, ('ifblock', [leaf('u8'), leaf(T)]))
        add('and %s' % T, ('bin', 'land', leaf('u8'), leaf(T)))
        add('or %s' % T, ('bin', 'lor', leaf(T), leaf('u8')))
    add('if void branch', ('if', leaf('u8'), sink(leaf()), sink(leaf())))
    add('if void condition', ('if', sink(leaf()), leaf(), leaf()))
    add('switch void branch', ('switch', [leaf('u8'), sink(leaf()), sink(leaf())]))
    for n in (1, 2, 4, 5):
        add('if with %d' % n, ('if',) + tuple(leaf('u8') for _ in range(n)), ('reject', 'arity'))
    for n in range(2, 12):
        add('switch with %d' % n, ('switch', [leaf('u8' if k % 2 == 0 else 'i16') for k in range(n)]))
        add('ifblock with %d' % n, ('ifblock', [leaf('u8') if k % 2 == 0 and (k < n - 1) else sink(leaf()) for k in range(n)]))
    for k in range(2, 7):
        for op in LOGIC:
            x = leaf('u8')
            for _ in range(k):
                x = ('bin', op, x, leaf('u8'))
            add('chain left %s %d' % (op, k), x)
            x = leaf('u8')
            for _ in range(k):
                x = ('bin', op, leaf('u8'), x)
            add('chain right %s %d' % (op, k), x)

    # nested shapes, enumerated to depth 2 and sampled at depth 3
    def conds(d, T='u8'):
        yield lambda: leaf(T)
        if d:
            for op in LOGIC:
                yield lambda op=op: ('bin', op, next(iter(conds(d - 1)))(), leaf('i16'))
            yield lambda: ('if', leaf('f32'), leaf('u8'), leaf('u8'))
            yield lambda: ('un', 'not', ('bin', 'land', leaf('u8'), leaf('u8')))
            yield lambda: ('switch', [leaf('u8'), leaf('u8'), ('bin', 'lor', leaf('u8'), leaf('u8'))])
            yield lambda: ('bin', 'lt', leaf('i32'), ('if', leaf('u8'), leaf('i32'), leaf('i64')))

    def vals(d):
        yield lambda: leaf('i32')
        if d:
            for c in conds(1):
                yield lambda c=c: ('if', c(), leaf('i16'), leaf('i64'))
            yield lambda: ('switch', [leaf('u8'), leaf('u8'), leaf('u8'), leaf('i32'), leaf('i16')])
            yield lambda: ('bin', 'add', ('if', leaf('u8'), leaf('i32'), leaf('i32')), leaf('i64'))
    for i, c in enumerate(conds(1)):
        for j, a in enumerate(vals(1)):
            for k, b in enumerate(vals(1)):
                if j and k and (i + j + k) % 3:
                    continue
                add('if %d %d %d' % (i, j, k), ('if', c(), a(), b()))
        add('switch cond first %d' % i, ('switch', [c(), leaf('i8'), leaf('u8'), leaf('i16'), leaf('i32')]))
        add('switch cond second %d' % i, ('switch', [leaf('u8'), leaf('i8'), c(), leaf('i16'), leaf('i32')]))
        add('ifblock cond first %d' % i, ('ifblock', [c(), sink(leaf()), leaf('u8'), sink(leaf()), sink(leaf())]))
        add('ifblock cond second %d' % i, ('ifblock', [leaf('u8'), sink(leaf()), c(), sink(leaf()), sink(leaf())]))
        add('ifblock cond last, no else %d' % i, ('ifblock', [leaf('u8'), sink(leaf()), c(), sink(leaf())]))
        add('ifblock cond only %d' % i, ('ifblock', [c(), sink(leaf())]))
        for op in LOGIC:
            add('%s left %d' % (op, i), ('bin', op, c(), leaf('u8')))
            add('%s right %d' % (op, i), ('bin', op, leaf('u8'), c()))
    for j, a in enumerate(vals(1)):
        for pos in (1, 3, 4):
            xs = [leaf('u8'), leaf('i16'), leaf('u8'), leaf('i32'), leaf('u8')]
            xs[pos] = a()
            add('switch branch %d at %d' % (j, pos), ('switch', xs))
        add('sink of %d' % j, sink(a()))
    # ifblocks as statements: nested, in sequence, with variables merged afterwards
    rng = random.Random(7)

    def stmt(d, names):
        r = rng.random()
        if d == 0 or r < 0.3:
            return [('do', '', sink(leaf('i32') if not names or rng.random() < 0.4 else ('ref', rng.choice(names))))]
        if r < 0.6 and names:
            n = rng.choice(names)
            return [('set', n, leaf('i32') if rng.random() < 0.6 else ('if', leaf('u8'), ('ref', rng.choice(names)), leaf('i32')))]
        cs = list(conds(1))
        xs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            xs.append(rng.choice(cs)())
            xs.append(block(d - 1, names))
        if rng.random() < 0.6:
            xs.append(block(d - 1, names))
        return [('do', '', ('ifblock', xs))]

    def block(d, names):
        out2 = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            out2 += stmt(d, names)
        return ('seq', out2)
    for i in range(blocks):
        names = ['x', 'y'][:rng.choice([0, 1, 2])]
        ss = [('set', n, leaf('i32')) for n in names]
        for _ in range(rng.choice([1, 2])):
            ss += stmt(2, names)
        ss += [('do', '', sink(('ref', n))) for n in names]
        add('block program %d' % i, ('seq', ss))
    return out


# ------------------------------------------------------------------------------------------------ C12
def maths():
    out = []
    one = ['exp', 'log', 'log2', 'log10', 'frac', 'trunc', 'ceil', 'floor', 'round', 'sin', 'cos', 'tan', 'sqrt', 'abs']
    for n in one:
        for T in NUM:
            R = emitcheck.math_sig(n, [T])
            out.append(('%s(%s)' % (n, T), ('call', n, [L(T, 0)]), ('ok', R) if R else ('reject', 'no overload')))
    for n in ('pow', 'min', 'max'):
        for T in NUM:
            for U in NUM:
                R = emitcheck.math_sig(n, [T, U])
                out.append(('%s(%s,%s)' % (n, T, U), ('call', n, [L(T, 0), L(U, 1)]), ('ok', R) if R else ('reject', 'no overload')))
    for n in ('min', 'max'):
        for T in NUM:
            out.append(('%s nested %s' % (n, T), ('call', n, [('call', 'max' if n == 'min' else 'min', [L(T, 0), L(T, 1)]), L(T, 2)]), None))
    for x in (2, 3, 0, 0xffffffff, 70000, 0x7fffffff, 0x80000000):
        for T in ('f32', 'f64', 'i32', 'i64'):
            out.append(('pow(%s,const %x)' % (T, x), ('call', 'pow', [L(T, 0), ('const', 'i32', x)]), None))
    return out


# ------------------------------------------------------------------------------------------------ C13
def typing(n=150):
    """trees of two and three operators: the reported type is the type of the produced value"""
    out = []
    for a in NUM:
        for b in NUM:
            for op in ('add', 'mul', 'xor'):
                out.append(('type of %s %s,%s' % (op, a, b), ('bin', op, L(a, 0), L(b, 1)), None))
                out.append(('type of %s %s,%s in sink' % (op, a, b), ('sink', 9, ('bin', op, L(a, 0), L(b, 1))), None))
    rng = random.Random(11)

    def expr(d, k):
        if d == 0 or rng.random() < 0.2:
            k[0] += 1
            return L(rng.choice(NUM), k[0])
        r = rng.random()
        if r < 0.5:
            return ('bin', rng.choice(['add', 'sub', 'mul', 'lt', 'land']), expr(d - 1, k), expr(d - 1, k))
        if r < 0.65:
            return ('un', rng.choice(['minus', 'not', 'plus']), expr(d - 1, k))
        if r < 0.8:
            return ('if', expr(0, k), expr(d - 1, k), expr(d - 1, k))
        if r < 0.9:
            return ('call', rng.choice(list(emitcheck.CASTS)), [expr(d - 1, k)])
        return ('switch', [expr(0, k), expr(d - 1, k), expr(0, k), expr(d - 1, k), expr(d - 1, k)])
    for i in range(n):
        out.append(('typed tree %d' % i, expr(3, [0]), None))
    return out


# ------------------------------------------------------------------------------------------------ C21
def scoping(n=500, seed=3, chain=4):
    out = []
    S = lambda *xs: ('seq', list(xs))
    I = lambda *xs: ('iso', list(xs))
    do = lambda x: ('do', '', x)
    st = lambda v, x: ('set', v, x)
    let = lambda v, x: ('let', v, x)
    sk = lambda k, v='x': do(('sink', k, ('ref', v)))
    ifb = lambda *xs: do(('ifblock', list(xs)))
    hand = [
        ('undefined', S(sk(1))),
        ('set then ref', S(st('x', L('i32', 1)), sk(2))),
        ('reassign', S(st('x', L('i32', 1)), st('x', L('i32', 2)), sk(3))),
        ('reassign of another type', S(st('x', L('i32', 1)), st('x', L('i64', 2)), sk(3))),
        ('reassign from itself', S(st('x', L('i32', 1)), st('x', ('bin', 'add', ('ref', 'x'), L('i32', 2))), sk(3))),
        ('constant', S(let('x', L('i32', 1)), sk(2))),
        ('constant reassigned', S(let('x', L('i32', 1)), st('x', L('i32', 2)))),
        ('constant redeclared', S(let('x', L('i32', 1)), let('x', L('i32', 2)))),
        ('variable redeclared as constant', S(st('x', L('i32', 1)), let('x', L('i32', 2)))),
        ('constant reassigned in a block', S(let('x', L('i32', 1)), ifb(L('u8', 2), S(st('x', L('i32', 3)))))),
        ('constant reassigned in an isolated block', S(let('x', L('i32', 1)), do(I(st('x', L('i32', 3)))))),
        ('block local', S(ifb(L('u8', 1), S(st('x', L('i32', 2)), sk(3))), sk(4))),
        ('block local, then outer of another type', S(ifb(L('u8', 1), S(st('x', L('i32', 2)), sk(3))), st('x', L('f64', 4)), sk(5))),
        ('block local constant, then variable', S(ifb(L('u8', 1), S(let('x', L('i32', 2)), sk(3))), st('x', L('i32', 4)), st('x', L('i32', 5)), sk(6))),
        ('two blocks, same local name', S(ifb(L('u8', 1), S(st('x', L('i32', 2)), sk(3)), S(st('x', L('f32', 4)), sk(5))))),
        ('branch merge', S(st('x', L('i32', 1)), ifb(L('u8', 2), S(st('x', L('i32', 3)))), sk(4))),
        ('branch merge, else', S(st('x', L('i32', 1)), ifb(L('u8', 2), S(st('x', L('i32', 3))), S(st('x', L('i32', 4)))), sk(5))),
        ('branch merge, else only', S(st('x', L('i32', 1)), ifb(L('u8', 2), S(do(('sink', 9, L('u8', 8)))), S(st('x', L('i32', 4)))), sk(5))),
        ('branch merge, three', S(st('x', L('i32', 1)), ifb(L('u8', 2), S(st('x', L('i32', 3))), L('u8', 6), S(sk(7)), S(st('x', L('i32', 4)))), sk(5))),
        ('nested branch merge', S(st('x', L('i32', 1)), ifb(L('u8', 2), S(ifb(L('u8', 3), S(st('x', L('i32', 4)))), sk(5))), sk(6))),
        ('nested local', S(ifb(L('u8', 2), S(st('x', L('i32', 4)), ifb(L('u8', 3), S(st('x', L('i32', 5)))), sk(6))))),
        ('isolated', S(do(I(st('x', L('i32', 1)), do(('sink', 3, L('i32', 2))))), sk(4))),
        ('isolated siblings', I(st('x', L('i32', 1)), sk(2))),
        ('isolated groups', I(do(S(st('x', L('i32', 1)), sk(2))), do(S(st('x', L('f64', 3)), sk(4))))),
        ('isolated override', S(st('x', L('i32', 1)), do(I(do(S(st('x', L('i32', 2)), sk(3))), sk(4))), sk(5))),
        ('isolated type mismatch', S(st('x', L('i32', 1)), do(I(st('x', L('i64', 2)))))),
        ('void variable', S(st('x', ('sink', 1, L('i32', 0))))),
        ('void constant', S(let('x', ('sink', 1, L('i32', 0))))),
        ('void variable in a block', S(st('x', ('sink', 1, L('i32', 0))), ifb(L('u8', 2), S(st('x', ('sink', 3, L('i32', 4))))))),
        ('reference in condition', S(st('x', L('u8', 1)), ifb(('ref', 'x'), S(st('x', L('u8', 2))), ('ref', 'x'), S(st('x', L('u8', 3)))), sk(4))),
        ('reference in the first condition only', S(st('x', L('u8', 1)), ifb(('bin', 'land', ('ref', 'x'), L('u8', 5)), S(st('x', L('u8', 2)))), sk(4))),
        ('string variable', S(st('x', L('string', 1)), ifb(L('u8', 2), S(st('x', L('string', 3)))), sk(4))),
        ('list variable', S(st('x', L('f32list', 1)), ifb(L('u8', 2), S(st('x', L('f32list', 3)))), sk(4))),
        ('pointer variable', S(st('x', ('arg',)), ifb(L('u8', 2), S(st('x', ('out',)))), sk(4))),
        ('seq inside seq shares the scope', S(do(S(st('x', L('i32', 1)))), sk(2))),
        ('seq inside seq reassigns', S(st('x', L('i32', 0)), do(S(st('x', L('i32', 1)))), sk(2))),
    ]
    for name, p in hand:
        out.append((name, p, None))
    # chains: a name defined at one level, reassigned at a deeper one and read at every level in between and above, for
    # every sequence of block kinds up to the stated depth
    import itertools
    KINDS = ('then', 'else', 'second', 'iso')
    shapes = [ks for depth in range(1, chain + 1) for ks in itertools.product(KINDS, repeat=depth)]
    shapes += [(q,) * n for q in KINDS for n in (12, 40)] + [(q, r) * 6 for q in KINDS for r in KINDS if q != r]
    for kinds in shapes:
        depth = len(kinds)
        if 1:
            for d in range(depth + 1):
                for e in range(d, depth + 1):
                    if depth == chain and not (e == depth or d == 0) or depth > chain and (e != depth or d not in (0, 1, 5, depth - 1)):
                        continue
                    k = [0]

                    def fr():
                        k[0] += 1
                        return k[0]

                    def level(i):
                        xs = []
                        if i == d:
                            xs.append(st('x', L('i32', fr())))
                        if i == e and e > d:
                            xs.append(st('x', L('i32', fr())))
                        if i > e:
                            xs.append(sk(fr()))
                        if i < depth:
                            b = S(*level(i + 1))
                            q = kinds[i]
                            if q == 'iso':
                                xs.append(do(I(do(b))))
                            elif q == 'then':
                                xs.append(ifb(L('u8', fr()), b))
                            elif q == 'else':
                                xs.append(ifb(L('u8', fr()), S(do(('sink', fr(), L('u8', fr())))), b))
                            else:
                                xs.append(ifb(L('u8', fr()), S(do(('sink', fr(), L('u8', fr())))), L('u8', fr()), b))
                        if i >= d:
                            xs.append(sk(fr()))
                        return xs
                    out.append(('chain %s, set at %d and %d' % (' '.join(kinds) if depth < 9 else '%s %s * %d' % (kinds[0], kinds[1], depth // 2), d, e), S(*level(0)), None))
    # merges: every choice of reassigned names per branch, for every branch count up to three with and without else
    subs = [c for r in range(4) for c in itertools.combinations('xyz', r)]
    for nb, els in ((1, 0), (1, 1), (2, 0), (2, 1)):
        for pick in itertools.product(subs, repeat=nb + els):
            k = [3]

            def fr():
                k[0] += 1
                return k[0]
            xs = []
            for i, names in enumerate(pick):
                if i < nb:
                    xs.append(L('u8', fr()))
                xs.append(S(*([st(v, L('i32', fr())) for v in names] + [do(('sink', fr(), ('ref', 'y')))])))
            out.append(('merge %d%s %s' % (nb, '+else' if els else '', '|'.join(''.join(c) for c in pick)),
                        S(st('x', L('i32', 1)), st('y', L('i32', 2)), st('z', L('i32', 3)), ifb(*xs), sk(fr()), sk(fr(), 'y'), sk(fr(), 'z')), None))
    rng = random.Random(seed)
    TY = ['i32', 'f64', 'u8', 'string']

    def program():
        k = [0]

        def fresh():
            k[0] += 1
            return k[0]

        def expr(names, d=1):
            r = rng.random()
            if names and r < 0.45:
                return ('ref', rng.choice(names))
            if d and r < 0.6:
                return ('if', L('u8', fresh()), expr(names, 0), expr(names, 0))
            if d and r < 0.75:
                return ('bin', 'add', expr(names, 0), expr(names, 0))
            return L(rng.choice(TY) if rng.random() < 0.25 else 'i32', fresh())

        def stmts(d, names):
            out2 = []
            names = list(names)
            for _ in range(rng.choice([1, 2, 2, 3, 4] if d else [1, 1, 2])):
                r = rng.random()
                pool = names if rng.random() < 0.93 else ['x', 'y', 'z', 'w']
                if r < 0.4:
                    n = rng.choice(['x', 'y', 'z', 'w'])
                    x = expr(pool)
                    out2.append(('let' if rng.random() < 0.15 else 'set', n, x))
                    names.append(n)
                elif r < 0.65 or d == 0:
                    out2.append(('do', '', ('sink', fresh(), expr(pool))))
                elif r < 0.9:
                    xs = []
                    for _ in range(rng.choice([1, 1, 2])):
                        xs += [L('u8', fresh()), ('seq', stmts(d - 1, names))]
                    if rng.random() < 0.5:
                        xs.append(('seq', stmts(d - 1, names)))
                    out2.append(('do', '', ('ifblock', xs)))
                elif r < 0.97:
                    out2.append(('do', '', ('iso', stmts(d - 1, names))))
                else:
                    out2.append(('do', '', ('seq', stmts(d - 1, names))))
            return out2
        ss = stmts(3, [])
        for v in ('x', 'y'):
            if rng.random() < 0.6:
                ss.append(('do', '', ('sink', fresh(), ('ref', v))))
        return ('seq', ss)
    from sem import Types, Reject
    want = {'ok': n * 7 // 10, 'reject': n - n * 7 // 10}
    while sum(want.values()):
        p = program()
        try:
            Types(lambda a, b: None).ty(p)
            c = 'ok'
        except Reject:
            c = 'reject'
        if want[c]:
            want[c] -= 1
            out.append(('scope program %d' % len(out), p, None))
    return out


# ------------------------------------------------------------------------------------------------ calls of C functions
def calls(regs, names):
    """one program per registered overload: exactly that function is called with exactly the operands"""
    out = []
    for r in regs:
        if r.name in names and r.name[:2] != '__' and not (r.params and r.params[-1] == 'ptr'):
            out.append(('call ' + r.sig(), ('call', r.name, [L(t, i) for i, t in enumerate(r.params)]), ('ok', r.ret)))
    return out


# ------------------------------------------------------------------------------------------------ builtins expanded in place
def inlined():
    """builtins the code generator expands itself: lengths, truncation and the wrappers around the C functions"""
    out = []

    def call(name, *ts):
        nodes = [L(t, i) for i, t in enumerate(ts)]
        out.append(('%s(%s)' % (name, ','.join(ts)), ('call', name, nodes), None))
        # through a variable, and stored
        out.append(('%s(%s) of variables' % (name, ','.join(ts)),
                    ('seq', [('set', 'v%d' % i, x) for i, x in enumerate(nodes)] +
                     [('do', '', ('sink', 9, ('call', name, [('ref', 'v%d' % i) for i in range(len(ts))])))]), None))
    for t in LISTS:
        call('Len', t)
        call('Truncate', t, 'u32')
        out.append(('Truncate twice %s' % t, ('call', 'Truncate', [('call', 'Truncate', [L(t, 0), L('u32', 1)]), L('u32', 2)]), None))
        out.append(('Len of truncated %s' % t, ('call', 'Len', [('call', 'Truncate', [L(t, 0), L('u32', 1)])]), None))
        for n in (0, 1, 7, 0xffffffff):
            out.append(('Truncate(%s, %d)' % (t, n), ('call', 'Truncate', [L(t, 0), ('const', 'u32', n)]), None))
        call('FilterByBitmap', t, 'u8list')
    call('StringLen', 'string')
    for t in ('u32list', 'i32list', 'u64list', 'i64list', 'u8list', 'i8list', 'u16list', 'i16list', 'stringlist', 'f32list', 'f64list'):
        for n in ('GroupKeys', 'GroupSum', 'GroupMax', 'GroupMin', 'GroupAvg'):
            call(n, t, 'u32list')
    for t, u in (('i32list', 'i32list'), ('i64list', 'i64list'), ('u32list', 'u32list'), ('u64list', 'u64list'), ('stringlist', 'stringlist'),
                 ('u8list', 'u8list'), ('i8list', 'i8list'), ('u16list', 'u16list'), ('i16list', 'i16list')):
        call('ListLookupIndex', t, u)
    return out
