"""Contracts of std::unordered_set / std::unordered_map as the kernels use them: filled with the elements of one list,
in order. The container's state is a ghost counter t: it holds exactly the distinct keys among the first t elements
(std::hash<K>, std::equal_to<K>), each mapped to the value given when its first occurrence was inserted.
FP(t) names the first position whose element equals element t."""
import re
import z3
from smt import *
import engine as E
from engine import Obj, Ptr, Cells, null_ptr, is_ptr, ptr_ite
from ops import WID


class Source:
    """the list the container is filled from, and the value that belongs to the first occurrence at t"""

    def __init__(self, eng, la, T, val=None):
        self.eng, self.la, self.T, self.val = eng, la, T, val
        nm = la.obj.name
        self.fp = z3.Function('FP_' + nm, B64, B64)
        fp = self.fp
        eng.qfacts.append(E.QFact(lambda t: And(z3.ULE(fp(t), t), fp(fp(t)) == fp(t)), (fp.get_id(),), None, 1, 1))
        self.kept = None

    def first(self, t):
        t = norm(t)
        return self.fp(t) == t


class Table:
    """an opaque map built elsewhere (over a list of n elements): has(key) and the first position of the key"""

    def __init__(self, T, has, pos):
        self.T, self.has, self.pos = T, has, pos


def parse(ins):
    dn = ins.get('dn', '')
    m = re.search(r'>::(~?[a-z_]+|operator\[\])(<[^()]*>)?\(', dn)
    if not m or not re.search(r'std::unordered_(map|set)<', dn):
        raise Unsupported('container call ' + dn[:120])
    if 'std::hash<' not in dn or 'std::equal_to<' not in dn:
        raise Unsupported('container with its own hash or equality')
    return re.search(r'std::unordered_(map|set)<', dn).group(1), m.group(1), dn


def obj_of(p):
    if len(p.alts) != 1 or p.alts[0][1] is None or not p.alts[0][2].is_const() or p.alts[0][2].sconst():
        raise Unsupported('container object')
    return p.alts[0][1]


def key_is(eng, st, g, p, el, T):
    """condition: the key at p is the list element el (same bytes)"""
    if T == 'str':
        n = eng.load(st, p, 'i64', g)
        d = eng.load(st, p.map(lambda o: o.addc(8)) if hasattr(p, 'map') else p, 'ptr', g)
        if not is_ptr(d):
            raise Unsupported('string view pointer')
        f, pre, off = el.key()
        cs = [n == el.n]
        for c, o, o2 in d.alts:
            if o is None:
                cs.append(Implies(c, el.n == bv(0, 64)))
                continue
            m = eng.mem_of(st, o)
            if o.stride != 1 or not isinstance(m[0], E.Base) or m[0].uf.get_id() != f.get_id() or len(m[0].pre) != len(pre):
                cs.append(Not(c))
                continue
            cs.append(Implies(c, And(*([a == b for a, b in zip(m[0].pre, pre)] + [o2.term() == off]))))
        return And(*cs)
    x = eng.load(st, p, 'i%d' % WID[T], g)
    return x == el


def key_terms(eng, st, g, p, T):
    if T == 'str':
        n = eng.load(st, p, 'i64', g)
        d = eng.load(st, p.map(lambda o: o.addc(8)), 'ptr', g)
        if len(d.alts) != 1 or d.alts[0][1] is None:
            raise Unsupported('string view pointer')
        _, o, off = d.alts[0]
        m = eng.mem_of(st, o)
        if o.stride != 1 or not isinstance(m[0], E.Base) or not off.is_const() or off.sconst() or len(m[0].pre) != 1:
            raise Unsupported('string view of other memory')
        # the string is named by the list element it is
        k = m[0].pre[0]
        eng.oblige('container', 'the key is the whole string', g, n == o.count)
        return k
    return eng.load(st, p, 'i%d' % WID[T], g)


def node(eng, st, T, key, val):
    ks = 16 if T == 'str' else WID[T] // 8
    vo = 8 + max(4, ks)
    o = Obj('alloca', 'hash node', bv(vo + 12, 64))
    o.readonly = True
    d = {}
    if val is not None:
        d[vo] = (32, val)
    st[o.id] = Cells(d)
    eng.mem0[o.id] = Cells(dict(d))
    return Ptr.one(o)


def handler(eng, ins, args, g, st, blk):
    kind, m, dn = parse(ins)
    eng.trusted.add('std::unordered_%s (distinct keys of the inserted elements under ==, value of the first insertion)' % kind)
    o = obj_of(args[0])
    tb = eng.__dict__.setdefault('tables', {}).get(o.id)
    if tb is not None:
        if m == 'end':
            return null_ptr()
        if m in ('find', 'contains', 'count'):
            k = key_terms(eng, st, g, args[1], tb.T)
            has, pos = tb.has(k), tb.pos(k)
            if m == 'contains':
                return has
            if m == 'count':
                return If(has, bv(1, 64), bv(0, 64))
            return Ptr([(has,) + node(eng, st, tb.T, None, pos).alts[0][1:], (Not(has),) + null_ptr().alts[0][1:]])
        raise Unsupported('table call ' + m)
    src = getattr(eng, 'container_src', None)
    if src is None:
        raise Unsupported('container ' + dn[:80])
    conts = eng.__dict__.setdefault('conts', {})
    if m == 'unordered_' + kind:
        if len(args) == 1:
            t = bv(0, 64)
        elif len(args) >= 3 and is_ptr(args[1]) and is_ptr(args[2]):
            lo, hi = args[1], args[2]
            for p, want in ((lo, bv(0, 64)), (hi, lin(src.la.n).scale(src.la.obj.stride).term())):
                for c, oo, off in p.alts:
                    eng.oblige('container', 'the range inserted is the whole list', And(g, c),
                               off.term() == want if oo is src.la.obj else FALSE)
            t = src.la.n
        else:
            raise Unsupported('container constructor ' + dn[-120:])
        gh = conts.get(o.id)
        if gh is None:
            gh = conts[o.id] = Obj('alloca', 'filled', bv(8, 64))
            eng.mem0[gh.id] = Cells({0: (64, bv(0, 64))})
        st[gh.id] = Cells({0: (64, t)})
        return None
    gh = conts.get(o.id)
    if m.startswith('~') or m in ('reserve', 'rehash', 'max_load_factor'):
        return None
    if m == 'end':
        return null_ptr()
    if gh is None:
        raise Unsupported('container of unknown origin')
    t = st[gh.id].d[0][1]
    if m == 'size':
        if src.kept is None:
            raise Unsupported('container size')
        return src.kept(t)
    if m == 'empty':
        return t == bv(0, 64)
    if m in ('emplace', 'insert', 'try_emplace', 'find', 'count', 'contains'):
        if kind == 'map' and m == 'insert' or len(args) > (3 if kind == 'map' else 2):
            raise Unsupported('container call ' + m)
        here = And(z3.ULT(t, src.la.n), key_is(eng, st, g, args[1], src.la.at(t), src.T))
        eng.oblige('container', 'the key of %s is the next element of the list' % m, g, here)
        new = src.first(t)
        if m == 'contains':
            return Not(new)
        if m == 'count':
            return If(new, bv(0, 64), bv(1, 64))
        val = None
        if kind == 'map':
            if src.val is None:
                raise Unsupported('map value')
            if m != 'find':
                v = eng.load(st, args[2], 'i32', g)
                eng.oblige('container', 'the value inserted for a new key', And(g, new), v == src.val(t))
            val = src.val(src.fp(norm(t)))
        p = node(eng, st, src.T, None, val)
        if m == 'find':
            return Ptr([(Not(new),) + p.alts[0][1:], (new,) + null_ptr().alts[0][1:]])
        st[gh.id] = Cells({0: (64, add(t, bv(1, 64)))})
        return [p, zext(b2bv(new), 8)]
    raise Unsupported('container call ' + m)


def create(eng, ins, args, g, st, blk):
    """Arena::Create<map>(std::move(m)): the arena's object holds what m held"""
    eng.trusted.add('Arena::Create (move constructs its argument)')
    o = obj_of(args[1])
    gh = eng.__dict__.get('conts', {}).get(o.id)
    if gh is None:
        raise Unsupported('Arena::Create of ' + ins.get('dn', '')[-80:])
    t = st[gh.id].d[0][1]
    r = Obj('opaque', 'table')
    eng.__dict__.setdefault('created', {})[r.id] = t
    st[gh.id] = Cells({0: (64, bv(0, 64))})
    return Ptr.one(r)


def install(b):
    b.add(r'std::unordered_(map|set)<.*>::(~?[a-z_]+|operator\[\])(<[^()]*>)?\(', lambda eng, ins, *a: (
        create if 'Arena::Create<' in ins.get('dn', '') else handler)(eng, ins, *a))
    b.rules.insert(0, (re.compile(r'Arena::Create<std::unordered_map'), create))
