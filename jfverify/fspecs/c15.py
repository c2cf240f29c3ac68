"""Contracts of the compiled-artifact parser and writer (C15).

The layout of a blob is given once, as formulas over its bytes (class Layout). The parser must read inside the blob only,
return ok exactly for well-formed blobs and hand out the fields at the positions the layout gives; the writer must append
exactly those bytes. Extension records have data-dependent positions: D(i) is the offset of record i behind the record
count, defined by D(0) = 0 and D(i+1) = D(i) + 8 + length of record i."""
import z3
from flat import *
from fbase import *

LAYOUT = 'C15'
F = 'src/compiled_artifact.cc'
BOUNDARY = STATUS_BOUNDARY + [
    r'ArtifactReader::Read(U8|U32LE|U64LE|Magic|BytesView)\(',
    r'^std::__cxx11::basic_string<char.*>::(~?basic_string|assign|append|push_back|reserve)\(', r'basic_string<char.*::basic_string(<.*>)?\(',
    r'vector<jitfusion::ArtifactExtension.*>::(clear|reserve)\(', r'vector<jitfusion::ArtifactExtension.*>::(emplace_back|push_back)',
    r'vector<jitfusion::ValueType.*>::(resize|clear)\(', r'^jitfusion::ArtifactExtension::']
BIG = 1 << 46


def BOOL(x):
    return TRUE if x else FALSE


def z64(x):
    return z3.ZeroExt(64 - x.size(), x)


class Layout:
    def __init__(self, byte, size, version, name):
        """byte(p): the byte at offset p; name(t): a constant defined as t"""
        self.byte = byte
        B = BVV
        u = lambda p, n: simp(z3.Concat(*[byte(p + i) for i in reversed(range(n))]))
        self.u32 = lambda p: simp(z3.Concat(*[self.byte(p + i) for i in reversed(range(4))]))
        bad = []
        bad.append(z3.Or(z3.ULT(size, B(8)), u(B(0), 4) != int.from_bytes(b'JFCA', 'little'), u(B(4), 4) != version))
        p = B(8)
        self.strs = []
        for k in range(3):
            n = z64(u(p, 4))
            bad.append(z3.Or(z3.UGT(p + 4, size), z3.UGT(n, size - p - 4)))
            self.strs.append((simp(p + 4), n))
            p = name(simp(p + 4 + n))
        self.mode, self.fp, self.n = byte(p), byte(p + 1), u(p + 2, 4)
        bad.append(z3.Or(z3.UGT(p + 6, size), z3.UGT(self.mode, 1), z3.UGT(self.fp, 1), self.n == 0, z3.And(self.mode == 0, self.n != 1)))
        self.rets = simp(p + 6)
        bad.append(z3.UGT(z64(self.n), size - self.rets))
        p = name(simp(self.rets + z64(self.n)))
        self.osize = u(p, 8)
        self.obj = simp(p + 8)
        bad.append(z3.Or(z3.UGT(self.obj, size), z3.UGT(self.osize, size - self.obj)))
        p = name(simp(self.obj + self.osize))
        self.count = u(p, 4)
        self.ext = simp(p + 4)
        bad.append(z3.UGT(self.ext, size))
        self.size = size
        self.core = bad
        self.D = z3.Function('D', z3.BitVecSort(64), z3.BitVecSort(64))
        # by definition: the numbers at the places of record i
        self.Tag, self.Len = [z3.Function(x, z3.BitVecSort(64), z3.BitVecSort(32)) for x in ('Tag', 'Len')]

    def at(self, i):
        return self.ext + self.D(i)

    def len(self, i):
        return z64(self.Len(i))

    def unfold(self, i):
        return self.D(i + 1) == self.D(i) + 8 + self.len(i)

    def bad_ext(self, i):
        p = self.at(i)
        return z3.And(z3.ULT(i, z64(self.count)), z3.Or(z3.UGT(p + 8, self.size), z3.UGT(self.len(i), self.size - p - 8)))

    def bad_end(self, i):
        p = self.at(i)
        return z3.And(i == z64(self.count), z3.Or(self.size != p + 4, z3.Concat(*reversed(self.foot)) != int.from_bytes(b'JFCE', 'little')))


# ---------------------------------------------------------------- reader
# contract of every Read*: requires pos_ <= size; fails exactly when fewer bytes are left than it needs (ReadMagic: or
# they differ); otherwise hands out exactly the bytes at pos_ and advances by their number; never touches anything else.
def reader(X, st, this):
    L = X.layout
    f = lambda o: X.load(st, simp(this + o), 8)
    b = L['ArtifactReader.buf_']
    return f(b), f(b + 8), f(L['ArtifactReader.pos_'])


def canon(X, st, this, pos, size):
    """the same position under the name the layout gives it"""
    L = st.ghost.get('@L')
    if L is None:
        return pos
    pos = simp(pos)
    inner = {x.get_id() for x in X.flatsum(pos)}
    if any(q.get_id() in inner for q, _ in L.names) or conc(pos) is not None:
        same = [(q, t) for q, t in L.names if z3.eq(t, pos)]
    else:
        same = [(q, t) for q, t in L.names if z3.eq(t, pos)] or [(q, t) for q, t in L.names if X.must(st, q == pos)]
    if not same:
        return pos
    q, t = same[-1]
    # everything before this place has been read and accepted
    k = [x[0].get_id() for x in L.names].index(q.get_id())
    for n in range(({3: 5, 4: 6}.get(k, k + 1)) + 1):
        ok = z3.Not(L.core[n])
        if not any(z3.eq(ok, x) for x in st.path):
            X.oblige(st, 'assert', 'what has been read is well formed (%d)' % n, ok)
            st.path.append(ok)
    st.path.append(q == t)
    if not z3.eq(t, pos):
        st.path.append(q == pos)
    X.store(st, simp(this + X.layout['ArtifactReader.pos_']), q)
    return q


def h_read(n):
    def h(X, st, ins, a):
        sret, this, out = a[0], a[1], a[2]
        size, data, pos = reader(X, st, this)
        k = {'U8': BVV(1), 'U32LE': BVV(4), 'U64LE': BVV(8), 'Magic': BVV(4), 'BytesView': a[2]}[n]
        pos = canon(X, st, this, pos, size)
        X.oblige(st, 'call', 'the reader stands within its bytes', z3.ULE(pos, size))
        st.path.append(z3.ULE(pos, size))
        fits = z3.ULE(k, size - pos)
        vals = [X.named(st, st.heap.base, simp(data + pos + i), 1) for i in range(conc(k))] if n != 'BytesView' else []
        L = st.ghost.get('@L')
        if n == 'U8' and L is not None:
            # congruence of reading: the same place holds the same byte
            st.path.append(z3.Implies(pos == L.rets + st.ghost['K'], vals[0] == L.retK))
        if n == 'U32LE' and L is not None:
            i = st.ghost['ext_n']
            w = z3.Concat(*reversed(vals))
            st.path += [z3.Implies(pos == L.at(i), w == L.Tag(i)), z3.Implies(pos == L.at(i) + 4, w == L.Len(i))]
        if n == 'Magic' and L is not None:
            st.path.append(z3.Implies(pos == L.at(z64(L.count)), z3.And(*[x == y for x, y in zip(vals, L.foot)])))
        if n == 'Magic':
            exp = [X.load(st, simp(a[2] + i), 1) for i in range(4)]
            fits = z3.And(fits, *[x == y for x, y in zip(vals, exp)])

        def good(s):
            X.store(s, simp(sret), BVV(0))
            s.path.append(z3.ULE(simp(pos + k), size))
            X.store(s, simp(this + X.layout['ArtifactReader.pos_']), simp(pos + k))
            if n == 'BytesView':
                X.store(s, simp(a[3]), k)
                X.store(s, simp(a[3] + 8), simp(data + pos))
            elif n != 'Magic':
                X.store(s, simp(out), simp(z3.Concat(*reversed(vals))) if len(vals) > 1 else vals[0])
            return None

        def bad(s):
            h_status_err(X, s, {'dn': 'Read' + n}, [sret])
            return None
        return Forks([(fits, good), (z3.Not(fits), bad)])
    return h


def spec_read(n):
    def spec(X):
        lay = X.layout
        def setup(X, st):
            R = lay['sizeof ArtifactReader']
            ids = [x['id'] for x in X.fn['args']]
            res, this, data, size, pos = [X.fresh(x) for x in ('result', 'this', 'data', 'size', 'pos')]
            st.env[ids[0]], st.env[ids[1]] = res, this
            osz = {'U8': 1, 'U32LE': 4, 'U64LE': 8, 'Magic': 4, 'BytesView': 16}[n]
            out = X.fresh('out')
            k = {'BytesView': None}.get(n, BVV({'U8': 1, 'U32LE': 4, 'U64LE': 8, 'Magic': 4}.get(n, 0)))
            if n == 'BytesView':
                k = X.fresh('n')
                st.env[ids[2]], st.env[ids[3]] = k, out
            else:
                st.env[ids[2]] = out
                if n == 'Magic':
                    st.env[ids[3]] = X.fresh('label')
            reg = [('blob', data, size, False), ('result', res, BVV(8), True), ('reader', this, BVV(R), True), ('out', out, BVV(osz), n != 'Magic')]
            for q in reg[1:]:
                st.path.append(z3.And(q[1] != 0, z3.ULT(q[1], BVV(BIG)), q[1] & (7 if n != 'Magic' and n != 'U8' else 0) == 0))
            st.path += [z3.ULT(size, BVV(BIG)), z3.ULT(data, BVV(BIG)), z3.ULE(pos, size)]
            for i, r in enumerate(reg):
                for q in reg[:i]:
                    st.path.append(z3.Or(z3.ULE(r[1] + r[2], q[1]), z3.ULE(q[1] + q[2], r[1])))
            st.regions += reg
            b = lay['ArtifactReader.buf_']
            for o, v in ((b, size), (b + 8, data), (lay['ArtifactReader.pos_'], pos)):
                st.path.append(X.hread(st, simp(this + o), 8) == v)
            heap = st.heap.base
            st.ghost.update(res=res, this=this, out=out, k=k, data=data, size=size, pos=pos)
            st.ghost['@v'] = [z3.Select(heap, simp(data + pos + i)) for i in range(conc(k))] if n != 'BytesView' else []
            st.ghost['@m'] = [z3.Select(heap, simp(out + i)) for i in range(4)] if n == 'Magic' else []
            X.bounds = [size]
        X.setup = setup

        def ret(X, st, v):
            g = st.ghost
            ok = status_ok(X, st, g['res'])
            fits = z3.ULE(g['k'], g['size'] - g['pos'])
            if n == 'Magic':
                fits = z3.And(fits, *[x == y for x, y in zip(g['@v'], g['@m'])])
            b = lay['ArtifactReader.buf_']
            rd = lambda o: X.hread(st, simp(g['this'] + o), 8)
            X.oblige(st, 'post', 'the bytes of the reader stay the same', z3.And(rd(b) == g['size'], rd(b + 8) == g['data']))
            p = rd(lay['ArtifactReader.pos_'])
            if X.must(st, z3.Not(ok)):
                X.oblige(st, 'post', 'a read fails only when the bytes are missing or differ', z3.Not(fits))
                X.oblige(st, 'post', 'a failed read does not advance', p == g['pos'])
                return
            X.oblige(st, 'post', 'the status is ok', ok)
            X.oblige(st, 'post', 'a read succeeds only when its bytes are there', fits)
            X.oblige(st, 'post', 'the reader advances by the bytes read', p == g['pos'] + g['k'])
            if n == 'BytesView':
                X.oblige(st, 'post', 'the view is the bytes at the position', z3.And(X.hread(st, simp(g['out']), 8) == g['k'], X.hread(st, simp(g['out'] + 8), 8) == g['data'] + g['pos']))
            elif n != 'Magic':
                X.oblige(st, 'post', 'the value is the little-endian number at the position',
                         X.hread(st, simp(g['out']), len(g['@v'])) == (z3.Concat(*reversed(g['@v'])) if len(g['@v']) > 1 else g['@v'][0]))
        X.on_ret = ret
    return spec


# ---------------------------------------------------------------- parser
def h_assign(X, st, ins, a):
    d, p, n = a
    L = st.ghost['@L']
    X.access(st, simp(p), n, False, 'copied bytes')
    st.events.append(('assign-local' if conc(d) else 'assign', d, p, n))
    X.trusted.add('std::string::assign/append copy exactly the given bytes')
    return d


def h_ext_ctor(X, st, ins, a):
    st.events.append(('assign-local', simp(a[0] + X.layout['ArtifactExtension.payload']), BVV(0), BVV(0)))


def last_assign(st, addr):
    for e in reversed(st.events):
        if e[0].startswith('assign') and z3.eq(simp(e[1]), simp(addr)):
            return e[2], e[3]
    return None


def h_ext_clear(X, st, ins, a):
    g = st.ghost
    X.oblige(st, 'call', 'the extension list of the header is cleared', a[0] == g['hdr'] + X.layout['ArtifactHeader.extensions'])
    g['ext_n'] = BVV(0)


def h_ext_reserve(X, st, ins, a):
    # memory use stays proportional to the blob: every record takes at least eight bytes of it
    X.oblige(st, 'call', 'room is reserved for no more records than the blob can hold', z3.ULE(a[1], LSHR(st.ghost['size'], 3)))


def LSHR(x, n):
    return z3.LShR(x, BVV(n))


def h_ext_add(X, st, ins, a):
    g, L = st.ghost, st.ghost['@L']
    lay = X.layout
    i = g['ext_n']
    X.oblige(st, 'call', 'records are appended to the header', a[0] == g['hdr'] + lay['ArtifactHeader.extensions'])
    X.oblige(st, 'call', 'the record lies inside the blob', z3.Not(L.bad_ext(i)))
    X.oblige(st, 'call', 'the tag is the one at the record', X.load(st, simp(a[1] + lay['ArtifactExtension.tag']), 4) == L.Tag(i))
    s = last_assign(st, simp(a[1] + lay['ArtifactExtension.payload']))
    X.oblige(st, 'call', 'the payload is the one behind the record head', z3.And(s[1] == L.len(i), z3.Or(s[0] == g['data'] + L.at(i) + 8, s[1] == 0)) if s else FALSE)
    st.path.append(L.unfold(i))
    g['ext_n'] = i + 1
    X.trusted.add('std::vector<ArtifactExtension>::emplace_back appends the given record')
    return BVV(0x6f0000000000)


def h_resize(X, st, ins, a):
    g = st.ghost
    X.oblige(st, 'call', 'the return types of the header are resized', a[0] == g['hdr'] + X.layout['ArtifactHeader.per_entry_ret_types'])
    X.oblige(st, 'call', 'no more room than the blob has bytes', z3.ULE(a[1], g['size']))
    p = fresh_region(X, st, 'rets', a[1], 1)
    st.regions.append(('rets', p, a[1], True))
    h = g['hdr'] + X.layout['ArtifactHeader.per_entry_ret_types']
    X.store(st, simp(h), p)
    X.store(st, simp(h + 8), simp(p + a[1]))
    X.store(st, simp(h + 16), simp(p + a[1]))
    g['ret'] = X.fresh('ret', 8)
    st.watch = (('ret', simp(p + g['K']), 'rets'),)
    X.trusted.add('std::vector::resize(n) provides n elements')


def parse_cands(X, fr):
    out = []
    g = fr['ghost0']
    L = g['@L']
    names = [k for k in fr['init'] if isinstance(fr['init'][k], z3.BitVecRef)]
    for k in names:
        w = fr['init'][k].size()
        if w == 32:
            out.append(('%s <= number of entries' % k, lambda x, k=k: z3.ULE(x[k], L.n)))
            out.append(('%s <= number of records' % k, lambda x, k=k: z3.ULE(x[k], L.count)))
        if w == 64 and 'ghost:ext_n' in names and k != 'ghost:ext_n':
            out.append(('%s is behind the records read' % k, lambda x, k=k: x[k] == L.at(x['ghost:ext_n'])))
        if w in (32, 64) and 'ghost:ret' in names and k != 'ghost:ret':
            z = (lambda v: z64(v)) if w == 32 else (lambda v: v)
            out.append(('return type K read when %s > K' % k, lambda x, k=k, z=z: z3.Or(z3.ULE(z(x[k]), g['K']), x['ghost:ret'] == L.retK)))
    return out


def spec_parse(X):
    lay = X.layout

    def setup(X, st):
        a = [x['id'] for x in X.fn['args']]
        res, size, data, hdr, view = [X.fresh(n) for n in ('result', 'size', 'data', 'hdr', 'view')]
        for k, v in zip(a, (res, size, data, hdr, view)):
            st.env[k] = v
        sz = {'result': 8, 'hdr': lay['sizeof ArtifactHeader'], 'view': 16}
        reg = [('result', res, BVV(8), True), ('blob', data, size, False), ('hdr', hdr, BVV(sz['hdr']), True), ('view', view, BVV(16), True)]
        st.path += [z3.ULT(size, BVV(BIG)), z3.ULT(data, BVV(BIG)), res != 0, res & 7 == 0, hdr & 7 == 0, view & 7 == 0]
        st.path += [z3.ULT(x, BVV(BIG)) for x in (res, hdr, view)]
        for i, r in enumerate(reg):
            for q in reg[:i]:
                st.path.append(z3.Or(z3.ULE(r[1] + r[2], q[1]), z3.ULE(q[1] + q[2], r[1])))
        st.regions += reg
        heap = st.heap.base
        names = []

        def name(t):
            q = X.fresh('place')
            st.path.append(q == t)
            names.append((q, t))
            return q
        L = Layout(lambda p: X.named(st, heap, simp(data + p), 1), size, lay['version'], name)
        L.names = names
        K = X.fresh('K')
        L.retK = L.byte(L.rets + K)
        orig = L.byte
        L.byte = lambda p: z3.Select(heap, simp(data + p))
        # the four bytes behind the last record (bad_end speaks of that place only)
        L.foot = [orig(simp(L.at(z64(L.count)) + j)) for j in range(4)]
        st.path.append(z3.ULT(K, z64(L.n)))
        st.path.append(L.D(BVV(0)) == 0)
        st.ghost.update({'@L': L, 'size': size, 'data': data, 'hdr': hdr, 'view': view, 'res': res, 'K': K, 'ext_n': X.fresh('ext_before')})
        X.bounds = [size]
        X.loop_events = {'error-status', 'assign-local'}
    X.setup = setup
    X.extra_cands = parse_cands

    def ret(X, st, v):
        g, L = st.ghost, st.ghost['@L']
        ok = status_ok(X, st, g['res'])
        i = g['ext_n']
        if X.must(st, z3.Not(ok)):
            X.oblige(st, 'post', 'a blob is refused only if it is malformed (or an output is missing)',
                     z3.Or(g['hdr'] == 0, g['view'] == 0, *L.core, L.bad_ext(i), L.bad_end(i),
                           # records of at least eight bytes each cannot all lie inside
                           z3.UGT(z64(L.count), LSHR(g['size'] - L.ext, 3))))
            return
        X.oblige(st, 'post', 'the status is ok', ok)
        for n, b in enumerate(L.core):
            X.oblige(st, 'post', 'an accepted blob is well formed (%d)' % n, z3.Not(b))
        X.oblige(st, 'post', 'every extension record is handed out', i == z64(L.count))
        X.oblige(st, 'post', 'the footer ends the blob', z3.Not(L.bad_end(z64(L.count))))
        h = g['hdr']
        for n, (f, (p, k)) in enumerate(zip(('llvm_version', 'target_triple', 'cpu_name'), L.strs)):
            s = last_assign(st, simp(h + lay['ArtifactHeader.' + f]))
            X.oblige(st, 'post', f + ' is the string at its place', z3.And(s[1] == k, z3.Or(k == 0, s[0] == g['data'] + p)) if s else FALSE)
        X.oblige(st, 'post', 'mode', X.hread(st, simp(h + lay['ArtifactHeader.mode']), 1) == L.mode)
        X.oblige(st, 'post', 'floating point mode', X.hread(st, simp(h + lay['ArtifactHeader.fp_math_mode']), 1) == L.fp)
        r = lay['ArtifactHeader.per_entry_ret_types']
        b, e = X.hread(st, simp(h + r), 8), X.hread(st, simp(h + r + 8), 8)
        X.oblige(st, 'post', 'the number of return types', e - b == z64(L.n))
        X.oblige(st, 'post', 'return type K', g['ret'] == L.retK if 'ret' in g else FALSE)
        vw = g['view']
        # std::string_view is (length, pointer)
        X.oblige(st, 'post', 'the object bytes are those of the blob',
                 z3.And(X.hread(st, simp(vw), 8) == L.osize, X.hread(st, simp(vw + 8), 8) == g['data'] + L.obj))
    X.on_ret = ret


H = [(r'ArtifactReader::Read%s\(' % n, h_read(n)) for n in ('U8', 'U32LE', 'U64LE', 'Magic', 'BytesView')] + \
    [(r'ArtifactExtension::ArtifactExtension\(', h_ext_ctor), (r'ArtifactExtension::~', h_nop), (r'ArtifactExtension.*::clear\(', h_ext_clear),
     (r'ArtifactExtension.*::reserve\(', h_ext_reserve), (r'ArtifactExtension.*::(emplace_back|push_back)', h_ext_add), (r'::assign\(char const\*, unsigned long\)', h_assign),
     (r'vector<jitfusion::ValueType.*::resize\(unsigned long\)', h_resize)]

UNITS = [{'name': 'ArtifactReader::Read' + n, 'file': F, 'rx': r'ArtifactReader::Read%s\(' % n, 'handlers': [], 'spec': spec_read(n)} for n in ('U8', 'U32LE', 'U64LE', 'Magic', 'BytesView')] + [
    {'name': 'DeserializeArtifact', 'file': F, 'rx': r'^jitfusion::DeserializeArtifact\(', 'handlers': H, 'spec': spec_parse},
]
