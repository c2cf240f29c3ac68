"""Runs registered functions of /repo's current build on concrete operands and compares with the contract read
concretely (POps). Used to turn a failed obligation into a failing input; never to establish a property."""
import ctypes, json, mmap, os, random, signal, struct, sys, time
from ops import POps, PList, PStrList, SArg, WID, isf, iss, ANY, Undefined, isnan, fenc, tosigned
from kernel import ELEM

PAGE = 4096


class LS(ctypes.Structure):
    _fields_ = [('data', ctypes.c_void_p), ('len', ctypes.c_uint32)]


CT = {'u8': ctypes.c_uint8, 'u16': ctypes.c_uint16, 'u32': ctypes.c_uint32, 'u64': ctypes.c_uint64,
      'i8': ctypes.c_int8, 'i16': ctypes.c_int16, 'i32': ctypes.c_int32, 'i64': ctypes.c_int64,
      'f32': ctypes.c_float, 'f64': ctypes.c_double}

_libc = ctypes.CDLL(None, use_errno=True)
_libc.mmap.restype = ctypes.c_void_p
_libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
_libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
_libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]


class Guarded:
    """bytes that end right before an inaccessible page; read-only once filled"""

    def __init__(self, data, align=8):
        n = len(data)
        pages = (n + PAGE - 1) // PAGE + 1
        self.size = (pages + 1) * PAGE
        self.base = _libc.mmap(None, self.size, 3, 0x22, -1, 0)
        end = self.base + pages * PAGE
        start = end - n
        if align > 1:
            start -= start % align
        if n:
            ctypes.memmove(start, data, n)
        self.addr = start
        _libc.mprotect(self.base, pages * PAGE, 1)
        _libc.mprotect(end, PAGE, 0)

    def free(self):
        _libc.munmap(self.base, self.size)


def pack(tag, vals):
    return b''.join(int(v).to_bytes(WID[tag] // 8, 'little') for v in vals)


INTS = {}


def pool(tag):
    w = WID[tag]
    if isf(tag):
        xs = [0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 3.0, 1.5, -2.5, 1e-3, 7.0, 100.0, 1e10, -1e10, float('inf'),
              float('-inf'), float('nan'), 2147483648.0, 3e38, -3e38, 1e-40]
        return [fenc(tag, x) for x in xs]
    m = (1 << w) - 1
    xs = [0, 1, 2, 3, 4, 5, 7, 8, 9, m, m - 1, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1, 10, 100, 127]
    return [x & m for x in xs]


LENS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 100, 129]
WORDS = [b'', b'a', b'b', b'ab', b'abc', b'ba', b'a\0b', b'\xff', b'\x80a', b'abcabc', b'12', b'-7', b'3.5', b'aab',
         b'zzzzzzzzzzzzzzzzzzzz', b'aaaaaaaaab', b'ab\0', b'999999999999', b'0x10', b' 1', b'1e3', b'+5']


LONG = False
LONGS = [257, 300, 1000, 4099, 65536, 65545, 65601, 70001]


def plen(rng, lens):
    return rng.choice(LONGS) if LONG else rng.choice(lens)


def rand_scalar(rng, tag, small):
    p = pool(tag)
    if small:
        return p[rng.randrange(min(4, len(p)))] if not isf(tag) else p[rng.randrange(6)]
    if rng.random() < 0.2:
        return rng.getrandbits(WID[tag])
    return rng.choice(p)


def rand_list(rng, tag, n, small):
    return [rand_scalar(rng, tag, small) for _ in range(n)]


def rand_args(rng, params, maxlen=1000):
    """plain operands: lists of one call usually share a length"""
    n = plen(rng, [x for x in LENS if x <= maxlen])
    small = rng.random() < 0.5
    twin = rng.random() < 0.08
    out = []
    for p in params:
        if p == 'stringlist':
            m = n if rng.random() < 0.8 else rng.choice(LENS[:12])
            out.append([rng.choice(WORDS) for _ in range(min(m, 40))])
        elif p == 'string':
            out.append(list(rng.choice(WORDS)))
        elif p in ELEM:
            m = n if rng.random() < 0.8 or LONG else rng.choice([x for x in LENS if x <= maxlen])
            prev = [k for k, q in enumerate(params[:len(out)]) if q == p]
            out.append(out[prev[-1]] if twin and prev else rand_list(rng, ELEM[p], m, small))
        elif p in WID:
            out.append(rand_scalar(rng, p, small))
    return out


def wrap_args(params, vals):
    A = []
    i = 0
    for p in params:
        if p == 'ptr':
            a = SArg(None, 'ptr')
        elif p == 'stringlist':
            a = PStrList(vals[i])
            i += 1
        elif p in ELEM:
            a = PList(vals[i], ELEM[p])
            i += 1
        else:
            a = SArg(vals[i], p)
            i += 1
        a.kind = p
        A.append(a)
    return A


def eff_params(reg):
    return list(reg.params) + (['ptr'] if reg.needs_ctx else [])


def expected_pre(contract, reg, vals):
    """the operands satisfy the precondition"""
    O = POps()
    A = wrap_args(eff_params(reg), vals)
    try:
        return all(contract.pre(O, A))
    except Undefined:
        return False


def expected(contract, reg, vals):
    """None when the operands are outside the contract's precondition; else (error, value)"""
    O = POps()
    A = wrap_args(eff_params(reg), vals)
    try:
        for p in contract.pre(O, A):
            if not p:
                return None
        if contract.err(O, A):
            return True, None
        if contract.ret == 'scalar':
            try:
                v = contract.value(O, A)
            except Undefined:
                v = ANY
            return False, int(v) if isinstance(v, bool) else v
        f = getattr(contract, 'concrete', None)
        if f:
            return False, f(O, A)
        n = contract.length(O, A)
        s = contract.select(O, A)
        if s:
            keep, val, tot = s
            r = [getattr(val(i), 'vals', val(i)) for i in range(tot) if keep(i)]
            return (False, r) if len(r) == n else (False, [None] * n)
        out = []
        for k in range(n):
            try:
                out.append(contract.elem(O, A, k))
            except Undefined:
                out.append(ANY)
        return False, out
    except Undefined:
        return None


def same(tag, got, want, zero_eq=False):
    if want is ANY:
        return True
    if isf(tag) and isnan(tag, want) and isnan(tag, got):
        return True
    if zero_eq and isf(tag) and (got | want) << 1 & ((1 << WID[tag]) - 1) == 0:
        return True
    return got == want


def lookup_pair(so, reg):
    import registry
    k = 'String' if reg.params[0] == 'stringlist' else 'Int'
    rs = registry.enumerate_registry(so)
    f = lambda n: [r for r in rs if r.name == n and r.params[0] == reg.params[0]][0].addr
    return f('__BuildLookupTable' + k), f('__LookupTable' + k)


class Runner:
    def __init__(self, so, reg):
        self.lib = ctypes.CDLL(so)
        L = self.lib
        L.jf_ctx_new.restype = ctypes.c_void_p
        L.jf_ctx_new.argtypes = [ctypes.c_int64]
        for f in ('jf_ctx_errors', 'jf_ctx_clear', 'jf_ctx_free'):
            getattr(L, f).argtypes = [ctypes.c_void_p]
        L.jf_ctx_poison.argtypes = [ctypes.c_void_p]
        L.jf_ctx_poisoned.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_uint64]
        self.ctx = L.jf_ctx_new(1 << 16)
        self.reg = reg
        base = ctypes.cast(L.jf_enum, ctypes.c_void_p).value - self.sym_off(so, 'jf_enum')
        ps = eff_params(reg)
        at = []
        for p in ps:
            at.append(LS if p in ELEM else ctypes.c_void_p if p == 'ptr' else CT[p])
        rt = LS if reg.ret in ELEM else None if reg.ret == 'void' else ctypes.c_void_p if reg.ret == 'ptr' else CT[reg.ret]
        if reg.name == 'ListLookupIndex':
            x, y = lookup_pair(so, reg)
            f = ctypes.CFUNCTYPE(ctypes.c_void_p, LS, ctypes.c_void_p)(base + x)
            g = ctypes.CFUNCTYPE(LS, LS, ctypes.c_void_p, ctypes.c_void_p)(base + y)
            self.fn = lambda a, b, c: g(a, f(b, c), c)
        else:
            self.fn = ctypes.CFUNCTYPE(rt, *at)(base + reg.addr)
        self.ps = ps

    def sym_off(self, so, name):
        import subprocess
        for l in subprocess.run(['nm', so], stdout=subprocess.PIPE, text=True).stdout.splitlines():
            f = l.split()
            if len(f) == 3 and f[2] == name:
                return int(f[0], 16)
        raise KeyError(name)

    def call(self, vals):
        """(errors recorded, result, message)"""
        L = self.lib
        L.jf_ctx_poison(self.ctx)
        held, args, same = [], [], {}
        i = 0
        ins = []
        for p in self.ps:
            if p == 'ptr':
                args.append(self.ctx)
                continue
            v = vals[i]
            i += 1
            if p == 'stringlist':
                recs = b''
                for s in v:
                    g = Guarded(bytes(s), 1)
                    held.append(g)
                    recs += struct.pack('<QII', g.addr, len(s), 0)
                g = Guarded(recs)
                held.append(g)
                args.append(LS(g.addr, len(v)))
            elif p in ELEM:
                t = ELEM[p]
                raw = pack(t, v)
                # equal operands are one and the same list
                g = same.get((p, raw))
                if g is None:
                    g = same[(p, raw)] = Guarded(raw, max(1, WID[t] // 8) if p != 'string' else 1)
                    held.append(g)
                args.append(LS(g.addr, len(v)))
            elif isf(p):
                args.append(struct.unpack('<f' if p == 'f32' else '<d', int(v).to_bytes(WID[p] // 8, 'little'))[0])
            else:
                args.append(tosigned(v, WID[p]) if iss(p) else v)
        self.phase(True)
        r = self.fn(*args)
        self.phase(False)
        errs = L.jf_ctx_errors(self.ctx)
        ret = self.reg.ret
        msg = None
        if ret in ELEM:
            n = r.len
            if n > (1 << 24):
                out, msg = None, 'result length %d' % n
            elif ret == 'stringlist':
                out = []
                raw = ctypes.string_at(r.data, 16 * n) if n else b''
                for k in range(n):
                    a, ln = struct.unpack_from('<QI', raw, 16 * k)
                    out.append(list(ctypes.string_at(a, ln)) if ln else [])
            else:
                t = ELEM[ret]
                w = WID[t] // 8
                raw = ctypes.string_at(r.data, n * w) if n else b''
                out = [int.from_bytes(raw[k * w:(k + 1) * w], 'little') for k in range(n)]
        elif ret == 'void' or ret == 'ptr':
            out = None
        elif isf(ret):
            out = int.from_bytes(struct.pack('<f' if ret == 'f32' else '<d', r), 'little')
        else:
            out = int(r) & ((1 << WID[ret]) - 1)
        if not L.jf_ctx_poisoned(self.ctx, None, 0):
            msg = 'bytes after the arena allocations were overwritten'
        for g in held:
            g.free()
        L.jf_ctx_clear(self.ctx)
        return errs > 0, out, msg


def check_one(run, contract, reg, vals):
    """None if fine or outside the contract, else a description of the disagreement"""
    if not contract.sane(vals):
        return None
    if MEMORY_ONLY:
        A = wrap_args(eff_params(reg), vals)
        try:
            if not all(contract.safety_pre(POps(), A)):
                return None
        except Undefined:
            return None
        r = run.call(vals)
        return r[2]
    ex = expected(contract, reg, vals)
    if ex is None:
        return None
    err, want = ex
    gerr, got, msg = run.call(vals)
    if msg:
        return msg
    if gerr != err:
        return 'error recorded: %s, contract says %s' % (gerr, err)
    if err:
        return 'result of a failed call is not empty' if isinstance(got, list) and got else None
    if want is None and contract.ret != 'scalar':
        return None
    if isinstance(want, list):
        if len(want) != len(got):
            return 'length %d, contract says %d' % (len(got), len(want))
        t = ELEM[reg.ret]
        for k, (g, w) in enumerate(zip(got, want)):
            if t == 'str':
                if w is not ANY and bytes(g) != bytes(w):
                    return 'element %d is %r, contract says %r' % (k, bytes(g), bytes(w))
            elif not same(t, g, w, contract.zero_eq):
                return 'element %d is %#x, contract says %#x' % (k, g, w)
        return None
    if want is None:
        return None
    t = reg.ret
    if hasattr(contract, 'agree'):
        return None if contract.agree(got, want) else 'result %#x, contract says %#x' % (got, want)
    if not same(t if t in WID else 'u64', got, want, contract.zero_eq):
        return 'result %#x, contract says %#x' % (got, want)
    return None


def model_args(reg, inputs):
    """operands of a counter-model, when small enough to build"""
    if not inputs:
        return None
    out = []
    try:
        for p, x in zip(eff_params(reg), inputs):
            if p == 'ptr':
                continue
            if isinstance(x, dict) and 'els' in x:
                if x['len'] > 100000:
                    return None
                v = [x['default']] * x['len']
                for k, e in x['els'].items():
                    v[int(k)] = e
                out.append(v)
            elif isinstance(x, dict):
                if x['len'] > 2000:
                    return None
                ss = []
                for k in range(x['len']):
                    n = x['slen'].get(str(k), x['sdef'])
                    if n > 100000:
                        return None
                    b = x['bytes'].get(str(k), {})
                    ss.append([b.get(str(j), 0) for j in range(n)])
                out.append(ss)
            elif x is None:
                return None
            else:
                out.append(x)
    except Exception:
        return None
    return out


MEMORY_ONLY = False


def search(so, reg, contract, models=(), seconds=6.0, seed=1, only=None, stats=None, deep=True, memory=False):
    """looks for operands on which the built code disagrees with the contract; runs in a forked child.
    returns None or {'args':..., 'what':...}"""
    global LONG, MEMORY_ONLY
    MEMORY_ONLY = memory
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            devnull = os.open('/dev/null', os.O_WRONLY)
            os.dup2(devnull, 2)
            run = Runner(so, reg)
            rng = random.Random(seed)
            t0 = time.time()

            class Slow(Exception):
                pass

            def slow(*_):
                raise Slow()

            # evaluating the contract on large operands may be too slow: such operands are passed over.
            # only the built code itself is held to a time limit
            def native(on):
                signal.signal(signal.SIGALRM, signal.SIG_DFL if on else slow)
                signal.alarm(90 if on else 15)
                os.write(w, b'C\n' if on else b'R\n')
            run.phase = native

            def attempt(vals):
                os.write(w, b'T' + json.dumps(enc(vals)).encode() + b'\n')
                try:
                    signal.signal(signal.SIGALRM, slow)
                    signal.alarm(15)
                    d = check_one(run, contract, reg, vals)
                except Slow:
                    return
                finally:
                    signal.alarm(0)
                if d:
                    os.write(w, b'F' + json.dumps(d).encode() + b'\n')
                    os._exit(0)
            if only is not None:
                attempt(only)
                os._exit(0)
            for m in models:
                if m is not None:
                    attempt(m)
            gen = getattr(contract, 'samples', None)
            n = 0
            while time.time() - t0 < seconds and n < 4000:
                n += 1
                # long lists now and then: an execution of the contract on them costs much more
                LONG = deep and n % 40 == 39
                vals = gen(rng) if gen and rng.random() < 0.85 else rand_args(rng, reg.params)
                attempt(vals)
                LONG = False
            os.write(w, b'N%d\n' % n)
        except BaseException as ex:
            os.write(w, b'E' + json.dumps(repr(ex)).encode() + b'\n')
        os._exit(code)
    os.close(w)
    buf = b''
    while True:
        x = os.read(r, 1 << 20)
        if not x:
            break
        buf += x
        if len(buf) > (1 << 22):
            buf = buf[buf.rindex(b'\nT', 0, len(buf) - 1) + 1:] if b'\nT' in buf[:-1] else buf
    os.close(r)
    _, st = os.waitpid(pid, 0)
    lines = [l for l in buf.split(b'\n') if l]
    last = None
    incall = False
    for l in lines:
        if l[:1] == b'T':
            last = l[1:]
            incall = False
        elif l[:1] in b'CR':
            incall = l[:1] == b'C'
        elif l[:1] == b'N':
            if stats is not None:
                stats['executions'] = int(l[1:])
                stats['sample'] = json.loads(last) if last and len(last) < 2000 else stats.get('sample')
        elif l[:1] == b'F':
            return {'args': json.loads(last), 'what': json.loads(l[1:])}
        elif l[:1] == b'E':
            return {'error': json.loads(l[1:])}
    if os.WIFSIGNALED(st) and last is not None and os.WTERMSIG(st) != signal.SIGKILL and \
            (incall or os.WTERMSIG(st) != signal.SIGALRM):
        return {'args': json.loads(last), 'what': 'the process was ended by signal %d' % os.WTERMSIG(st)}
    return None


def enc(vals):
    return [({'s': [list(x) for x in v]} if v and not isinstance(v[0], int) else v) if isinstance(v, list) else v for v in vals]


def dec(vals):
    return [v['s'] if isinstance(v, dict) else v for v in vals]
