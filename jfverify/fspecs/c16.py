"""Contracts of execution (C16): every Execute entry point calls the compiled code exactly once with the caller's
arguments, hands out its value, reports an error exactly when the context holds one afterwards (with the messages of that
context) and leaves a caller-provided context cleared. What the compiled code does to the context is unknown: the call is
modelled as leaving any list of errors behind."""
import z3
from flat import *
from fbase import *

LAYOUT = 'C16'
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::'
BOUNDARY = STATUS_BOUNDARY + [
    r'jitfusion::ExecContext::(ExecContext|~ExecContext|Clear|GetErrorMessage)', r'^%s(~?basic_string|assign|append|push_back|reserve)\(' % STR, r'^%sbasic_string<.*>\(' % STR,
    r'variant<.*>::operator=', r'^std::vector<.*>::(vector<|vector\(|~vector\(|reserve\(|resize\(|clear\()', r'::emplace_back<',
    r'Status::ToString', r'BatchExecEngine::ExecuteAt', r'%soperator\+=' % STR, r'^jitfusion::Arena::']
BIG = 1 << 46
K = {'kU8': 'unsigned char', 'kU16': 'unsigned short', 'kU32': 'unsigned int', 'kU64': 'unsigned long', 'kI8': 'signed char', 'kI16': 'short', 'kI32': 'int', 'kI64': 'long', 'kF32': 'float', 'kF64': 'double'}
STD = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
TYPES = {v: (k, 'scalar') for k, v in K.items()}
TYPES[STD] = ('kString', 'string')
for k, v in K.items():
    TYPES['std::vector<%s, std::allocator<%s>>' % (v, v)] = (k + 'List', 'list')
TYPES['std::vector<%s, std::allocator<%s>>' % (STD, STD)] = ('kStringList', 'strings')
KINDS = [k for k, _ in TYPES.values()] + ['kVoid']
SIZE = {'unsigned char': 1, 'unsigned short': 2, 'unsigned int': 4, 'unsigned long': 8, 'signed char': 1, 'short': 2, 'int': 4, 'long': 8, 'float': 4, 'double': 8}


def valid_type(X, t):
    return z3.Or(*[t == X.layout['ValueType.' + k] for k in KINDS])


def errs(X, st, ctx):
    """the error list of a context: begin and end"""
    e = simp(ctx + X.layout['ExecContext.errors'])
    return X.load(st, e, 8), X.load(st, simp(e + 8), 8)


def set_errs(X, st, ctx, b, e):
    o = simp(ctx + X.layout['ExecContext.errors'])
    X.store(st, o, b)
    X.store(st, simp(o + 8), e)


# ------------------------------------------------ the call of compiled code
def call_code(X, st, ins, target, args):
    g = st.ghost
    ctx = simp(args[1])
    if not any(z3.eq(ctx, c) for c in g['@ctxs']):
        X.oblige(st, 'call', 'the compiled code gets the context of this execution', FALSE)
        raise Stop()
    b, e = X.fresh('errors'), X.fresh('errors_end')
    st.path += [z3.ULE(b, e), z3.ULT(e, BVV(BIG)), z3.URem(e - b, BVV(32)) == 0]
    set_errs(X, st, ctx, b, e)
    st.ghost['@err'] = b != e
    v = None
    if 'id' in ins:
        t = ins['t']
        if isinstance(t, dict):
            v = [X.fresh('value%d' % n, bits(x)) for n, x in enumerate(t['s'])]
            p, n = v[0], z64(v[1])
            st.path += [z3.ULT(p, BVV(BIG)), p & 7 == 0]
            # the widest element any result list has is 16 bytes; a list lies away from the engine's own objects
            for name, base, size, _ in st.regions:
                st.path.append(z3.Or(z3.ULE(p + n * 16, base), z3.ULE(base + size, p)))
            st.regions.append(('list', p, simp(n * 16), False))
        else:
            v = X.fresh('value', bits(t))
    st.events.append(('call', target, args, v))
    return v


def z64(x):
    return z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x


# ------------------------------------------------ callees
def h_ctx_new(X, st, ins, a):
    set_errs(X, st, a[0], BVV(0), BVV(0))
    st.ghost['@ctxs'] = st.ghost['@ctxs'] + (simp(a[0]),)
    st.events.append(('ctx-new', simp(a[0]), a[1]))


def h_ctx_del(X, st, ins, a):
    st.events.append(('ctx-del', simp(a[0])))


def h_clear(X, st, ins, a):
    """contract proved as ExecContext::Clear below"""
    b, _ = errs(X, st, a[0])
    set_errs(X, st, a[0], b, b)
    st.events.append(('clear', simp(a[0])))


def h_errors_clear(X, st, ins, a):
    """errors.clear() of a context, written out instead of ExecContext::Clear"""
    b = X.load(st, simp(a[0]), 8)
    X.store(st, simp(a[0] + 8), b)
    st.events.append(('clear', simp(a[0] - X.layout['ExecContext.errors'])))


def h_message(X, st, ins, a):
    """contract proved as ExecContext::GetErrorMessage below"""
    b, e = errs(X, st, a[1])
    st.events.append(('message', simp(a[0]), simp(a[1]), b, e))


def h_status_msg(X, st, ins, a):
    h_status_err(X, st, ins, a)
    st.events.append(('status-of', simp(a[1])))


def h_str(X, st, ins, a):
    st.events.append(('string', simp(a[0]), a[1], a[2]))
    X.trusted.add('std::string(p, n), std::vector(first, last) copy exactly the given elements')


def h_vec(X, st, ins, a):
    st.events.append(('range', simp(a[0]), a[1], a[2]))


def h_vec0(X, st, ins, a):
    pass


def h_reserve(X, st, ins, a):
    return None


def h_emplace(X, st, ins, a):
    """result strings: element i of the compiled list"""
    g = st.ghost
    c = [e for e in st.events if e[0] == 'call']
    v = c[-1][3] if c else None
    if not isinstance(v, list):
        X.oblige(st, 'call', 'strings are appended only for a list the compiled code returned', FALSE)
        raise Stop()
    i = g['strings']
    X.oblige(st, 'call', 'no more strings than the list has', z3.ULT(i, z64(v[1])))
    p, n = X.load(st, a[1], 8), X.load(st, a[2], 4)
    q = simp(v[0] + i * 16)
    X.oblige(st, 'call', 'the string appended is the next one of the list', z3.And(p == X.hread(st, q, 8, 'list'), n == X.hread(st, simp(q + 8), 4, 'list')))
    g['strings'] = i + 1
    g['strings_of'] = simp(a[0])
    return BVV(0x6f0000000000)


def h_assign(X, st, ins, a):
    dn = ins['dn']
    m = re.search(r'::operator=<(.*)>\(', dn)
    t = None
    if m:
        for k in sorted(TYPES, key=len, reverse=True):
            if m.group(1) == k:
                t = k
    if t is None:
        raise Unsupported('assignment of the result: ' + dn[-120:])
    kind, how = TYPES[t]
    val = None
    if how == 'scalar':
        val = X.load(st, a[1], SIZE[t])
    else:
        for e in reversed(st.events):
            if e[0] in ('string', 'range') and z3.eq(e[1], simp(a[1])):
                val = (e[2], e[3])
                break
        if how == 'strings':
            val = (st.ghost['strings'], st.ghost.get('strings_of'))
    st.events.append(('assign', a[0], kind, how, val, t, simp(a[1])))
    return a[0]


HANDLERS = [(r'ExecContext::ExecContext\(', h_ctx_new), (r'ExecContext::~ExecContext\(', h_ctx_del), (r'ExecContext::Clear\(', h_clear), (r'ExecContext::GetErrorMessage', h_message),
            (r'Status::RuntimeError<std::__cxx11::basic_string<char[^(]*>\(std::__cxx11', h_status_msg), (r'variant<.*>::operator=<', h_assign), (r'^std::enable_if<.*operator=<', h_assign),
            (r'::basic_string\(char const\*, unsigned long', h_str), (r'^std::vector<.*>::vector<', h_vec), (r'^std::vector<.*>::vector\(', h_vec0), (r'::~basic_string\(', h_nop), (r'::~vector\(', h_nop),
            (r'^std::vector<.*>::reserve\(', h_nop), (r'::emplace_back<', h_emplace), (r'^jitfusion::Arena::Reset\(', h_nop), (r'^std::vector<std::__cxx11::basic_string<.*>::clear\(', h_errors_clear)]


# ------------------------------------------------ Execute / ExecuteAt
def spec_exec(batch, own, typed):
    def spec(X):
        L = X.layout
        cls = 'BatchExecEngine' if batch else 'ExecEngine'

        def setup(X, st):
            ids = [x['id'] for x in X.fn['args']]
            names = ['result_status', 'this'] + (['index'] if batch else []) + ([] if own else ['ctx']) + ['entry_arguments', 'result']
            v = {n: X.fresh(n) for n in names}
            for i, n in zip(ids, names):
                st.env[i] = v[n]
            core = X.fresh('core')
            reg = [('result_status', v['result_status'], BVV(8), True), ('this', v['this'], BVV(L['sizeof ' + cls]), False), ('core', core, BVV(L['sizeof JitCore']), False)]
            if not own:
                reg.append(('ctx', v['ctx'], BVV(L['sizeof ExecContext']), True))
            if batch:
                ps, ts, n = X.fresh('entries'), X.fresh('types'), X.fresh('n')
                reg += [('entries', ps, simp(n * 8), False), ('types', ts, n, False)]
                st.path.append(z3.ULT(n, BVV(1 << 40)))
            for r in reg:
                st.path.append(z3.And(r[1] != 0, z3.ULT(r[1], BVV(BIG)), z3.ULT(r[2], BVV(BIG)), r[1] & (0 if r[0] == 'types' else 7) == 0))
            for i, r in enumerate(reg):
                for q in reg[:i]:
                    st.path.append(z3.Or(z3.ULE(r[1] + r[2], q[1]), z3.ULE(q[1] + q[2], r[1])))
            st.regions += reg
            rd = lambda o, k=8: X.hread(st, simp(v['this'] + o), k, 'this')
            st.path.append(rd(L[cls + '.core_']) == core)
            kinds = BVV(0, 8)
            if batch:
                e, t = L[cls + '.entry_func_ptrs_'], L[cls + '.ret_types_']
                # class invariant (C17): one non-null entry and one type per compiled root
                st.path += [rd(e) == ps, rd(e + 8) == ps + n * 8, rd(t) == ts, rd(t + 8) == ts + n]
                entry = X.hread(st, simp(ps + v['index'] * 8), 8, 'entries')
                rt = X.hread(st, simp(ts + v['index']), 1, 'types')
                there = z3.ULT(v['index'], n)
                st.path.append(z3.Implies(there, entry != 0))
            else:
                entry, rt = rd(L[cls + '.entry_func_ptr_']), rd(L[cls + '.ret_type_'], 1)
                # class invariant (C17): a type without code is kUnknown
                st.path.append(z3.Implies(entry == 0, rt == L['ValueType.kUnknown']))
                there = entry != 0
            st.ghost.update({'@ctxs': () if own else (v['ctx'],), '@v': v, '@entry': entry, '@there': there, '@rt': rt, 'strings': BVV(0)})
            X.bounds = []
            X.loop_events = {'error-status'}
        X.setup = setup
        X.on_indirect = call_code

        def cands(X, fr):
            out = []
            c = [e for e in fr['state'].events if e[0] == 'call']
            if c and isinstance(c[-1][3], list):
                n = c[-1][3][1]
                for k, v in fr['init'].items():
                    if isinstance(v, z3.BitVecRef) and v.size() in (32, 64):
                        nn = z3.ZeroExt(v.size() - n.size(), n) if v.size() > n.size() else n
                        out.append(('%s <= length' % k, lambda x, k=k, nn=nn: z3.ULE(x[k], nn)))
            return out
        X.extra_cands = cands

        def ret(X, st, _):
            g = st.ghost
            v = g['@v']
            ok = status_ok(X, st, v['result_status'])
            ev = st.events
            calls = [e for e in ev if e[0] == 'call']
            if not calls:
                X.oblige(st, 'post', 'code is called unless there is none or its type is unknown', z3.Or(z3.Not(g['@there']), z3.Not(valid_type(X, g['@rt'])) if typed else FALSE))
                X.oblige(st, 'post', 'an execution without a call fails', z3.Not(ok))
                return
            X.oblige(st, 'post', 'the code is called once', BOOL(len(calls) == 1))
            _, target, args, val = calls[0]
            ctx = simp(args[1])
            at = ev.index(calls[0])
            X.oblige(st, 'post', 'only compiled code is called', z3.And(g['@there'], target == g['@entry'], target != 0))
            X.oblige(st, 'post', 'the code gets the arguments of the caller', BOOL(len(args) == 3) if len(args) != 3 else args[0] == v['entry_arguments'])
            X.oblige(st, 'post', 'the code gets the result of the caller', args[2] == (BVV(0) if typed else v['result']))
            bad = g['@err']
            X.oblige(st, 'post', 'the execution succeeds exactly if no error was recorded', ok == z3.Not(bad))
            msg = [n for n, e in enumerate(ev) if e[0] == 'message']
            if X.must(st, bad):
                src = [n for n, e in enumerate(ev) if e[0] == 'status-of']
                good = len(msg) >= 1 and len(src) >= 1 and at < msg[-1] < src[-1] and z3.eq(ev[msg[-1]][1], ev[src[-1]][1]) and z3.eq(ev[msg[-1]][2], ctx)
                X.oblige(st, 'post', 'the status carries the messages of this context', BOOL(good))
                if good:
                    o = [e for e in ev[at:msg[-1]] if e[0] in ('clear', 'ctx-del')]
                    X.oblige(st, 'post', 'the messages are taken before the context is cleared', BOOL(not o))
            else:
                X.oblige(st, 'post', 'nothing is reported without an error', z3.Not(bad))
            ends = [n for n, e in enumerate(ev) if e[0] in ('clear', 'ctx-del') and z3.eq(e[1], ctx) and n > at]
            if own:
                X.oblige(st, 'post', 'the context is of this execution only', BOOL(sum(e[0] == 'ctx-new' for e in ev) == 1 and z3.eq(ctx, [e for e in ev if e[0] == 'ctx-new'][0][1])))
            else:
                X.oblige(st, 'post', 'the code gets the context of the caller', ctx == v['ctx'])
                b, e = errs(X, st, v['ctx'])
                X.oblige(st, 'post', 'the context holds no errors afterwards', b == e)
                X.oblige(st, 'post', 'the context is cleared', BOOL(len(ends) >= 1))
            if typed:
                asg = [(n, e) for n, e in enumerate(ev) if e[0] == 'assign']
                if not asg:
                    X.oblige(st, 'post', 'a value is delivered unless the type is void', g['@rt'] == L['ValueType.kVoid'])
                    return
                n, (_, dst, kind, how, got, t, src) = asg[-1]
                X.oblige(st, 'post', 'one value is delivered', BOOL(len(asg) == 1))
                X.oblige(st, 'post', 'the value goes to the result of the caller', dst == v['result'])
                X.oblige(st, 'post', 'the value has the type of the program', g['@rt'] == L['ValueType.' + kind])
                X.oblige(st, 'post', 'the value is copied before the context is cleared', BOOL(all(n < m for m in ends)))
                if got is None:
                    X.oblige(st, 'post', 'the value is the one the code returned', FALSE)
                elif how == 'scalar':
                    X.oblige(st, 'post', 'the value is the one the code returned', got == val if not isinstance(val, list) and val is not None and val.size() == got.size() else FALSE)
                elif how == 'string':
                    X.oblige(st, 'post', 'the value is the one the code returned', z3.And(got[0] == val[0], got[1] == z64(val[1])))
                elif how == 'list':
                    el = t[len('std::vector<'):t.index(',')]
                    X.oblige(st, 'post', 'the value is the one the code returned', z3.And(got[0] == val[0], got[1] == val[0] + z64(val[1]) * SIZE[el]))
                else:
                    X.oblige(st, 'post', 'all strings of the list are delivered', z3.And(got[0] == z64(val[1]), BOOL(got[1] is None or z3.eq(got[1], src))))
        X.on_ret = ret
    return spec


def BOOL(x):
    return TRUE if x else FALSE


# ------------------------------------------------ ExecContext
def ctx_setup(X, st, names):
    L = X.layout
    ids = [x['id'] for x in X.fn['args']]
    v = {n: X.fresh(n) for n in names}
    for i, n in zip(ids, names):
        st.env[i] = v[n]
    m, b = X.fresh('m'), X.fresh('errors')
    reg = [('ctx', v['this'], BVV(L['sizeof ExecContext']), True), ('errors', b, simp(m * 32), False)]
    if 'out' in v:
        reg.append(('out', v['out'], BVV(32), True))
    for r in reg:
        st.path.append(z3.And(z3.ULT(r[1], BVV(BIG)), z3.ULT(r[2], BVV(BIG)), r[1] & 7 == 0))
    for i, r in enumerate(reg):
        for q in reg[:i]:
            st.path.append(z3.Or(z3.ULE(r[1] + r[2], q[1]), z3.ULE(q[1] + q[2], r[1])))
    st.path.append(z3.ULT(m, BVV(1 << 40)))
    st.regions += reg
    o = simp(v['this'] + L['ExecContext.errors'])
    st.path += [X.hread(st, o, 8, 'ctx') == b, X.hread(st, simp(o + 8), 8, 'ctx') == b + m * 32]
    st.ghost.update({'@v': v, '@b': b, '@m': m})
    X.bounds = [m, simp(m * 32)]
    X.strides = [32]


def spec_clear(X):
    X.setup = lambda X, st: ctx_setup(X, st, ['this'])

    def ret(X, st, _):
        L, v = X.layout, st.ghost['@v']
        X.oblige(st, 'post', 'the arena is reset', BOOL([1 for e in st.events if e[0] == 'reset']))
        X.oblige(st, 'post', 'the errors are cleared', BOOL([1 for e in st.events if e[0] == 'cleared']))
    X.on_ret = ret


def h_reset(X, st, ins, a):
    X.oblige(st, 'call', 'the arena of this context is reset', a[0] == st.ghost['@v']['this'] + X.layout['ExecContext.arena'])
    st.events.append(('reset',))


def h_cleared(X, st, ins, a):
    X.oblige(st, 'call', 'the errors of this context are cleared', a[0] == st.ghost['@v']['this'] + X.layout['ExecContext.errors'])
    st.events.append(('cleared',))


def h_plus(X, st, ins, a):
    g = st.ghost
    if 'char const*' in ins['dn']:
        return a[0]      # a separator
    X.oblige(st, 'call', 'the message is collected in the result', a[0] == g['@v']['out'])
    X.oblige(st, 'call', 'the next error is appended', z3.And(z3.ULT(g['done'], g['@m']), a[1] == g['@b'] + g['done'] * 32))
    g['done'] = g['done'] + 1
    return a[0]


def spec_message(X):
    def setup(X, st):
        ctx_setup(X, st, ['out', 'this'])
        st.ghost['done'] = BVV(0)
    X.setup = setup

    def ret(X, st, _):
        X.oblige(st, 'post', 'every error is part of the message', st.ghost['done'] == st.ghost['@m'])
    X.on_ret = ret
    X.extra_cands = lambda X, fr: [('%s within the errors' % k, lambda x, k=k: z3.And(z3.ULE(fr['ghost0']['@b'], x[k]), z3.ULE(x[k], fr['ghost0']['@b'] + fr['ghost0']['@m'] * 32)))
                                   for k, v in fr['init'].items() if isinstance(v, z3.BitVecRef) and v.size() == 64] + \
        [('%s at the next error' % k, lambda x, k=k: x[k] == fr['ghost0']['@b'] + x['ghost:done'] * 32)
         for k, v in fr['init'].items() if isinstance(v, z3.BitVecRef) and v.size() == 64 and 'ghost:done' in fr['init']] + \
        [('%s counts' % k, lambda x, k=k: x[k] == x['ghost:done'])
         for k, v in fr['init'].items() if isinstance(v, z3.BitVecRef) and v.size() == 64 and k.startswith('phi') and 'ghost:done' in fr['init']] + \
        [('all %s' % k, lambda x, k=k: z3.ULE(x[k], fr['ghost0']['@m'])) for k, v in fr['init'].items() if isinstance(v, z3.BitVecRef) and v.size() == 64]


# ------------------------------------------------ ExecuteAll
def h_tostring(X, st, ins, a):
    n = X.fresh('length')
    st.path += [n != 0, z3.ULT(n, BVV(1 << 30))]
    X.store(st, simp(a[0] + 8), n)
    X.trusted.add('Status::ToString of a failed status is not empty')


def h_str0(X, st, ins, a):
    X.store(st, simp(a[0] + 8), BVV(0))


def h_append(X, st, ins, a):
    n = X.load(st, simp(a[0] + 8), 8)
    if 'char const*' in ins['dn']:
        k = X.fresh('length')
        st.path += [z3.ULT(k, BVV(1 << 30))]
    else:
        k = X.load(st, simp(a[1] + 8), 8)
    m = X.fresh('length')
    # a string longer than 2^62 bytes is memory exhaustion
    st.path += [m == n + k, z3.UGE(m, n), z3.UGE(m, k)]
    X.store(st, simp(a[0] + 8), m)
    X.trusted.add('std::string += makes the string longer by the appended bytes')
    return a[0]


def h_at(X, st, ins, a):
    """ExecuteAt(i, ...): contract proved as the ExecuteAt units"""
    g = st.ghost
    own = 'ExecContext&' not in ins['dn']
    v = g['@v']
    i = g['done']
    X.oblige(st, 'call', 'every program is executed in order', z3.And(a[1] == v['this'], a[2] == i))
    X.oblige(st, 'call', 'the same kind of context', BOOL(own == ('ctx' not in v)))
    rest = a[3:]
    if not own:
        X.oblige(st, 'call', 'the context of the caller is used', rest[0] == v['ctx'])
        rest = rest[1:]
    X.oblige(st, 'call', 'the arguments of the caller are used', rest[0] == v['entry_arguments'])
    if 'variant' in ins['dn'].split('ExecuteAt')[1]:
        X.oblige(st, 'call', 'the value goes to its own place', rest[1] == g['@out'] + i * X.layout['sizeof std::variant']) if False else \
            X.oblige(st, 'call', 'the value goes to its own place', z3.And(BOOL('@out' in g), rest[1] == g.get('@out', BVV(0)) + i * X.layout['sizeof RetType']))
    else:
        X.oblige(st, 'call', 'the result of the caller is used', rest[1] == v['results'])
    g['done'] = i + 1
    if not own:
        g['errors'] = BVV(0)

    def good(s):
        X.store(s, simp(a[0]), BVV(0))

    def bad(s):
        # the state object is the caller's business only: it is asked for its text and released
        p = X.fresh('state')
        s.path.append(p != 0)
        X.store(s, simp(a[0]), p)
        r = ('statusx%d' % len(s.regions), p, BVV(X.layout['sizeof Status::State']), True)
        s.path += [z3.ULT(p, BVV(BIG)), p & 7 == 0]
        for _, b, n, _w in s.regions:
            s.path.append(z3.Or(z3.ULE(p + r[2], b), z3.ULE(b + n, p)))
        s.regions.append(r)
        s.path.append(X.hread(s, simp(p + X.layout['Status::State.code_']), 1, r[0]) != 0)
        s.ghost['failed'] = BVV(1)
    return Forks([(TRUE, good), (TRUE, bad)])


def h_results(X, st, ins, a):
    g = st.ghost
    X.oblige(st, 'call', 'one result per program', z3.And(a[0] == g['@v']['results'], a[1] == g['@n']))
    p = X.fresh('values')
    st.path += [z3.ULT(p, BVV(BIG)), p & 7 == 0]
    X.store(st, simp(a[0]), p)
    X.store(st, simp(a[0] + 8), simp(p + a[1] * X.layout['sizeof RetType']))
    g['@out'] = p
    X.trusted.add('std::vector<RetType>::resize(n) provides n values')


def spec_all(own, typed):
    def spec(X):
        L = X.layout

        def setup(X, st):
            ids = [x['id'] for x in X.fn['args']]
            names = ['result_status', 'this'] + ([] if own else ['ctx']) + ['entry_arguments', 'results']
            v = {n: X.fresh(n) for n in names}
            for i, n in zip(ids, names):
                st.env[i] = v[n]
            ps, n = X.fresh('entries'), X.fresh('n')
            reg = [('result_status', v['result_status'], BVV(8), True), ('this', v['this'], BVV(L['sizeof BatchExecEngine']), False), ('entries', ps, simp(n * 8), False)]
            if not own:
                reg.append(('ctx', v['ctx'], BVV(L['sizeof ExecContext']), False))
            if typed:
                reg.append(('results', v['results'], BVV(24), True))
            for r in reg:
                st.path.append(z3.And(r[1] != 0, z3.ULT(r[1], BVV(BIG)), z3.ULT(r[2], BVV(BIG)), r[1] & 7 == 0))
            for i, r in enumerate(reg):
                for q in reg[:i]:
                    st.path.append(z3.Or(z3.ULE(r[1] + r[2], q[1]), z3.ULE(q[1] + q[2], r[1])))
            st.path.append(z3.ULT(n, BVV(1 << 40)))
            st.regions += reg
            e = L['BatchExecEngine.entry_func_ptrs_']
            st.path += [X.hread(st, simp(v['this'] + e), 8, 'this') == ps, X.hread(st, simp(v['this'] + e + 8), 8, 'this') == ps + n * 8]
            if not own:
                st.path.append(X.hread(st, simp(v['ctx'] + L['ExecContext.errors']), 8, 'ctx') == X.hread(st, simp(v['ctx'] + L['ExecContext.errors'] + 8), 8, 'ctx'))
            st.ghost.update({'@v': v, '@n': n, 'done': BVV(0), 'failed': BVV(0), 'errors': BVV(0)})
            X.bounds = [n]
            X.strides = [8]
            X.loop_events = {'error-status', 'status-of'}
        X.setup = setup

        def cands(X, fr):
            out = []
            for k, v in fr['init'].items():
                if isinstance(v, z3.BitVecRef) and v.size() == 64 and not k.startswith('ghost:'):
                    if 'ghost:failed' in fr['init']:
                        out.append(('%s tells of failures' % k, lambda x, k=k: (x[k] == 0) == (x['ghost:failed'] == 0)))
                    if 'ghost:done' in fr['init']:
                        out.append(('%s counts' % k, lambda x, k=k: x[k] == x['ghost:done']))
            if 'ghost:done' in fr['init']:
                out.append(('within', lambda x: z3.ULE(x['ghost:done'], fr['ghost0']['@n'])))
            return out
        X.extra_cands = cands

        def ret(X, st, _):
            g, v = st.ghost, st.ghost['@v']
            ok = status_ok(X, st, v['result_status'])
            X.oblige(st, 'post', 'success means that programs are there and none failed', ok == z3.And(g['@n'] != 0, g['failed'] == 0))
            X.oblige(st, 'post', 'every program is executed', g['done'] == g['@n'])
            if not own:
                # ExecuteAt leaves a context without errors; ExecuteAll itself may not write to it (the region is read-only here)
                X.oblige(st, 'post', 'the context holds no errors afterwards', g['errors'] == 0)
        X.on_ret = ret
    return spec


def h_status_plain(X, st, ins, a):
    h_status_err(X, st, ins, a)


ALL = [(r'BatchExecEngine::ExecuteAt\(', h_at), (r'Status::ToString', h_tostring), (r'::operator\+=\(', h_append), (r'^std::vector<std::variant.*>::resize\(', h_results), (r'::~basic_string\(', h_nop), (r'::basic_string\(\)', h_str0)]
CTX = [(r'^jitfusion::Arena::Reset\(', h_reset), (r'::clear\(', h_cleared), (r'::operator\+=\(', h_plus), (r'::~basic_string\(', h_nop), (r'::basic_string\(\)', h_str0)]
E, B = 'src/exec_engine.cc', 'src/batch_exec_engine.cc'
UNITS = []
for own in (True, False):
    for typed in (True, False):
        sig = ('' if own else 'jitfusion::ExecContext&, ') + 'void*, ' + ('std::variant' if typed else r'void\*\)').replace('*', '*')
        rx = sig.replace('void*,', r'void\*,')
        nm = '(%s%s)' % ('' if own else 'ExecContext&, ', 'RetType*' if typed else 'void*')
        UNITS.append({'name': 'ExecEngine::Execute' + nm, 'file': E, 'rx': r'^jitfusion::ExecEngine::Execute\(' + rx, 'handlers': HANDLERS, 'spec': spec_exec(False, own, typed)})
        UNITS.append({'name': 'BatchExecEngine::ExecuteAt' + nm, 'file': B, 'rx': r'^jitfusion::BatchExecEngine::ExecuteAt\(unsigned long, ' + rx, 'handlers': HANDLERS, 'spec': spec_exec(True, own, typed)})
        UNITS.append({'name': 'BatchExecEngine::ExecuteAll' + nm, 'file': B, 'rx': r'^jitfusion::BatchExecEngine::ExecuteAll\(' + rx.replace('std::variant', 'std::vector'), 'handlers': ALL, 'spec': spec_all(own, typed)})
UNITS += [{'name': 'ExecContext::Clear', 'file': E, 'rx': r'^jitfusion::ExecContext::Clear\(', 'handlers': CTX, 'spec': spec_clear},
          {'name': 'ExecContext::GetErrorMessage', 'file': E, 'rx': r'^jitfusion::ExecContext::GetErrorMessage', 'handlers': CTX, 'spec': spec_message}]
