"""Units of work for contracts on registered C functions."""
import importlib, json, os, re, time
import build, check, kernel, replay
from smt import Unsupported

HERE = os.path.dirname(os.path.abspath(__file__))
INV = os.path.join(HERE, 'specs', 'invariants.json')
_inv = None

SAFETY = ('bounds', 'frame', 'arith', 'unreachable', 'align', 'lemma', 'vacuity')


def committed():
    global _inv
    if _inv is None:
        try:
            _inv = json.load(open(INV))
        except OSError:
            _inv = {}
    return _inv


def make(kc_args, timeout, log=None):
    sym, fn, mod, reg, specmod = kc_args
    m = importlib.import_module('specs.' + specmod)
    c = m.contract(reg)
    return kernel.KernelCheck(fn, mod, reg, c, getattr(m, 'boundary', lambda: None)(), timeout, log), c


def kernel_unit(shared, kc_args, cfg):
    """cfg: so, seed, tier, safety (bool), deadline, timeout, use_hints"""
    t0 = time.time()
    reg = kc_args[3]
    kc, con = make(kc_args, cfg['timeout'])
    kc.safety = cfg.get('safety', False)
    out = {'unit': reg.sig(), 'sym': kc_args[0], 'mode': 'proved', 'spec': kc_args[4], 'safety': kc.safety}
    models = []
    seconds = cfg.get('search_s', 6.0)
    # a function without a checkable result of its own is executed together with its partner
    xreg, xcon = con.replay_as() if hasattr(con, 'replay_as') else (reg, con)

    def look(sec):
        try:
            return replay.search(cfg['so'], xreg, xcon, [] if xreg is not reg else models, sec, cfg['seed'],
                                 memory=kc.safety)
        except Exception as ex:
            return {'error': repr(ex)}

    def finish(r, found=None):
        d = r.as_dict()
        d.pop('name', None)
        out.update(d)
        out['fp'] = getattr(kc, 'fingerprint', None)
        out['found'] = found
        out['wall'] = round(time.time() - t0, 2)
        out['reg'] = [xreg.name, xreg.params, xreg.ret, xreg.needs_ctx]
        if r.status == 'proved' and kc.cands:
            out['alive'] = [c.name for c in kc.cands if c.alive]
        return out

    r = kc.guarded(kc.prepare)
    if r.status:
        f = look(seconds)
        return finish(r, f)
    key = ('S:' if kc.safety else '') + kc.fingerprint
    hints = []
    if cfg.get('use_hints', True):
        h = committed().get(key)
        if h is not None:
            hints.append(h)
    h = (shared or {}).get(key)
    if h is not None and h not in hints:
        hints.append(h)
    tried = False
    for h in hints:
        r = kc.guarded(kc.attempt, set(h), cfg['deadline'], True)
        out['hint'] = True
        if r.status == 'proved':
            return finish(r)
        if r.status == 'error':
            break
        m = replay.model_args(reg, r.inputs)
        if m is not None:
            models.append(m)
        if not tried:
            tried = True
            f = look(seconds)
            if f and 'args' in f:
                return finish(r, f)
    if r.status != 'error' and (kc.cands or not hints):
        out['hint'] = False
        r = kc.guarded(kc.attempt, None, cfg['deadline'])
        if r.status == 'proved':
            return finish(r)
        m = replay.model_args(reg, r.inputs)
        if m is not None:
            models.append(m)
    f = look(seconds * (1 if tried else 1.5))
    return finish(r, f)


def bounded_unit(shared, kc_args, cfg):
    """stand-in for a function outside the verifier's reach: the contract is only compared on generated operands"""
    t0 = time.time()
    reg = kc_args[3]
    m = importlib.import_module('specs.' + kc_args[4])
    con = m.contract(reg)
    out = {'unit': reg.sig(), 'sym': kc_args[0], 'mode': 'bounded', 'spec': kc_args[4], 'obligations': 0, 'safety': cfg.get('safety', False),
           'discharged': 0, 'failed': [], 'reg': [reg.name, reg.params, reg.ret, reg.needs_ctx]}
    f = replay.search(cfg['so'], reg, con, (), cfg.get('bounded_s', 3.0), cfg['seed'], stats=out,
                      memory=cfg.get('safety', False))
    out['found'] = f
    out['status'] = 'refuted' if f and 'args' in f else 'error' if f else 'bounded-ok'
    if f:
        out['failed'] = [('bounded', 'contract compared on generated operands', 'refuted')]
    out['wall'] = round(time.time() - t0, 2)
    return out


def learn_unit(shared, kc_args, cfg):
    """full inference, then a small set of invariants that still carries the proof"""
    reg = kc_args[3]
    kc, con = make(kc_args, cfg['timeout'])
    kc.safety = cfg.get('safety', False)
    r = kc.guarded(kc.prepare)
    if r.status:
        return {'unit': reg.sig(), 'status': r.status, 'note': r.note}
    key = ('S:' if kc.safety else '') + kc.fingerprint
    if not kc.cands:
        return {'unit': reg.sig(), 'key': key, 'names': [], 'status': 'none'}
    if key in (shared or {}) or key in committed():
        h = (shared or {}).get(key) or committed()[key]
        r = kc.guarded(kc.attempt, set(h))
        if r.status == 'proved':
            return {'unit': reg.sig(), 'key': key, 'names': h, 'status': 'known'}
    r = kc.guarded(kc.attempt, None)
    if r.status != 'proved':
        return {'unit': reg.sig(), 'status': r.status, 'note': r.note, 'failed': r.failed}
    names = [c.name for c in kc.cands if c.alive]

    def fam(n):
        a, o = n.split('#')
        p = a.rsplit('.', 1)
        return (p[0] if len(p) == 2 and p[1].isdigit() else a) + '#' + o
    t0 = time.time()
    fams = {}
    for n in names:
        fams.setdefault(fam(n), []).append(n)
    cur = set(names)

    def ok(s):
        return kc.guarded(kc.attempt, s, time.time() + 240, True).status == 'proved'
    # whole groups of families first, then one by one
    def shrink(fs):
        nonlocal cur
        if not fs or time.time() - t0 > cfg.get('learn_s', 500):
            return
        rm = set(n for f in fs for n in fams[f])
        if ok(cur - rm):
            cur = cur - rm
            return
        if len(fs) == 1:
            return
        shrink(fs[:len(fs) // 2])
        shrink(fs[len(fs) // 2:])
    order = sorted(fams, key=lambda f: (-len(fams[f]), f))
    n = len(order)
    for i in range(0, n, 4):
        shrink(order[i:i + 4])
    return {'unit': reg.sig(), 'key': key, 'names': [n for n in names if n in cur], 'status': 'learned', 'of': len(names)}


def jobs(b, regs, specmod, filt=None):
    out = []
    for sym, fn, mod, reg, sm, to, v in check.jobs_for(b, regs, specmod, 5000, filt):
        out.append((sym, fn, mod, reg, sm))
    m = importlib.import_module('specs.' + specmod)
    if hasattr(m, 'extra'):
        out += [j for j in m.extra(b, regs) if not filt or re.search(filt, j[3].sig())]
    return out
