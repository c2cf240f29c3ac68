"""Entry point of every check:  run.py <PROPERTY> [--tier quick|thorough]
                             run.py replay <file>
                             run.py learn <spec> [regex]      (rewrites specs/invariants.json)"""
import importlib, json, os, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, registry, sched, kunits

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known-findings.txt')

TRUST = [
    'clang 18 front end and the LLVM 19 clean-up passes irdump runs (sroa, instcombine, simplifycfg, early-cse, jump-threading, adce, loop-simplify); /repo itself is built with g++',
    'z3 and this directory\'s VC generator',
    'signed overflow, nsw/nuw/inbounds flags are read as wrapping (no obligation is derived from them); termination is not proved',
    'exceptions are dropped (-fno-exceptions); allocation does not fail',
]


def known():
    """lines: 'KNOWN property=<id> unit=<signature> :: what' suppress; 'fixed: ...' lines suppress nothing"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'KNOWN property=(\S+) unit=(\S+) :: (.*)', l)
            if m:
                out.append((m.group(1), m.group(2), m.group(3).strip()))
    return out


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.results = []
        self.errors = []
        self.deadline = self.t0 + (600 if tier == 'quick' else 3600)
        self.notes = []
        self.trust = set(TRUST)

    def cfg(self, **kw):
        d = dict(so=self.b['so'], seed=self.seed, tier=self.tier, deadline=self.deadline - 40,
                 timeout=5000 if self.tier == 'quick' else 20000, use_hints=self.tier == 'quick',
                 search_s=5.0 if self.tier == 'quick' else 20.0, bounded_s=2.0 if self.tier == 'quick' else 20.0)
        d.update(kw)
        return d

    def go(self):
        self.b = build.build_all()
        self.regs = registry.enumerate_registry(self.b['so'])
        mod = importlib.import_module('checks')
        plan = mod.PLANS[self.prop]
        jobs = []
        for p in plan:
            jobs += p(self)
        import multiprocessing
        shared = {}
        confirmed = [0]

        def on(job, res, err):
            if res is None:
                res = {'unit': job.name, 'status': 'error', 'mode': 'proved', 'obligations': 1, 'discharged': 0,
                       'failed': [('error', 'the checker could not finish', 'error')], 'note': err, 'found': None}
            rs = res if isinstance(res, list) else [res]
            for r in rs:
                if r.get('alive') and r.get('hint') is False:
                    shared.setdefault(('S:' if r.get('safety') else '') + r['fp'], r['alive'])
                self.results.append(r)
                f = r.get('found')
                if f and 'args' in f and not self.is_known(r):
                    confirmed[0] += 1
                if os.environ.get('JF_VERBOSE'):
                    print(r['unit'], r['status'], r.get('wall'), r.get('note', '')[-600:], r.get('failed', [])[:3],
                          (f or {}).get('what', (f or {}).get('error')), flush=True)
            return confirmed[0] >= 3
        self.njobs = len(jobs)
        sched.run(jobs, on, shared, 8, self.deadline)
        return self.finish()

    def is_known(self, r):
        return any(p == self.prop and u == r['unit'] for p, u, w in known())

    def finish(self):
        os.makedirs(EVID + '/replay', exist_ok=True)
        lines, bad = [], []
        for r in self.results:
            if r['status'] in ('proved', 'bounded-ok', 'info'):
                continue
            k = [w for p, u, w in known() if p == self.prop and u == r['unit']]
            if k:
                lines.append('KNOWN-FINDING: property=%s %s: %s' % (self.prop, r['unit'], k[0]))
                continue
            bad.append(r)
        conf = [r for r in bad if r.get('found') and 'args' in r['found']]
        rest = [r for r in bad if r not in conf]
        report = conf if conf else rest
        for n, r in enumerate(report[:5]):
            path = os.path.join(EVID, 'replay', '%s-%d.json' % (self.prop, n))
            json.dump({'property': self.prop, 'unit': r['unit'], 'spec': r.get('spec'), 'reg': r.get('reg'),
                       'failed_obligations': r.get('failed'), 'status': r['status'], 'note': r.get('note'),
                       'verifier_model_operands': r.get('inputs'), 'found': r.get('found'), 'extra': r.get('extra'),
                       'replay_cmd': 'python3-vt jfverify/run.py replay ' + os.path.relpath(path, VERIF)},
                      open(path, 'w'), indent=1, default=str)
            why = (r['found'] or {}).get('what') if r in conf else '; '.join('%s: %s' % tuple(f[:2]) for f in (r.get('failed') or [])[:3])
            print('%s: %s [%s] %s' % (self.prop, r['unit'], why, (r.get('note') or '')[-300:].replace('\n', ' ')))
            lines.append('VIOLATION property=%s replay=%s%s' % (self.prop, path, '' if r in conf else ' no-failing-input-found'))
        self.evidence(len(bad))
        pv = [r for r in self.results if r['mode'] == 'proved']
        print('%s: %d/%d units proved, %d bounded, %d/%d obligations discharged, %.1f s' % (
            self.prop, sum(r['status'] == 'proved' for r in pv), len(pv), sum(r['mode'] == 'bounded' for r in self.results),
            sum(r.get('discharged', 0) for r in pv), sum(r.get('obligations', 0) for r in pv), time.time() - self.t0))
        for l in lines:
            print(l)
        return 1 if bad else 0

    def evidence(self, nbad):
        pv = [r for r in self.results if r['mode'] == 'proved']
        bd = [r for r in self.results if r['mode'] == 'bounded']
        trust = set(self.trust)
        for r in pv:
            trust.update('assumed contract: ' + t for t in r.get('trusted', []))
        cov = {
            'obligations': sum(r.get('obligations', 0) for r in pv),
            'discharged': sum(r.get('discharged', 0) for r in pv),
            'checker_cmd': 'python3-vt jfverify/run.py %s --tier %s' % (self.prop, self.tier),
            'trusted_base': sorted(trust),
            'back_end': 'z3 %s (python API; default, bit-blasting and simple solver configurations in turn)' % z3v(),
            'functions_under_contract': len(pv),
            'functions_proved': sum(r['status'] == 'proved' for r in pv),
            'functions': sorted({r['unit'] for r in pv}),
            'loop_invariants_used': sum(r.get('invariants', 0) for r in pv),
            'solver_queries': sum(r.get('queries', 0) for r in pv),
            'solver_s': round(sum(r.get('solver_s', 0) for r in pv), 2),
            'proved_with_committed_invariants': sum(1 for r in pv if r.get('hint')),
            'notes': self.notes,
        }
        bk = [r for r in bd if r.get('spec') != 'emit']
        if bk:
            cov['bounded_not_proved'] = {
                'functions': sorted({r['unit'] for r in bk}),
                'executions': sum(r.get('executions', 0) for r in bk),
                'bound': '; '.join(sorted({r['sample'] if r.get('flat') else 'generated operands, lists up to 129 elements (40 for string lists)' for r in bk if r.get('sample')})),
                'sample': next((r['sample'] for r in bk if r.get('sample')), None),
            }
        em = [r for r in self.results if r.get('spec') == 'emit']
        if em:
            self.emit_evidence(cov, em, pv, bd)
        if nbad:
            cov['failed'] = [{'unit': r['unit'], 'status': r['status'], 'failed': r.get('failed', [])[:5]}
                             for r in self.results if r['status'] not in ('proved', 'bounded-ok', 'info')][:50]
        json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed,
                   'level': 'translation_validation' if em and len(em) == len(self.results) else 'proof', 'coverage': cov,
                   'assumptions': sorted(trust), 'wall_s': round(time.time() - self.t0, 2), 'violations': nbad},
                  open(os.path.join(EVID, self.prop + '.json'), 'w'), indent=1, default=str)


    def emit_evidence(self, cov, em, pv, bd):
        k = [r for r in pv if r.get('spec') != 'emit']
        cov['functions_under_contract'] = len(k)
        cov['functions_proved'] = sum(r['status'] == 'proved' for r in k)
        cov['functions'] = sorted({r['unit'] for r in k})
        groups = {}
        for r in em:
            g = groups.setdefault(re.match(r'\S+', r['unit']).group(0), [0, 0, 0])
            g[0] += 1
            g[1] += r['status'] == 'proved'
            g[2] += bool(r.get('rejection'))
        cov['programs'] = len(em)
        cov['programs_proved'] = sum(r['status'] == 'proved' and not r.get('rejection') for r in em)
        cov['programs_refused_as_the_type_rules_demand'] = sum(r['status'] == 'proved' and bool(r.get('rejection')) for r in em)
        cov['programs_of_generated_shape'] = sum(r['mode'] == 'bounded' for r in em)
        cov['programs_by_kind'] = {g: {'programs': a, 'as_specified': b, 'refusals': c} for g, (a, b, c) in sorted(groups.items())}
        cov['disagreements_checked'] = sum(len(r['failed']) > 0 for r in em)
        step = max(1, len(em) // 5)
        cov['samples'] = [{'program': r['prog'], 'obligations': r['obligations'], 'status': r['status']} for r in em[::step][:6]]
        cov['obligations_on_generated_shapes'] = sum(r['obligations'] for r in em if r['mode'] == 'bounded')
        cov['discharged_on_generated_shapes'] = sum(r['discharged'] for r in em if r['mode'] == 'bounded')


def z3v():
    import z3
    return z3.get_version_string()


def replay_file(path):
    d = json.load(open(path))
    f = d.get('found')
    if not f or 'args' not in f:
        print(json.dumps(d, indent=1))
        return 0
    b = build.build_all()
    if not d.get('reg'):
        mod = importlib.import_module('checks')
        return mod.replay_other(d, b)
    import replay
    regs = registry.enumerate_registry(b['so'])
    if d['reg'][0] == 'ListLookupIndex':
        # two registered functions executed one after the other
        r = registry.Reg()
        (r.name, r.params, r.ret, r.needs_ctx), r.kind = d['reg'], 2
        regs.append(r)
    for r in regs:
        if [r.name, r.params, r.ret, r.needs_ctx] == d['reg']:
            con = importlib.import_module('specs.' + d['spec']).contract(r)
            x = replay.search(b['so'], r, con, only=replay.dec(f['args']), memory=d['property'] == 'C08')
            print(d['unit'], 'operands', json.dumps(f['args'])[:2000])
            print('->', x['what'] if x and 'what' in x else 'agrees with the contract')
            return 1 if x else 0
    print('no longer registered')
    return 2


def learn(spec, filt, safety):
    b = build.build_all()
    regs = registry.enumerate_registry(b['so'])
    js = kunits.jobs(b, regs, spec, filt)
    inv = kunits.committed()
    seen = {}
    cfg = dict(so=b['so'], seed=1, tier='quick', deadline=None, timeout=5000, safety=safety, learn_s=600)
    t0 = time.time()
    shared = dict(inv)

    def on(job, res, err):
        if res is None or 'names' not in res:
            print('FAIL', job.name, err, res, flush=True)
            return
        if res['status'] == 'learned':
            shared[res['key']] = res['names']
            print('%.0f' % (time.time() - t0), res['unit'], 'learned', len(res['names']), 'of', res['of'], flush=True)
            save()

    def save():
        tmp = kunits.INV + '.tmp'
        with open(tmp, 'w') as f:
            f.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(v)) for k, v in sorted(shared.items())) + '\n}\n')
        os.rename(tmp, kunits.INV)
    sched.run([sched.Job(j[3].sig(), kunits.learn_unit, (j, cfg), 1, 3000) for j in js], on, shared, 8)
    save()
    print('done', round(time.time() - t0))


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'replay':
        sys.exit(replay_file(a[1]))
    if a[0] == 'learn':
        learn(a[1], a[2] if len(a) > 2 and a[2] != '-' else None, '--safety' in a)
        sys.exit(0)
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    try:
        rc = Check(a[0], tier).go()
    except build.BuildError as ex:
        print('cannot build the code under verification: ' + str(ex)[-3000:])
        rc = 2
    sys.exit(rc)
