"""Runs the contract checks of one property over every registered function it covers."""
import sys, os, json, time, subprocess, importlib, tempfile, re
from multiprocessing import Pool
import build, registry
import kernel

MODS = {}


def extract(b, groups):
    """groups: {relpath: [symbols]} -> {symbol: (fn, module)}; runs irdump on each source's bitcode in parallel"""
    out = {}
    procs = []
    bnd = os.path.join(build.BUILD, 'boundary.%d.txt' % os.getpid())
    with open(bnd, 'w') as f:
        f.write('\n'.join(kernel.BOUNDARY_RX) + '\n')
    for rel, syms in groups.items():
        base = os.path.join(build.BUILD, 'ir.%d.%s' % (os.getpid(), build.bc_name(build.REPO + '/' + rel)))
        with open(base + '.keep', 'w') as f:
            f.write('\n'.join(syms) + '\n')
        procs.append((rel, base, subprocess.Popen([b['irdump'], b['bc'][rel], base + '.json', base + '.keep', bnd],
                                                  stderr=subprocess.PIPE)))
    for rel, base, p in procs:
        err = p.communicate()[1]
        if p.returncode:
            raise build.BuildError('irdump %s: %s' % (rel, err.decode()[-2000:]))
        mod = json.load(open(base + '.json'))
        for x in ('.json', '.keep'):
            os.unlink(base + x)
        for f in mod['functions']:
            out[f['name']] = (f, mod)
    os.unlink(bnd)
    return out


def locate(b, syms):
    """which source's bitcode defines each symbol"""
    out = {}
    nm = '/usr/lib/llvm-19/bin/llvm-nm'
    if not os.path.exists(nm):
        nm = 'llvm-nm-18'
    for rel, bc in b['bc'].items():
        for l in subprocess.run([nm, '--defined-only', bc], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                text=True).stdout.splitlines():
            f = l.split()
            if len(f) >= 2 and f[-1] in syms and f[-2] in 'tTwW':
                out.setdefault(f[-1], rel)
    return out


def work(job):
    import contextlib
    sym, fn, mod, reg, specmod, timeout, verbose = job
    m = importlib.import_module('specs.' + specmod)
    c = m.contract(reg)
    kc = kernel.KernelCheck(fn, mod, reg, c, getattr(m, 'boundary', lambda: None)(), timeout,
                            (lambda *a: print(*a)) if verbose else None)
    r = kc.run()
    d = r.as_dict()
    d['sig'] = reg.sig()
    return d


def jobs_for(b, regs, specmod, timeout=5000, filt=None, verbose=False):
    m = importlib.import_module('specs.' + specmod)
    todo = {}
    for r in regs:
        if m.contract(r) is None or r.sym is None:
            continue
        if filt and not re.search(filt, r.sig()):
            continue
        k = (r.sym, tuple(r.params) if r.needs_ctx else tuple(r.params[:-1]) if r.params and r.params[-1] == 'ptr' else tuple(r.params))
        # same symbol registered with and without the explicit context: one proof covers both
        if k in todo and not todo[k].needs_ctx:
            continue
        todo[k] = r
    loc = locate(b, {k[0] for k in todo})
    groups = {}
    for (s, _) in todo:
        groups.setdefault(loc[s], []).append(s)
    ir = extract(b, groups)
    jobs = []
    for (s, _), r in todo.items():
        fn, mod = ir[s]
        jobs.append((s, fn, {'globals': mod['globals']}, r, specmod, timeout, verbose))
    return jobs


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    specmod = sys.argv[1]
    filt = sys.argv[2] if len(sys.argv) > 2 else None
    t = time.time()
    b = build.build_all()
    regs = registry.enumerate_registry(b['so'])
    jobs = jobs_for(b, regs, specmod, 5000, filt, verbose='-v' in sys.argv)
    print(len(jobs), 'jobs', round(time.time() - t, 1))
    t = time.time()
    if '-v' in sys.argv:
        rs = [work(j) for j in jobs]
    else:
        with Pool(8) as p:
            rs = p.map(work, jobs, chunksize=1)
    from collections import Counter
    print(Counter(r['status'] for r in rs), round(time.time() - t, 1), 's; max', max(r['wall'] for r in rs),
          'obl', sum(r['obligations'] for r in rs))
    for r in rs:
        if r['status'] != 'proved':
            print(r['sig'], r['status'], r['note'][-1200:], r['failed'][:4], r['wall'])
