"""Builds, from /repo's current working tree, everything a check needs:
  - irdump (the IR extractor) and one LLVM bitcode file per source file,
  - libjf.so: the same bitcode turned into native code plus driver.cpp (registry walk, replay).
Nothing is written into /repo. Output is cached by content hash in $JF_BUILD (default /verif/build)."""
import os, sys, hashlib, subprocess, json, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('JF_REPO', '/repo')
BUILD = os.environ.get('JF_BUILD', os.path.join(os.path.dirname(HERE), 'build'))
LLC = '/usr/lib/llvm-19/bin/llvm-config'
CLANG = 'clang++-18'


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        raise BuildError('%s\n%s\n%s' % (' '.join(cmd), p.stdout[-3000:], p.stderr[-6000:]))
    return p.stdout


LINKV = 'wrap2'
_flags = {}


def llvm_flags(kind):
    if kind not in _flags:
        _flags[kind] = sh([LLC] + kind.split()).split()
    return _flags[kind]


def fhash(*paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, 'rb') as f:
            h.update(p.encode() + b'\0' + f.read())
    return h.hexdigest()[:20]


def headers():
    return sorted(glob.glob(REPO + '/include/**/*.h', recursive=True) + glob.glob(REPO + '/src/**/*.h', recursive=True))


CFLAGS = ['-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-fno-rtti', '-fPIC',
          '-DNDEBUG', '-ffp-contract=off', '-w']


def include_flags():
    return ['-I' + REPO + '/include', '-I' + REPO + '/src'] + \
        [f.replace('-I', '-isystem') if f.startswith('-I') else f
         for f in llvm_flags('--cppflags')]


def sources():
    return sorted(p for p in glob.glob(REPO + '/src/**/*.cc', recursive=True) if '/athena/' not in p)


def bc_name(src):
    return os.path.relpath(src, REPO).replace('/', '__').rsplit('.', 1)[0]


def cleanup(keep):
    """drop stale cache entries so the build folder stays small"""
    for p in glob.glob(BUILD + '/obj/*'):
        if os.path.basename(p).rsplit('.', 1)[0] not in keep:
            try:
                os.unlink(p)
            except OSError:
                pass


def compile_bc(src, hh, extra=()):
    key = bc_name(src) if src.startswith(REPO) else os.path.basename(src)
    h = hashlib.sha256((fhash(src) + hh + ' '.join(CFLAGS + list(extra))).encode()).hexdigest()[:16]
    stem = '%s.%s' % (key, h)
    out = os.path.join(BUILD, 'obj', stem + '.bc')
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        sh([CLANG] + CFLAGS + list(extra) + ['-emit-llvm', '-c', src, '-o', tmp] + include_flags())
        os.rename(tmp, out)
    return out


def native(bc):
    out = bc[:-3] + '.o'
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        sh([CLANG, '-O1', '-fPIC', '-w', '-c', bc, '-o', tmp])
        os.rename(tmp, out)
    return out


def build_irdump():
    src = os.path.join(HERE, 'irdump.cpp')
    out = os.path.join(BUILD, 'irdump.' + fhash(src))
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        sh(['g++', '-O1', '-std=c++17', '-w', src, '-o', tmp] + llvm_flags('--cppflags') + llvm_flags('--ldflags') +
           llvm_flags('--libs'))
        os.rename(tmp, out)
    return out


def compile_driver(driver, hh):
    try:
        return compile_bc(driver, hh, ('-fno-access-control',))
    except BuildError:
        # the registry's private map may have been renamed
        import re
        h = open(REPO + '/include/function_registry.h').read()
        m = re.search(r'map<\s*FunctionSignature\s*,[^;]*?>\s*(\w+)\s*(\{\s*\})?;', h)
        if not m:
            raise
        return compile_bc(driver, hh, ('-fno-access-control', '-DJF_MAP=' + m.group(1)))


def build_all(need_so=True, only=None):
    """returns dict: irdump, bc {relpath: file}, so"""
    os.makedirs(BUILD + '/obj', exist_ok=True)
    hh = fhash(*headers())
    srcs = sources()
    sel = [s for s in srcs if only is None or any(o in s for o in only)] if not need_so else srcs
    driver = os.path.join(HERE, 'driver.cpp')
    emit = os.path.join(HERE, 'emit.cpp')
    res = {}
    with ThreadPoolExecutor(8) as ex:
        fird = ex.submit(build_irdump)
        fdrv = ex.submit(compile_driver, driver, hh) if need_so else None
        femit = ex.submit(compile_bc, emit, hh) if need_so else None

        def one(s):
            bc = compile_bc(s, hh)
            if need_so:
                native(bc)
            return bc
        # biggest first
        sel = sorted(sel, key=lambda p: -os.path.getsize(p))
        futs = {s: ex.submit(one, s) for s in sel}
        res['bc'] = {os.path.relpath(s, REPO): f.result() for s, f in futs.items()}
        res['irdump'] = fird.result()
        if need_so:
            dbc = fdrv.result()
            objs = [native(dbc), native(femit.result())] + [b[:-3] + '.o' for b in res['bc'].values()]
            so = os.path.join(BUILD, 'libjf.%s.so' % hashlib.sha256(' '.join(sorted(objs) + [LINKV]).encode()).hexdigest()[:16])
            if not os.path.exists(so):
                tmp = so + '.tmp%d' % os.getpid()
                sh([CLANG, '-shared', '-o', tmp] + objs + llvm_flags('--ldflags') + llvm_flags('--libs') +
                   ['-lstdc++', '-lm', '-lpthread', '-Wl,-z,now',
                    '-Wl,--wrap=_ZN9jitfusion5Arena8AllocateEmm',
                    '-Wl,--wrap=_ZN4llvm12verifyModuleERKNS_6ModuleEPNS_11raw_ostreamEPb'])
                os.rename(tmp, so)
            res['so'] = so
    return res


if __name__ == '__main__':
    import time
    t = time.time()
    r = build_all()
    print(json.dumps({k: v if not isinstance(v, dict) else len(v) for k, v in r.items()}), time.time() - t)
