"""Walks the function registry built from /repo's sources and maps every registered C function to its symbol."""
import ctypes, subprocess, os, tempfile

LISTS = ['u8list', 'u16list', 'u32list', 'u64list', 'i8list', 'i16list', 'i32list', 'i64list', 'f32list', 'f64list']
SCAL = ['u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'f32', 'f64']


class Reg:
    __slots__ = ('name', 'ret', 'params', 'kind', 'addr', 'needs_ctx', 'sym', 'partner')

    def sig(self):
        return '%s(%s)->%s%s' % (self.name, ','.join(self.params), self.ret, '+ctx' if self.needs_ctx else '')

    def __repr__(self):
        return self.sig()


def norm(t):
    return t.lower()


def enumerate_registry(so):
    """runs in a child process so a crash cannot take the checker down; returns [Reg]"""
    fd, path = tempfile.mkstemp()
    os.close(fd)
    code = ('import ctypes,sys\nlib=ctypes.CDLL(sys.argv[1])\nrc=lib.jf_enum(sys.argv[2].encode())\n'
            'a=ctypes.cast(lib.jf_enum,ctypes.c_void_p).value\nprint(rc,hex(a))\n')
    p = subprocess.run(['python3-vt', '-c', code, so, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise RuntimeError('registry walk failed: ' + p.stderr[-2000:])
    rc, a = p.stdout.split()
    if rc != '0':
        raise RuntimeError('registry initialisation failed with %s' % rc)
    syms = {}
    base = None
    for l in subprocess.run(['nm', so], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        f = l.split()
        if len(f) == 3 and f[1] in 'tTwWV':
            syms.setdefault(int(f[0], 16), f[2])
            if f[2] == 'jf_enum':
                base = int(a, 16) - int(f[0], 16)
    out = []
    for l in open(path):
        n, ret, ps, kind, addr, nc = l.rstrip('\n').split('|')
        r = Reg()
        r.name, r.ret, r.params, r.kind = n, norm(ret), [norm(x) for x in ps.split(',')] if ps else [], int(kind)
        r.needs_ctx = nc == '1'
        r.addr = int(addr, 16)
        r.sym = syms.get(r.addr - base) if r.addr else None
        r.addr = r.addr - base if r.addr else 0
        out.append(r)
    os.unlink(path)
    out.sort(key=lambda r: r.sig())
    return out


if __name__ == '__main__':
    import sys, build
    from collections import Counter
    b = build.build_all()
    rs = enumerate_registry(b['so'])
    c = Counter((r.name, r.kind) for r in rs)
    print(len(rs), 'registered')
    for (n, k), v in sorted(c.items()):
        ex = [r for r in rs if r.name == n and r.kind == k]
        print(n, 'IR' if k == 1 else 'C', v, ex[0].sig(), ex[-1].sig() if v > 1 else '', ex[0].sym or '')
