#!/usr/bin/env python3
"""confirm a planted bug in a scratch copy (/tmp/sr): seed.py ID...   Never touches /repo."""
import os, subprocess, sys, json, re
SR = '/tmp/sr'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def setup():
    if not os.path.exists(SR + '/_build/libjitfusion.a'):
        sh('mkdir -p %s && cp -a /repo/. %s/ && rm -rf %s/_build' % (SR, SR, SR))
    sh('git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD' % (SR, SR))
    open('/tmp/srbuild.sh', 'w').write(open('/opt/vp/build.sh').read().replace('/repo', SR))
    t = open('/opt/vp/test.sh').read().replace('/repo', SR).replace('/opt/vp/build.sh', '/tmp/srbuild.sh')
    open('/tmp/srtest.sh', 'w').write(t)

def build():
    r = sh('bash /tmp/srbuild.sh')
    return r.returncode == 0, r.stdout[-1500:]

def demo(d):
    r = sh('timeout 300 bash %s/demo.sh' % d, cwd=SR)
    return r.returncode, r.stdout[-400:]

def main(ids):
    setup()
    ok, o = build()
    assert ok, o
    for i in ids:
        d = os.path.join(HERE, 'seeded', i)
        rc0, o0 = demo(d)
        a = sh('git apply %s/patch.diff' % d, cwd=SR)
        if a.returncode:
            print(i, 'PATCH DOES NOT APPLY', a.stdout)
            continue
        ok, o = build()
        if not ok:
            print(i, 'BUILD FAILS', o)
        else:
            sh('bash /tmp/srtest.sh /tmp/srt.json')
            t = json.load(open('/tmp/srt.json'))
            rc1, o1 = demo(d)
            good = rc0 == 0 and rc1 != 0 and not t['failed'] and len(t['passed']) == 776
            print(i, 'OK' if good else 'BAD', 'clean', rc0, 'patched', rc1, 'tests', len(t['passed']), t['failed'][:4], '' if good else o0 + o1, flush=True)
            if '--check' in sys.argv:
                prop = json.load(open(d + '/meta.json'))['property']
                r = sh('JF_REPO=%s JF_BUILD=/tmp/srjf python3-vt %s/jfverify/run.py %s --tier quick' % (SR, HERE, prop))
                v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or l.startswith(prop)]
                print('   check', prop, 'exit', r.returncode, *v[:6], sep='\n      ', flush=True)
        sh('git checkout -q -- . && git clean -fdq src include athena', cwd=SR)
    build()

main([a for a in sys.argv[1:] if not a.startswith('-')])
