#!/usr/bin/env python3
"""mkseed.py ID PROP 'needs' 'breaks' FILE OLD NEW [FILE OLD NEW]... < demo.cc   (edits /tmp/sr, writes seeded/ID)"""
import sys, os, json, shutil, subprocess
i, prop, needs, breaks = sys.argv[1:5]
ed = sys.argv[5:]
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded', i)
os.makedirs(D, exist_ok=True)
subprocess.run('git checkout -q -- .', shell=True, cwd='/tmp/sr')
for k in range(0, len(ed), 3):
    f, o, n = ed[k:k + 3]
    p = '/tmp/sr/' + f
    s = open(p).read()
    cnt = s.count(o)
    if cnt != 1:
        sys.exit('%s: old text occurs %d times' % (f, cnt))
    open(p, 'w').write(s.replace(o, n))
open(D + '/patch.diff', 'w').write(subprocess.run('git diff', shell=True, cwd='/tmp/sr', stdout=subprocess.PIPE, text=True).stdout)
subprocess.run('git checkout -q -- .', shell=True, cwd='/tmp/sr')
for f in ('d.h', 'demo.sh'):
    shutil.copy('/tmp/seedlib/' + f, D)
open(D + '/demo.cc', 'w').write('#include "d.h"\n' + sys.stdin.read())
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(D + '/meta.json', 'w'), indent=1)
print('wrote', D)
