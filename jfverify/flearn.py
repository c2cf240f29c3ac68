"""python3-vt jfverify/flearn.py SPEC [REGEX]: records which invariant candidates fail, to save later searches"""
import json, re, sys, time
import fbase
spec, rx = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else ''
for j in fbase.jobs(spec):
    if j.get('missing') or not re.search(rx, j['name']):
        continue
    r = fbase.unit(None, j, dict(timeout=10000, deadline=time.time() + 3000, learn=True))
    print(r['unit'], r['status'], r['wall'])
    if r['status'] == 'proved' and r['wall'] > 5 and r['hint']['cuts']:
        h = fbase.hints()
        h[spec + ' ' + r['unit']] = r['hint']
        json.dump(h, open(fbase.HINTS, 'w'), indent=0, sort_keys=True)
