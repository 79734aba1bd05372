#!/usr/bin/env python3
"""Planted bugs.  seed.py make FILE [ID...]: FILE defines SEEDS, a list of dicts
  id, prop, edits=[(path, old, new)], needs, breaks, demo (C main program, or None and sh=shell text).
For each: apply to /repo, build, run the stable tests, run the demo on the changed and on the unchanged tree,
write /verif/seeded/<id>/ when all is as it must be, and run the property's quick check on the change."""
import sys, os, subprocess, json
V, R = '/verif', '/repo'
SH = '''#!/bin/bash
# exit 0: the behaviour is right
H=$(cd "$(dirname "$0")" && pwd); D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
T=/repo/_build/tree
gcc -w -g -O1 %s-I/repo/src -I/repo/judy/src -I$T -DHAVE_CONFIG_H "$H/demo.c" -Wl,--gc-sections $T/src/.libs/libplCurveStatic.a %s-lgsl -lgslcblas -lm -o "$D/demo" || exit 2
cd "$D" && timeout 120 ./demo
'''
def run(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def tests():
    run('bash', '/opt/vp/test.sh', '/tmp/seedtest.json')
    b = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open('/tmp/seedtest.json'))
    return sorted(set(b['stable']) - set(t['passed']))
def clean(): subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
def build(): return run('bash', '/opt/vp/build.sh').returncode
def make(s, check=True):
    d = '%s/seeded/%s' % (V, s['id']); assert not run('git', '-C', R, 'status', '--short').stdout.strip(), 'dirty repo'
    os.makedirs(d, exist_ok=True)
    if s.get('demo'): open(d + '/demo.c', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(s.get('sh') or SH % (s.get('cflags', ''), s.get('libs', ''))); os.chmod(d + '/demo.sh', 0o755)
    for n, t in s.get('files', {}).items(): open(d + '/' + n, 'w').write(t)
    build()
    r0 = run('bash', d + '/demo.sh', cwd=R)
    if r0.returncode: print(s['id'], 'DEMO FAILS ON THE UNCHANGED TREE', r0.returncode, r0.stdout[-500:], r0.stderr[-800:]); return False
    try:
        for p, o, n in s['edits']:
            t = open(R + '/' + p).read(); assert t.count(o) == 1, (s['id'], p, t.count(o)); open(R + '/' + p, 'w').write(t.replace(o, n))
        open(d + '/patch.diff', 'w').write(run('git', '-C', R, 'diff').stdout)
        if build(): print(s['id'], 'DOES NOT BUILD'); return False
        miss = tests()
        if miss: print(s['id'], 'TESTS FAIL', miss[:4]); return False
        r1 = run('bash', d + '/demo.sh', cwd=R)
        if r1.returncode == 0 or r1.returncode == 2: print(s['id'], 'DEMO PASSES WITH THE CHANGE', r1.returncode); return False
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        if check: verdict(s['id'], s['prop'])
    finally: clean()
    return True
def verdict(i, p):
    r = run('python3', V + '/check.py', p, 'quick', '--evidence', '/tmp/ev.json', '--replaydir', '/tmp/rp')
    print(i, p, 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=%s' % p in r.stdout else 'MISSED rc=%d' % r.returncode, '|', (r.stdout.strip().splitlines() or [''])[0][:150])
if __name__ == '__main__':
    if sys.argv[1] == 'make':
        ns = {}; exec(open(sys.argv[2]).read(), ns); want = sys.argv[3:]
        for s in ns['SEEDS']:
            if want and s['id'] not in want: continue
            if not want and os.path.exists('%s/seeded/%s/meta.json' % (V, s['id'])): continue
            try:
                ok = make(s)
            except AssertionError as e: print('ERR', e); ok = False; clean()
            if not ok: subprocess.call(['rm', '-rf', '%s/seeded/%s' % (V, s['id'])])
        build()
    elif sys.argv[1] == 'check':  # re-run the checks on all planted bugs
        for i in sorted(os.listdir(V + '/seeded')):
            if sys.argv[2:] and i not in sys.argv[2:]: continue
            d = V + '/seeded/' + i; m = json.load(open(d + '/meta.json'))
            if run('git', '-C', R, 'apply', d + '/patch.diff').returncode: print(i, 'PATCH DOES NOT APPLY'); continue
            try: verdict(i, m['property'])
            finally: clean()
