#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]     decide one property on /repo's working tree
check.py --replay FILE                 re-run a recorded failing case
check.py --build                       build every harness (setup)
Extra arguments after the tier are handed to the harness (--scale X, --only SUB, --seed N ...)."""
import os, sys, subprocess, json, time
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import build, props

def harness(p): return next(x['harness'] for x in props.P if x['id'] == p)

ALL = 'curve geom rope pdcore pdread pdiso moves homfly tangles topo iters rand mcmc judy planarity planarmap report'.split()

def everywhere(p, tier, extra):
    """A property which is judged on the cases of every harness: one run each, one evidence file."""
    b = build.build_all(ALL); ev = None; r = 0; t0 = time.time(); wall = 780 if tier == 'quick' else 7200
    out = V + '/evidence/%s.json' % p
    for i, h in enumerate(ALL):
        part = out + '.part'; left = wall - (time.time() - t0)
        r = subprocess.call([b[h], '--prop', p, '--tier', tier, '--evidence', part, '--replaydir', V + '/evidence/replay',
                             '--wall', str(max(5, int(left / (len(ALL) - i))))] + extra, env=env_for(h))
        if r not in (0, 1): break
        e = json.load(open(part)); os.unlink(part); c = e['coverage']
        for k in ('subchecks', 'classes'):
            if k in c: c[k] = {h + '/' + n: v for n, v in c[k].items()}
        c['samples'] = c.get('samples', [])[:3]
        if ev is None: ev = e; ev['coverage']['rule'] = h + ': ' + c['rule']; continue
        t = ev['coverage']; ev['wall_s'] += e['wall_s']; ev['violations'] = ev.get('violations', 0) + e.get('violations', 0)
        for k, v in c.items():
            if isinstance(v, bool): t[k] = t.get(k, False) or v
            elif isinstance(v, (int, float)): t[k] = t.get(k, 0) + v
            elif isinstance(v, list): t[k] = t.get(k, []) + v
            elif isinstance(v, dict): t.setdefault(k, {}).update(v)
            elif k == 'rule': t[k] += ' | ' + h + ': ' + v
        if r: break
    json.dump(ev, open(out, 'w'), indent=1)
    return r

def findings(p):
    f = os.path.join(V, 'known_findings.txt')
    for l in open(f):
        if l.startswith('known: property=%s ' % p):
            print('KNOWN-FINDING: ' + l[len('known: '):].strip())

def env_for(h):
    e = dict(os.environ)
    if h == 'cli':
        e.update({'TOOL_' + k.upper(): v for k, v in build.build_tools().items()})
        e['TOOL_INCLUDE'] = build.R + '/src'
    return e

def main():
    a = sys.argv[1:]
    if a[0] == '--build':
        build.build_all(sorted({x['harness'] for x in props.P} - {'*'}))
        if any(x['harness'] == 'cli' for x in props.P): build.build_tools()
        return 0
    if a[0] == '--replay':
        p = next(l.split()[1] for l in open(a[1]) if l.startswith('case '))
        h = harness(p)
        return subprocess.call([build.build(h), '--replay', a[1]] + a[2:], env=env_for(h))
    p = a[0]; tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    h = harness(p); os.makedirs(V + '/evidence/replay', exist_ok=True)
    if h == '*':
        r = everywhere(p, tier, a[2:]); findings(p)
        return r if r in (0, 1) else 3
    r = subprocess.call([build.build(h), '--prop', p, '--tier', tier, '--evidence', V + '/evidence/%s.json' % p,
                         '--replaydir', V + '/evidence/replay'] + (['--wall', '780'] if tier == 'quick' else ['--wall', '7200']) + a[2:], env=env_for(h))
    findings(p)
    return r if r in (0, 1) else 3

if __name__ == '__main__': sys.exit(main())
