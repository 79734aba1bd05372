#!/usr/bin/env python3
"""fixlog.py PROP TEXT... : appends 'fixed:' lines for fix commits of /repo not yet in known_findings.txt.
The property is found from keywords given as KEY=PROP arguments (KEY a substring of the commit subject)."""
import subprocess, sys
m = dict(a.rsplit('=', 1) for a in sys.argv[1:])
k = open('/verif/known_findings.txt').read()
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines():
    h, t = l.split(' ', 1)
    if not t.startswith("fix: ") or h in k or h == "e20d50e": continue
    p = next((v for a, v in m.items() if a in t), None)
    print(h, t, '->', p); assert p
    k += 'fixed: property=%s %s %s\n' % (p, h, t[5:])
open('/verif/known_findings.txt', 'w').write(k)
