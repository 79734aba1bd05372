#!/usr/bin/env python3
"""design.py: assembles DESIGN.md from tools/design_*.md, props_data.py and known_findings.txt."""
import os, sys, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(V, f)).read()
props = [json.loads(l) for l in rd('properties.jsonl').splitlines()]
sec = {}
for l in rd('tools/design_props.txt').splitlines():
    if l.strip():
        a = [x.strip() for x in l.split('|', 3)]
        sec[a[0]] = a[1:] + [''] * (4 - len(a))
out = [rd('tools/design_intro.md').rstrip(), '']
for p in props:
    f, how, bound = sec[p['id']][:3]
    out += ['### %s %s' % (p['id'], p['title']), '', '*Statement.* ' + p['statement'], '', '*Decided by* `harness/%s`: %s.' % (f.replace(', ', '`, `harness/'), how.rstrip('.')), '']
    if bound: out += ['*Bounds.* ' + bound[0].upper() + bound[1:].rstrip('.') + '.', '']
rest = rd("tools/design_rest.md").rstrip()
rows = ["| bug | property | needs |", "|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m)); rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), j["property"], j["needs"].replace("|", "/")))
out += [rest.replace("SEEDTABLE", "\n".join(rows)), ""]
fx = [l[7:] for l in rd('known_findings.txt').splitlines() if l.startswith('fixed: ')]
kn = [l[7:] for l in rd('known_findings.txt').splitlines() if l.startswith('known: ')]
out += ['## Findings', '', 'Genuine defects found by the checks: %d repaired with `fix:` commits, %d recorded.' % (len(fx), len(kn)), '', 'Recorded, not repaired:', '']
out += ['- ' + x for x in kn] + ['', 'Repaired (the check reports the violation again if it returns):', '']
out += ['- ' + x.replace('property=', '') for x in fx] + ['']
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
