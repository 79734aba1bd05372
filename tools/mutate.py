#!/usr/bin/env python3
"""Systematic mutation of one library source file: which small changes does no check notice?

usage: mutate.py FILE.c PROPS [-n COUNT] [-s SEED] [-x SCALE] [-l FROM-TO] [-o OUT]
Only lines executed under the coverage data (gcov files in $COV, if set) are mutated.  Works on
copies in a scratch directory; /repo is only read."""
import sys, os, re, random, subprocess, tempfile, shutil, argparse, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import build, props

ap = argparse.ArgumentParser()
ap.add_argument('file'); ap.add_argument('props'); ap.add_argument('-n', type=int, default=200); ap.add_argument('-s', type=int, default=1)
ap.add_argument('-x', default='0.3'); ap.add_argument('-l', default=''); ap.add_argument('-o', default=''); ap.add_argument('-j', type=int, default=8); ap.add_argument('-w', default='100')
A = ap.parse_args()
P = A.props.split(',')
H = {p: next(x['harness'] for x in props.P if x['id'] == p) for p in P}
src = A.file if '/' in A.file else build.R + '/src/' + A.file
text = open(src).read(); lines = text.split('\n')

# blank out comments and strings (same length) to find mutable code
def blank(t):
    out = []; i = 0; n = len(t)
    while i < n:
        if t.startswith('/*', i):
            j = t.find('*/', i + 2); j = n if j < 0 else j + 2
            out.append(re.sub(r'[^\n]', ' ', t[i:j])); i = j
        elif t.startswith('//', i):
            j = t.find('\n', i); j = n if j < 0 else j
            out.append(' ' * (j - i)); i = j
        elif t[i] in '"\'':
            q = t[i]; j = i + 1
            while j < n and t[j] != q: j += 2 if t[j] == '\\' else 1
            j = min(n, j + 1); out.append(q + re.sub(r'[^\n]', '~', t[i+1:j-1]) + q); i = j
        else: out.append(t[i]); i += 1
    return ''.join(out)
bl = blank(text).split('\n')
cov = None
g = os.path.join(os.environ.get('COV', '/nonexistent'), os.path.basename(src) + '.gcov')
if os.path.exists(g):
    cov = set()
    for l in open(g, errors='replace'):
        a = l.split(':', 2)
        if len(a) == 3 and a[1].strip().isdigit() and re.match(r'\s*\d', a[0]): cov.add(int(a[1]))
lo, hi = (int(x) for x in A.l.split('-')) if A.l else (1, len(lines))
muts = []
skip = re.compile(r'^\s*(#|static\s+char|extern|typedef|struct\s)|\b(pd_error|assert|printf|fprintf|sprintf|snprintf|pd_printf|exit|SRCLOC|DBG|malloc_or_die)\b')
for k, (b, o) in enumerate(zip(bl, lines)):
    ln = k + 1
    if ln < lo or ln > hi or (cov is not None and ln not in cov) or skip.search(b): continue
    def add(s, e, new): muts.append((ln, s, e, new))
    for m in re.finditer(r'<=|>=|==|!=|&&|\|\||\+\+|--|\+=|-=|\*=|/=|->|<<|>>|[<>+\-*/%!]', b):
        t = m.group(); s, e = m.span()
        if t in ('->', '<<', '>>', '++', '--'): continue
        pre = b[:s].rstrip(); post = b[e:].lstrip()
        binary = bool(pre) and (pre[-1].isalnum() or pre[-1] in '_])') and bool(post) and (post[0].isalnum() or post[0] in '_(-&*!.')
        R = {'<=': ['<'], '>=': ['>'], '==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&'], '<': ['<='], '>': ['>='], '+=': ['-='], '-=': ['+='], '*=': ['/='], '/=': ['*=']}.get(t)
        if t in '+-*/%' and len(t) == 1:
            if not binary: continue
            if t == '*' and re.match(r'^\s*\w+\s*$', b[:s]): continue   # declaration
            R = {'+': ['-'], '-': ['+'], '*': ['/'], '/': ['*'], '%': ['+']}[t]
        if t == '!':
            R = ['']
        if R:
            for r in R: add(s, e, r)
    for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', b):
        v = int(m.group(1)); s, e = m.span()
        add(s, e, str(v + 1))
        if v > 0: add(s, e, str(v - 1))
    for m in re.finditer(r'\b(true|false|PD_POS_ORIENTATION|PD_NEG_ORIENTATION)\b', b):
        add(*m.span(), {'true': 'false', 'false': 'true', 'PD_POS_ORIENTATION': 'PD_NEG_ORIENTATION', 'PD_NEG_ORIENTATION': 'PD_POS_ORIENTATION'}[m.group()])
    m = re.match(r'^(\s*)([A-Za-z_(*][^;{}]*;)\s*$', b)
    if m and not re.match(r'\s*(return|int|double|char|bool|float|long|unsigned|plc_\w+\s+\*?\w+\s*[;=,]|pd_\w+_t\b|const|break|case|goto|else|free\b|va_)', b) and (b.count('(') == b.count(')')):
        prev = next((bl[q].rstrip() for q in range(k - 1, -1, -1) if bl[q].strip()), '')
        if prev.endswith((';', '{', '}', ':')) or prev.endswith(')') and False: add(m.start(2), m.end(2), ';')
    m = re.match(r'^\s*(?:\}\s*else\s*)?if\s*\((.*)\)\s*\{?\s*$', b)
    if m and b.count('(') == b.count(')'):
        add(m.start(1), m.end(1), '1'); add(m.start(1), m.end(1), '0')
    m = re.search(r'\bbreak;', b)
    if m: add(*m.span(), ';')
random.seed(A.s); random.shuffle(muts); muts = muts[:A.n]
print('%d mutants of %s against %s' % (len(muts), os.path.basename(src), P), flush=True)

W = tempfile.mkdtemp(prefix='mutate-')
import glob
objs = {}; jobsrc = None
for h in set(H.values()):
    comps, san, inc = build.spec(h); jobs = []
    HD = V + '/harness'
    hfl = ['-std=c++17', '-Drestrict=__restrict', '-O1', '-g1', '-w'] + (build.SAN if san else []) + ['-I' + HD, '-I' + V + '/lib'] + ['-I' + i for i in inc]
    hd = [HD, V + '/lib'] + inc
    jobs.append((HD + '/%s.cpp' % h, hfl, hd, True, 'h_' + h)); jobs.append((HD + '/pbt_main.cpp', hfl, [HD], True, 'pbt_main' + ('a' if san else 'p')))
    for c in comps: jobs += {'lib': lambda: build.jobs_lib(san), 'judy': build.jobs_judy, 'planarity': lambda: build.jobs_planarity(san), 'planarmap': lambda: build.jobs_planarmap(san)}[c]()
    objs[h] = (jobs, build.run_jobs(jobs), san)

def one(i):
    ln, s, e, new = muts[i]
    L = list(lines); L[ln - 1] = L[ln - 1][:s] + new + L[ln - 1][e:]
    d = W + '/%d' % i; os.makedirs(d)
    try:
        f = d + '/' + os.path.basename(src); open(f, 'w').write('\n'.join(L))
        res = None
        for h in dict.fromkeys(H.values()):
            jobs, ob, san = objs[h]; ob = list(ob)
            for q, j in enumerate(jobs):
                if j[0] == src:
                    o = d + '/m%d.o' % q
                    fl = ['-I' + os.path.dirname(src)] + j[1]
                    if not os.path.exists(o):
                        r = subprocess.run([build.CC] + fl + ['-iquote', os.path.dirname(src), '-c', f, '-o', o], capture_output=True)
                        if r.returncode: return (i, 'nocompile', '')
                    ob[q] = o
            b = d + '/' + h
            r = subprocess.run([build.CXX] + (build.SAN if san else []) + ob + ['-o', b, '-Wl,--gc-sections', '-lgsl', '-lgslcblas', '-lm'], capture_output=True, text=True)
            if r.returncode: return (i, 'nolink', r.stderr[-200:])
            for p in P:
                if H[p] != h: continue
                try: r = subprocess.run([b, '--prop', p, '--tier', 'quick', '--scale', A.x, '--jobs', '1', '--noshrink', '--wall', A.w, '--replaydir', d], capture_output=True, text=True, timeout=600, errors='replace')
                except subprocess.TimeoutExpired: return (i, 'killed', p + ' timeout')
                if r.returncode == 1: return (i, 'killed', p)
                if 'unreproduced' in r.stdout: res = (i, 'UNREPRODUCED', p)
                if r.returncode not in (0, 1): return (i, 'broken', p + r.stderr[-200:])
            os.remove(b)
        return res or (i, 'SURVIVED', '')
    finally: shutil.rmtree(d, ignore_errors=True)
t = time.time(); n = {}; surv = []
out = open(A.o, 'w') if A.o else sys.stdout
with ThreadPoolExecutor(A.j) as ex:
    for i, k, w in ex.map(one, range(len(muts))):
        n[k] = n.get(k, 0) + 1
        if k in ('SURVIVED', 'UNREPRODUCED', 'broken', 'nolink'):
            ln, s, e, new = muts[i]; surv.append((ln, s, lines[ln-1][s:e], new, k, w))
surv.sort()
for ln, s, old, new, k, w in surv:
    print('%s%5d: %s   [%s -> %s]%s' % ('' if k == 'SURVIVED' else k + w + ' ', ln, lines[ln-1].strip()[:110], old[:50], new, ' @%d' % s), file=out)
print(n, '%.0f s' % (time.time() - t), file=out, flush=True)
shutil.rmtree(W, ignore_errors=True)
