#!/usr/bin/env python3
"""Builds the code under test from /repo's working tree (never from /repo/_build) and one harness.

usage: build.py HARNESS           prints the path of the linked harness binary
Objects are cached by content (source, every header, flags) in /verif/build, so a rerun on an
unchanged tree only links.  Nothing is written under /repo.
"""
import os, sys, re, hashlib, subprocess, glob, shutil
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, 'build')
CC, CXX = 'gcc', 'g++'
SAN = ['-fsanitize=address', '-fno-omit-frame-pointer']
BASE = ['-O1', '-g1', '-ffunction-sections', '-fdata-sections', '-w', '-DHAVE_CONFIG_H']
SKIP = {'kascentpermutation.c'}       # needs naptable.h, which the repository does not contain

def sh(h, *parts):
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')

_hdr = {}
def header_digest(dirs):
    key = tuple(dirs)
    if key not in _hdr:
        h = hashlib.sha256()
        for d in dirs:
            for f in sorted(glob.glob(os.path.join(d, '*.h')) + glob.glob(os.path.join(d, '*.hpp'))):
                sh(h, os.path.basename(f), open(f, 'rb').read())
        _hdr[key] = h.hexdigest()
    return _hdr[key]

def compile_one(job):
    src, flags, hdirs, cxx, name = job
    h = hashlib.sha256()
    sh(h, open(src, 'rb').read(), ' '.join(flags), header_digest(hdirs), name)
    o = os.path.join(B, 'obj', name + '.' + h.hexdigest()[:24] + '.o')
    if not os.path.exists(o):
        os.makedirs(os.path.dirname(o), exist_ok=True)
        tmp = o + '.%d.tmp' % os.getpid()
        r = subprocess.run([CXX if cxx else CC] + flags + ['-c', src, '-o', tmp], capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write('build: %s failed\n%s\n' % (src, r.stderr[-3000:]))
            raise SystemExit(3)
        os.rename(tmp, o)
    return o

def lib_sources():
    am = open(R + '/src/Makefile.am').read().replace('\\\n', ' ')
    m = re.search(r'^libplCurveStatic_la_SOURCES\s*=(.*)$', am, re.M)
    n = re.search(r'^libnplCurve_la_SOURCES\s*=(.*)$', am, re.M)
    s = [x for x in m.group(1).split() if x.endswith('.c')] + [x for x in n.group(1).split() if x.endswith('.c')]
    return [x for x in s if x not in SKIP and os.path.exists(R + '/src/' + x)]

def jobs_lib(san):
    fl = BASE + (SAN if san else []) + ['-I' + V + '/lib', '-I' + R + '/src', '-I' + R + '/judy/src']
    hd = [V + '/lib', R + '/src', R + '/judy/src']
    return [(R + '/src/' + s, fl, hd, False, ('a_' if san else 'p_') + s) for s in lib_sources()]

def jobs_judy(san=False):
    J = R + '/judy/src'
    JC = J + '/JudyCommon'
    fl0 = ['-O0', '-g0', '-w', '-DJU_64BIT', '-I' + J, '-I' + JC] + (SAN if san else [])
    sa = 'a_' if san else ''
    hd = [J, JC, J + '/Judy1', J + '/JudyL', J + '/JudySL', J + '/JudyHS']
    out = [(JC + '/JudyMalloc.c', fl0, hd, False, sa + 'judymalloc')]
    for nm, d in (('Judy1', '-DJUDY1'), ('JudyL', '-DJUDYL')):
        fl = fl0 + [d, '-I' + J + '/' + nm]
        h = hashlib.sha256(); sh(h, open(JC + '/JudyTables.c', 'rb').read(), header_digest(hd), ' '.join(fl))
        td = os.path.join(B, 'judytab', nm + h.hexdigest()[:16])
        tab = td + '/' + nm + 'Tables.c'
        if not os.path.exists(tab):
            os.makedirs(td, exist_ok=True)
            subprocess.check_call([CC] + [f for f in fl if f not in SAN] + ['-o', td + '/gen', JC + '/JudyTables.c'])
            subprocess.check_call([td + '/gen'], cwd=td, stdout=subprocess.DEVNULL)
        out.append((tab, fl, hd, False, nm + 'tables'))
        for s in 'Cascade Count CreateBranch Decascade Del First FreeArray Get Ins InsArray InsertBranch MallocIF MemActive MemUsed'.split():
            out.append((JC + '/Judy%s.c' % s, fl, hd, False, nm + s))
        for s in 'PrevNext PrevNextEmpty'.split():
            out.append((JC + '/Judy%s.c' % s, fl + ['-DJUDYNEXT'], hd, False, nm + s + 'N'))
            out.append((JC + '/Judy%s.c' % s, fl + ['-DJUDYPREV'], hd, False, nm + s + 'P'))
        out.append((JC + '/JudyByCount.c', fl + ['-DNOSMARTJBB', '-DNOSMARTJBU', '-DNOSMARTJLB'], hd, False, nm + 'ByCount'))
        out.append((JC + '/JudyGet.c', fl + ['-DJUDYGETINLINE'], hd, False, nm + 'GetInline'))
    out.append((J + '/JudySL/JudySL.c', fl0, hd, False, 'JudySL'))
    out.append((J + '/JudyHS/JudyHS.c', fl0, hd, False, 'JudyHS'))
    return out

def jobs_planarity(san):
    P = R + '/planarity/c'
    fl = BASE + (SAN if san else []) + ['-I' + P]
    return [(f, fl, [P], False, ('a_' if san else 'p_') + 'planarity_' + os.path.basename(f))
            for f in sorted(glob.glob(P + '/*.c')) if os.path.basename(f) != 'planarity.c']

def jobs_planarmap(san):
    P = R + '/planarmap'
    fl = BASE + (SAN if san else []) + ['-I' + P]
    return [(f, fl, [P], False, ('a_' if san else 'p_') + 'planarmap_' + os.path.basename(f))
            for f in sorted(glob.glob(P + '/*.c')) if os.path.basename(f) not in ('planarmap.c', 'PMpersonal.c')]

# harness -> (components, sanitized?, extra include directories)
def spec(h):
    if h == 'judy': return ['judy'], True, [R + '/judy/src']
    if h == 'planarity': return ['planarity'], True, [R + '/planarity/c']
    if h == 'planarmap': return ['planarmap'], True, [R + '/planarmap']
    return ['lib', 'judy'], True, [R + '/src', R + '/judy/src']

def run_jobs(jobs):
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        return list(ex.map(compile_one, jobs))

def link(objs, out_name, san, cxx=True, libs=('-lgsl', '-lgslcblas', '-lm'), extra=()):
    h = hashlib.sha256(); sh(h, *objs, san, *extra)
    out = os.path.join(B, 'bin', out_name + '-' + h.hexdigest()[:20])
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid()
        r = subprocess.run([CXX if cxx else CC] + (SAN if san else []) + objs + ['-o', tmp] + (list(extra) or ['-Wl,--gc-sections']) + list(libs), capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write('build: link failed\n' + r.stderr[-3000:] + '\n'); raise SystemExit(3)
        os.rename(tmp, out)
    return out

TOOLS = {'plcurvature': 'plcurvature.c', 'ropelength': 'ropelength.c', 'struts': 'struts.c', 'mrlocs': 'mrlocs.c',
         'randompolygon': 'plcrwalk.c', 'carbonizepd': 'carbonizepd.c', 'connectsum': 'connectsum.c',
         'filterpd': 'filterpd.c', 'joinpd': 'joinpd.c', 'computepd': 'computepd.c', 'splitpd': 'splitpd.c'}

def build_tools():
    """The command line tools, built with the sanitizer from /repo/src; returns {name: path}."""
    fl = BASE + SAN + ['-I' + V + '/lib', '-I' + R + '/src', '-I' + R + '/judy/src']
    hd = [V + '/lib', R + '/src', R + '/judy/src']
    lj = jobs_lib(True); jj = jobs_judy()
    tj = [(R + '/src/' + s, fl, hd, False, 'a_tool_' + n) for n, s in TOOLS.items()]
    o = run_jobs(lj + jj + tj)
    base, tools = o[:len(lj) + len(jj)], o[len(lj) + len(jj):]
    return {n: link([t] + base, 'tool_' + n, True, cxx=False, extra=['-Wl,--gc-sections,--allow-multiple-definition'] if n == 'carbonizepd' else ()) for n, t in zip(TOOLS, tools)}

def jobs_for(h):
    comps, san, inc = spec(h)
    jobs = []
    H = V + '/harness'
    hfl = ['-std=c++17', '-Drestrict=__restrict', '-O1', '-g1', '-w'] + (SAN if san else []) + ['-I' + H, '-I' + V + '/lib'] + ['-I' + i for i in inc]
    hd = [H, V + '/lib'] + inc
    jobs.append((H + '/%s.cpp' % h, hfl, hd, True, 'h_' + h))
    jobs.append((H + '/pbt_main.cpp', hfl, [H], True, 'pbt_main' + ('a' if san else 'p')))
    for c in comps:
        jobs += {'lib': lambda: jobs_lib(san), 'judy': lambda: jobs_judy(san and h == 'judy'), 'planarity': lambda: jobs_planarity(san),
                 'planarmap': lambda: jobs_planarmap(san)}[c]()
    return jobs

def build_all(hs):
    """Several harnesses: every object once, all of them side by side."""
    u = {}
    for h in hs:
        for j in jobs_for(h): u[(j[0], j[4], tuple(j[1]))] = j
    # the big harness sources first
    run_jobs(sorted(u.values(), key=lambda j: not j[3]))
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex: return dict(zip(hs, ex.map(build, hs)))

def build(h):
    san = spec(h)[1]
    # generated C code is loaded into the tools harness and calls the library there
    return link(run_jobs(jobs_for(h)), h, san, extra=['-Wl,--gc-sections,--export-dynamic-symbol=pd_*', '-ldl'] if h == 'cli' else ())

if __name__ == '__main__':
    for h in sys.argv[1:]:
        print(build(h) if h != 'tools' else '\n'.join('%s=%s' % kv for kv in build_tools().items()))
