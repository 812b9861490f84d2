#!/usr/bin/env python3
"""Line and branch coverage of the library by samples of all workloads, with the assembly and the portable back end.
coverage.py [requests per workload]; prints a summary per file and every line of the library that was not reached."""
import glob, gzip, json, os, shutil, subprocess, sys, tempfile, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib'); sys.setrecursionlimit(10000)
import build, gen, checks_dyn
from concurrent.futures import ThreadPoolExecutor
per = int(sys.argv[1]) if len(sys.argv) > 1 else 300
lit = gen.Lit(); rng = random.Random(1); reqs = []
for cid, j in checks_dyn.sources():
    for q, c in checks_dyn.sample(cid, j, rng, lit, per, 12500, 64): reqs.append(q)
print(len(reqs), 'requests', flush=True)
lines = {}; br = {}
for port in (False, True):
    d = tempfile.mkdtemp(prefix='cov_', dir='/tmp')
    try:
        pf = build.PORT if port else []
        inc = ['-I' + build.REPO + '/include', '-I' + build.REPO + '/src', '-I' + build.DRV]
        jobs = []
        for s in build.lib_sources(not port) + sorted(glob.glob(build.DRV + '/*.cpp')):
            o = d + '/' + os.path.basename(s) + '.o'
            jobs.append(['gcc', '-c', s, '-o', o] if s.endswith('.s') else ['g++', '-std=c++20', '-w', '-O1', '--coverage'] + pf + inc + ['-c', s, '-o', o])
        with ThreadPoolExecutor(8) as ex: list(ex.map(lambda c: subprocess.run(c, check=True), jobs))
        subprocess.run(['g++', '--coverage', '-o', d + '/drv'] + [c[-1] for c in jobs] + ['-lpthread'], check=True)
        def go(part):
            txt = ''.join('%d %s\n' % x for x in enumerate(part))
            return subprocess.run([d + '/drv'], input=txt, text=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=3000).returncode
        n = 16
        with ThreadPoolExecutor(8) as ex: print('exit codes', set(ex.map(go, [reqs[i::n] for i in range(n)])), flush=True)
        subprocess.run('gcov -b -j -t *.o > all.json 2>/dev/null', shell=True, cwd=d)
        dec = json.JSONDecoder(); t = open(d + '/all.json').read(); i = 0
        while i < len(t):
            while i < len(t) and t[i].isspace(): i += 1
            if i >= len(t): break
            o, i = dec.raw_decode(t, i)
            for f in o['files']:
                p = os.path.normpath(os.path.join(o['current_working_directory'], f['file']))
                if not p.startswith(build.REPO): continue
                p = p[len(build.REPO) + 1:]
                for l in f['lines']:
                    k = (p, l['line_number'])
                    lines[k] = lines.get(k, 0) + l['count']
                    for bi, b in enumerate(l['branches']):
                        if not b['throw']: br[k + (bi,)] = br.get(k + (bi,), 0) + b['count']
    finally: shutil.rmtree(d, ignore_errors=True)
for p in sorted({k[0] for k in lines}):
    l = [k for k in lines if k[0] == p]; b = [k for k in br if k[0] == p]
    print('%-34s lines %d of %d, branches %d of %d' % (p, sum(lines[k] > 0 for k in l), len(l), sum(br[k] > 0 for k in b), len(b)))
src = {}
for k in sorted(lines):
    nb = [x[2] for x in br if x[:2] == k and not br[x]]
    if lines[k] == 0 or nb:
        t = src.setdefault(k[0], open(os.path.join(build.REPO, k[0])).read().split('\n'))
        print('%s:%d %s| %s' % (k[0], k[1], 'not run' if not lines[k] else 'branch %s' % nb, t[k[1] - 1].strip()))
