#!/usr/bin/env python3
"""Runs the checks against planted changes: seedcheck.py [-a Cxx,Cyy] [id prefix ...]
Each change of seeded/ is applied to a scratch copy of /repo and its property's check (or those given) is run on it."""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]; alt = None
if args and args[0] == '-a': alt = args[1].split(','); args = args[2:]
for sid in sorted(os.listdir(V + '/seeded')):
    if args and not any(sid.startswith(a) for a in args): continue
    d = V + '/seeded/' + sid
    prop = json.load(open(d + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    try:
        subprocess.run('git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q . && git apply %s/patch.diff' % (w, w, d), shell=True, check=True)
        for c in alt or [prop]:
            t = time.time()
            env = dict(os.environ, VERIF_REPO=w, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
            p = subprocess.run([sys.executable, V + '/run.py', c], env=env, capture_output=True, text=True)
            v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
            ok = p.returncode == 1 and any('property=' + c in l for l in v)
            print(sid, c, 'caught' if ok else 'MISSED rc=%d' % p.returncode, '%.0fs' % (time.time() - t), flush=True)
            if not ok: print(p.stdout[-600:], p.stderr[-600:], flush=True)
    finally: shutil.rmtree(w, ignore_errors=True)
