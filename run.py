#!/usr/bin/env python3
"""python3 run.py <property>|all        run a check (VERIF_SEED, VERIF_TIER)
   python3 run.py --replay <file>       run a recorded violation again
   python3 run.py --setup               build the common variants, self-test the reference model"""
import json, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.setrecursionlimit(10000)
import build, harness, gen, ref

def load():
    import checks_field
    reg = dict(checks_field.CHECKS)
    for m in ('checks_curve', 'checks_sig', 'checks_dyn'):
        try: mod = __import__(m)
        except ModuleNotFoundError as e:
            if e.name != m: raise
            continue
        reg.update(mod.CHECKS)
    return reg

def replay(path):
    r = json.load(open(path))
    v = r['variant']
    harness.BUILT.update(build.build([v.split('@')[0]]))
    run = harness.drive(v, r['requests'], r['args'], r.get('env'), 150, r.get('prefix', ()))
    print(r['what'][:3000]); print('---- now:')
    for l in run.replies[-20:]: print(l[:2000])
    print('exit', run.rc, 'hang' if run.hang else ''); print(run.err[-3000:])
    return 0

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == '--replay': return replay(a[1])
    if a[0] == '--setup':
        ref.selftest(); build.build(['rel']); print('ready'); return 0
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if tier not in ('quick', 'thorough'): tier = 'quick'
    reg = load(); lit = gen.Lit()
    rc = 0
    for p in (sorted(reg) if a[0] == 'all' else a):
        try: rc = max(rc, harness.run_check(reg[p], tier, seed, lit))
        except build.BuildError as e: print('ERROR: %s' % e); rc = max(rc, 2)
        except Exception:
            import traceback; traceback.print_exc(); rc = max(rc, 2)
    return rc
sys.exit(main())
