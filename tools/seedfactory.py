#!/usr/bin/env python3
"""Turns the definitions in seeds_*.py into /verif/seeded/<id>/ and confirms each one.

  seedfactory.py [-j N] [--no-check] [ID-prefix ...]

For every definition, in a scratch copy of /repo: apply the edit, write patch.diff, build,
run the stable tests, run the demonstration on the unchanged and on the changed tree, then
run the property's check on the changed tree.  Only confirmed changes are written.
The checks never read any of this."""
import sys, os, subprocess, json, shutil, tempfile, importlib, glob, concurrent.futures as cf, re, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
sys.path.insert(0, HERE)

DEMO_SH = '''#!/bin/bash
# run with cwd = the repository, after its build; exit 0: behaves, nonzero: the property is broken
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -f "$out/demo"; rmdir "$out"' EXIT
%s || exit 2
%stimeout 200 "$out/demo"
'''
COMPILE = 'g++ -std=c++20 -O2 -w -Iinclude -Isrc "$here/demo.cpp" _build/libbls12-381.a -o "$out/demo" -lpthread'
# every source compiled in, as on a CPU the assembly does not support
COMPILE_PORTABLE = 'g++ -std=c++20 -O1 -w -include "$here/portable.inc" -Iinclude -Isrc "$here/demo.cpp" src/arithmetic.cpp src/fp.cpp src/g.cpp src/pairing.cpp src/scalar.cpp src/sha256.cpp src/signatures.cpp -o "$out/demo" -lpthread'
COMPILE_ASAN = 'g++ -std=c++20 -O1 -g -w -fsanitize=address,undefined -fno-sanitize-recover=all -Iinclude -Isrc "$here/demo.cpp" src/arithmetic.cpp src/arithmetic.s src/fp.cpp src/g.cpp src/pairing.cpp src/scalar.cpp src/sha256.cpp src/signatures.cpp -o "$out/demo" -lpthread'
COMPILE_TSAN = COMPILE_ASAN.replace('-fsanitize=address,undefined -fno-sanitize-recover=all', '-fsanitize=thread -include "$here/portable.inc"').replace(' src/arithmetic.s', '')
PRE = r'''#include <bits/stdc++.h>
#include <bls12-381/bls12-381.hpp>
using namespace bls12_381;
using namespace std;
static int fails = 0;
#define CHECK(c) do { if(!(c)) { printf("failed: %s (line %d)\n", #c, __LINE__); fails++; } } while(0)
static uint64_t S_ = 88172645463325252ull;
static uint64_t rnd() { S_ ^= S_ << 13; S_ ^= S_ >> 7; S_ ^= S_ << 17; return S_; }
static fp rfp() { array<uint64_t, 8> k; for(auto& v : k) v = rnd(); return fp::modPrime(k); }
static fp2 rfp2() { fp a = rfp(); return fp2({a, rfp()}); }
static fp6 rfp6() { fp2 a = rfp2(), b = rfp2(); return fp6({a, b, rfp2()}); }
static fp12 rfp12() { fp6 a = rfp6(); return fp12({a, rfp6()}); }
static array<uint64_t, 4> rsc() { return {rnd(), rnd(), rnd(), rnd() >> 2}; }
static vector<uint8_t> bytes(const string& s) { return {s.begin(), s.end()}; }
// a random point of the full curve (not only of the subgroup)
static g1 rg1() { for(;;) { g1 p; p.x = rfp(); p.z = fp::one(); fp t = p.x.square().multiply(p.x).add(fp::B); if(t.sqrt(p.y)) return p; } }
static g2 rg2() { for(;;) { g2 p; p.x = rfp2(); p.z = fp2::one(); fp2 t = p.x.square().multiply(p.x).add(fp2::B); if(t.sqrt(p.y)) return p; } }
static g1 rez(const g1& p, const fp& z) { g1 r = p.affine(); r.x = r.x.multiply(z.square()); r.y = r.y.multiply(z.square()).multiply(z); r.z = z; return r; }
static g2 rez(const g2& p, const fp2& z) { g2 r = p.affine(); r.x = r.x.multiply(z.square()); r.y = r.y.multiply(z.square()).multiply(z); r.z = z; return r; }
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def copy_repo(dst):
    os.makedirs(dst)
    sh(f"cd {REPO} && tar cf - --exclude=./_build --exclude=./.vp . | tar xf - -C {dst}")

def build(dst):
    s = open('/opt/vp/build.sh').read().replace('/repo', dst)
    return sh(s, executable='/bin/bash')

def test(dst):
    s = open('/opt/vp/test.sh').read().replace('bash /opt/vp/build.sh', 'true').replace('/repo', dst)
    open(dst + '/.t.sh', 'w').write(s)
    r = sh(f'bash {dst}/.t.sh {dst}/.t.json')
    try:
        j = json.load(open(dst + '/.t.json'))
    except Exception:
        return ['no result ' + r.stdout[-300:]]
    os.unlink(dst + '/.t.json'); os.unlink(dst + '/.t.sh')
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [s for s in stable if s not in j['passed']]

def apply(d, dst):
    for e in d['edits']:
        f, old, new = e[:3]
        nth = e[3] if len(e) > 3 else None
        p = os.path.join(dst, f); t = open(p).read()
        n = t.count(old)
        if nth is None:
            if n != 1: raise RuntimeError(f'{d["id"]}: {n} occurrences of {old!r} in {f}')
            t = t.replace(old, new)
        else:
            parts = t.split(old)
            if nth >= n: raise RuntimeError(f'{d["id"]}: only {n} occurrences of {old!r}')
            t = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
        open(p, 'w').write(t)

def write_demo(d, out):
    kind = d.get('kind', 'lib')
    comp = {'lib': COMPILE, 'portable': COMPILE_PORTABLE, 'asan': COMPILE_ASAN, 'tsan': COMPILE_TSAN}[kind]
    if kind in ('portable', 'tsan'):
        open(out + '/portable.inc', 'w').write('#include <bits/stdc++.h>\n#undef __x86_64__\n#undef __x86_64\n#undef __amd64__\n#undef __amd64\n')
    open(out + '/demo.sh', 'w').write(DEMO_SH % (comp, d.get('envprefix', '')))
    os.chmod(out + '/demo.sh', 0o755)
    body = d['demo']
    if 'int main' not in body:
        body = 'int main() {\n' + body + '\nreturn fails ? 1 : 0;\n}\n'
    open(out + '/demo.cpp', 'w').write(d.get('inc', '') + '\n' * ('inc' in d) + PRE + body)
    json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(out + '/meta.json', 'w'), indent=1)

def one(d, do_check):
    t0 = time.time()
    base = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    dst = base + '/repo'; dd = base + '/demo'; os.makedirs(dd)
    res = {'id': d['id'], 'property': d['property']}
    try:
        copy_repo(dst); write_demo(d, dd)
        r = build(dst)
        if r.returncode: res['error'] = 'clean build ' + r.stdout[-300:]; return res
        r = sh(f'bash {dd}/demo.sh', cwd=dst)
        if r.returncode: res['error'] = 'demo fails on the unchanged tree: ' + r.stdout[-1500:]; return res
        apply(d, dst)
        diff = sh('git diff', cwd=dst).stdout
        open(dd + '/patch.diff', 'w').write(diff)
        r = build(dst)
        if r.returncode: res['error'] = 'build ' + r.stdout[-1500:]; return res
        bad = test(dst)
        if bad: res['error'] = 'tests fail: ' + str(bad[:4]); return res
        r = sh(f'bash {dd}/demo.sh', cwd=dst)
        if r.returncode in (0, 2): res['error'] = f'demo exits {r.returncode} with the change: ' + r.stdout[-1500:]; return res
        res['demo'] = (r.returncode, r.stdout[-200:])
        out = f'{VERIF}/seeded/{d["id"]}'
        if os.path.isdir(out): shutil.rmtree(out)
        shutil.copytree(dd, out)
        if do_check:
            env = dict(os.environ, VERIF_REPO=dst, VERIF_SEED='1', VERIF_TIER='quick', VERIF_EVIDENCE=base)
            for c in [d['property']] + d.get('also', []):
                t1 = time.time()
                r = subprocess.run([sys.executable, VERIF + '/run.py', c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                res.setdefault('checks', {})[c] = (r.returncode, len(v), round(time.time() - t1))
                res.setdefault('out', {})[c] = r.stdout[-600:]
        res['secs'] = round(time.time() - t0)
        return res
    except Exception as e:
        res['error'] = repr(e); return res
    finally:
        shutil.rmtree(base, ignore_errors=True)

def main():
    args = sys.argv[1:]; j = 3; do_check = True
    if '-j' in args: i = args.index('-j'); j = int(args[i + 1]); del args[i:i + 2]
    if '--no-check' in args: args.remove('--no-check'); do_check = False
    defs = []
    for f in sorted(glob.glob(HERE + '/seeds_*.py')):
        defs += importlib.import_module(os.path.basename(f)[:-3]).SEEDS
    ids = [d['id'] for d in defs]; assert len(set(ids)) == len(ids), 'duplicate id'
    if args: defs = [d for d in defs if any(re.match(a, d['id']) for a in args)]
    log = open('/tmp/w/seed_results.jsonl', 'a')
    with cf.ThreadPoolExecutor(j) as ex:
        for f in cf.as_completed([ex.submit(one, d, do_check) for d in defs]):
            r = f.result()
            print(r['id'], r.get('error') or ('demo', r['demo'][0], r.get('checks')), r.get('secs', ''), flush=True)
            log.write(json.dumps(r) + '\n'); log.flush()

if __name__ == '__main__':
    main()
