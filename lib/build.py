"""Builds driver + library variants from /repo's current tree.

Every variant links the sources found under <repo>/src with the request interpreter in /verif/driver.
Results are cached under /verif/.cache keyed by the content of all inputs, the flags and the compilers.
"""
import glob, hashlib, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
DRV = os.path.join(VERIF, 'driver')
STD = ['-std=c++20', '-w']
PORT = ['-include', os.path.join(DRV, 'portable.inc')]

class BuildError(Exception): pass

# name: (compiler, library flags, driver flags, link flags, use assembly)
SAN_OFF = ['-fno-omit-frame-pointer', '-g']
VARIANTS = {
    'rel':   ('g++', ['-O3', '-DNDEBUG'], ['-O1'], [], True),
    'port':  ('g++', ['-O2', '-DNDEBUG'] + PORT, ['-O1'] + PORT, [], False),
    'clang': ('clang++', ['-O2'], ['-O1'], [], True),
    # sanitizers: the driver itself is compiled with them too
    'asan':  ('clang++', ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'] + SAN_OFF,
              ['-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-DDRV_HEAPARGS'] + SAN_OFF,
              ['-fsanitize=address,undefined'], True),
    'asanport': ('clang++', ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'] + SAN_OFF + PORT,
              ['-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-DDRV_HEAPARGS'] + SAN_OFF + PORT,
              ['-fsanitize=address,undefined'], False),
    'gasan': ('g++', ['-O2', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'] + SAN_OFF,
              ['-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-DDRV_HEAPARGS', '-D_GLIBCXX_ASSERTIONS'] + SAN_OFF,
              ['-fsanitize=address,undefined'], True),
    'tsan':  ('clang++', ['-O1', '-fsanitize=thread'] + SAN_OFF, ['-O0', '-fsanitize=thread', '-DDRV_HEAPARGS'] + SAN_OFF, ['-fsanitize=thread'], True),
    'tsanport': ('clang++', ['-O1', '-fsanitize=thread'] + SAN_OFF + PORT, ['-O0', '-fsanitize=thread', '-DDRV_HEAPARGS'] + SAN_OFF + PORT, ['-fsanitize=thread'], False),
    'msan':  ('clang++', ['-O1', '-fsanitize=memory', '-fsanitize-memory-track-origins=0', '-D_GLIBCXX_EXTERN_TEMPLATE=0'] + SAN_OFF + PORT,
              ['-O0', '-fsanitize=memory', '-DDRV_HEAPARGS', '-DDRV_MSAN', '-D_GLIBCXX_EXTERN_TEMPLATE=0'] + SAN_OFF + PORT, ['-fsanitize=memory'], False),
    'vg':    ('g++', ['-O1', '-g'], ['-O1', '-DDRV_HEAPARGS'], [], True),
    # order of static initialisation as in a program whose own files come before the library
    'phase': ('g++', ['-O3', '-DNDEBUG'], ['-O1'], [], True),
    'phaseasan': ('clang++', ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'] + SAN_OFF + PORT,
              ['-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-DDRV_HEAPARGS'] + SAN_OFF + PORT,
              ['-fsanitize=address,undefined'], False),
    'cov':   ('g++', ['-O0', '-g', '--coverage', '-fprofile-update=atomic'], ['-O1'], ['--coverage'], True),
    'fault': ('g++', ['-O2', '-g', '-fsanitize-coverage=trace-pc'] + PORT, ['-O1', '-DDRV_ALLOC', '-fsanitize-coverage=trace-pc'] + PORT,
              ['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=posix_memalign,--wrap=aligned_alloc'], False),
}
# driver units a variant does not need
ONLY = {}

def lib_sources(asm):
    s = sorted(glob.glob(os.path.join(REPO, 'src', '*.cpp')))
    if asm: s += sorted(glob.glob(os.path.join(REPO, 'src', '*.s')) + glob.glob(os.path.join(REPO, 'src', '*.S')))
    if not s: raise BuildError('no library sources under %s/src' % REPO)
    return s

def _hash(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f: h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]

def _inputs():
    r = []
    for root in (os.path.join(REPO, 'src'), os.path.join(REPO, 'include'), DRV):
        for d, _, fs in os.walk(root): r += [os.path.join(d, f) for f in fs]
    return r

def cache_root():
    for c in (os.path.join(VERIF, '.cache'), os.path.join(tempfile.gettempdir(), 'verif-cache-%d' % os.getuid())):
        try:
            os.makedirs(c, exist_ok=True)
            t = tempfile.mkdtemp(dir=c); os.rmdir(t)
            return c
        except OSError: pass
    raise BuildError('no writable cache directory')

def _cc(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return p.returncode, p.stdout

def build(names):
    """Build all variants named, in parallel; returns {name: path of the driver}."""
    root = cache_root(); inp = _inputs()
    out = {}; jobs = []; todo = {}
    for n in names:
        cc, lf, df, kf, asm = VARIANTS[n]
        key = _hash(inp, (n, cc, lf, df, kf, asm, STD))
        d = os.path.join(root, key)
        exe = os.path.join(d, 'drv')
        out[n] = exe
        if os.path.exists(exe):
            os.utime(d); continue
        tmp = tempfile.mkdtemp(prefix='b-', dir=root)
        objs = []
        inc = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src')]
        for s in lib_sources(asm):
            o = os.path.join(tmp, 'lib_' + os.path.basename(s) + '.o')
            if s.endswith(('.s', '.S')):
                cmd = ['gcc', '-c', s, '-o', o]
            else:
                cmd = [cc] + STD + lf + inc + ['-c', s, '-o', o]
            objs.append((o, True)); jobs.append((cmd, n, s))
        for s in sorted(glob.glob(os.path.join(DRV, '*.cpp'))):
            o = os.path.join(tmp, 'drv_' + os.path.basename(s) + '.o')
            objs.append((o, False)); jobs.append(([cc] + STD + df + inc + ['-I' + DRV, '-c', s, '-o', o], n, s))
        todo[n] = (tmp, objs, d, exe)
    if not todo: return out
    # longest first
    weight = lambda j: 0 if 'ops_curve' in j[2] or 'ops_fault' in j[2] or 'ops_int' in j[2] or '/fp.cpp' in j[2] or '/g.cpp' in j[2] or 'ops_field' in j[2] else 1
    jobs.sort(key=weight)
    fails = []
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        for j, (rc, txt) in zip(jobs, ex.map(lambda j: _cc(j[0]), jobs)):
            if rc: fails.append((j, txt))
    for (cmd, n, s), txt in fails:
        # a driver unit that no longer compiles only takes its own operations with it
        if s.startswith(DRV) and not s.endswith('main.cpp'):
            sys.stderr.write('note: driver unit %s does not compile (%s):\n%s\n' % (s, n, txt[-1500:]))
        else:
            raise BuildError('compiling %s (%s) failed:\n%s' % (s, n, txt[-3000:]))
    for n, (tmp, objs, d, exe) in todo.items():
        cc, lf, df, kf, asm = VARIANTS[n]
        exe_t = os.path.join(tmp, 'drv')
        if n == 'phase': objs = [x for x in objs if not x[1]] + [x for x in objs if x[1]]
        if n == 'phaseasan': objs = [x for x in objs if not x[1]] + [x for x in objs if x[1]][::-1]
        rc, txt = _cc([cc] + [o for o, _ in objs if os.path.exists(o)] + kf + ['-lpthread', '-o', exe_t])
        if rc: raise BuildError('linking %s failed:\n%s' % (n, txt[-3000:]))
        if n != 'cov':
            for o, _ in objs:
                if os.path.exists(o): os.unlink(o)
        try:
            if not os.path.exists(d): os.rename(tmp, d)
        except OSError: pass
        if os.path.exists(tmp): shutil.rmtree(tmp, ignore_errors=True)
        if not os.path.exists(exe): raise BuildError('build of %s vanished' % n)
    _trim(root)
    return out

def _trim(root, keep=24):
    ds = [os.path.join(root, x) for x in os.listdir(root)]
    now = time.time()
    ds = sorted([d for d in ds if os.path.isdir(d)], key=os.path.getmtime, reverse=True)
    for d in ds[keep:]:
        if now - os.path.getmtime(d) > 3600: shutil.rmtree(d, ignore_errors=True)
