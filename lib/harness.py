"""Runs request workloads against the driver, compares every reply with an oracle, records evidence."""
import hashlib, json, os, random, re, selectors, shutil, signal, subprocess, sys, tempfile, time, traceback
import build

VERIF = build.VERIF
NPROC = min(8, os.cpu_count() or 8)
HANG_S = 150          # no reply for this long: the request is suspected to hang (re-run before it counts)

class Inconclusive(Exception): pass

class V:
    """expected reply computed only when it is compared"""
    __slots__ = ('f', 'a')
    def __init__(self, f, *a): self.f = f; self.a = a
    def __call__(self): return self.f(*self.a)
class C:
    """checker: f(reply, *args) returns None or a complaint"""
    __slots__ = ('f', 'a')
    def __init__(self, f, *a): self.f = f; self.a = a
    def __call__(self, r): return self.f(r, *self.a)

def judge(reply, exp):
    """None when the reply is right, otherwise a complaint"""
    if exp is None: return None
    if isinstance(exp, C): return exp(reply)
    if isinstance(exp, V): exp = exp()
    if reply == exp: return None
    return 'want %s' % exp
_suffix = re.compile(r' (DIFF:\S+|MODIFIED-INPUT)')
def check_reply(reply, exp):
    """Also judges what the different forms of the operation (value, in place, aliased, ...) returned."""
    if ' MODIFIED-INPUT' in reply: return 'the call changed an argument it may only read'
    if ' DIFF:' not in reply: return judge(reply, exp)
    main = _suffix.sub('', reply)
    bad = judge(main, exp)
    if bad: return bad
    for m in re.findall(r' DIFF:(\S+)', reply):
        label, eq, val = m.partition('=')
        if not eq: return 'observed ' + label
        if exp is None or not isinstance(exp, C): return 'form %s returns %s' % (label, val)
        # representations of one result may differ between forms; each must be right by itself
        b = judge(main.replace(main.split(' ')[0], val, 1) if ' ' in main else val, exp)
        if b: return 'form %s: %s' % (label, b)
    return None

# ------------------------------------------------------------------ one driver run
def env_for(variant, extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('BLS_', 'ASAN', 'TSAN', 'MSAN', 'UBSAN', 'LSAN'))}
    e['ASAN_OPTIONS'] = 'detect_leaks=1:halt_on_error=1:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1:max_allocation_size_mb=6000'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
    e['TSAN_OPTIONS'] = 'halt_on_error=0:exitcode=66:report_thread_leaks=0'
    e['MSAN_OPTIONS'] = 'halt_on_error=1:exitcode=77'
    if variant.endswith('@nobmi'): e['BLS_DISABLE_BMI2'] = '1'
    e.update(extra or {})
    return e
def exe_of(variant): return BUILT[variant.split('@')[0]]
BUILT = {}

class Run:
    __slots__ = ('replies', 'rc', 'err', 'hang', 'tail')
try: import ctypes; PRCTL = ctypes.CDLL(None).prctl
except Exception: PRCTL = None
def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if PRCTL: PRCTL(1, 9, 0, 0, 0)          # PR_SET_PDEATHSIG: no driver outlives its worker

# One confirmed hang settles the verdict: the marker file makes every other worker of the check end soon.
STOP = None; KNOWN_KEYS = ()
def stop(key):
    if STOP and key not in KNOWN_KEYS: open(STOP, 'w').close()
def stopped(): return STOP is not None and os.path.exists(STOP)

def drive(variant, lines, args=(), env=None, hang=HANG_S, prefix=(), keep_order=True):
    """feed request lines, collect reply lines; stops on crash or when no reply arrives for `hang` s"""
    r = Run(); r.hang = False
    d = tempfile.mkdtemp(prefix='vf-')
    try:
        fi = os.path.join(d, 'i'); fo = os.path.join(d, 'o'); fe = os.path.join(d, 'e')
        with open(fi, 'w') as f: f.write('\n'.join(lines)); f.write('\n')
        with open(fi) as i, open(fo, 'w') as o, open(fe, 'w') as e:
            p = subprocess.Popen(list(prefix) + [exe_of(variant)] + list(args), stdin=i, stdout=o, stderr=e,
                                 env=env_for(variant, env), cwd=d, preexec_fn=limits, start_new_session=True)
            last = -1; t0 = time.monotonic()
            while True:
                try:
                    p.wait(2.0 if time.monotonic() - t0 > 1 else 0.2); break
                except subprocess.TimeoutExpired: pass
                n = os.path.getsize(fo)
                if n != last: last = n; t0 = time.monotonic()
                elif time.monotonic() - t0 > hang or (time.monotonic() - t0 > 15 and stopped()):
                    r.hang = True
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except OSError: p.kill()
                    p.wait(); break
        r.rc = p.returncode
        with open(fo, errors='replace') as f: r.replies = f.read().split('\n')
        if r.replies and r.replies[-1] == '': r.replies.pop()
        elif r.replies: r.replies.pop()     # cut off line
        with open(fe, errors='replace') as f: r.err = f.read()
        # leak detection needs ptrace of the process itself; where that is denied the other monitors still count
        if r.rc and 'LeakSanitizer has encountered a fatal error' in r.err and 'ERROR: ' not in r.err and 'runtime error' not in r.err: r.rc = 0
        return r
    finally: shutil.rmtree(d, ignore_errors=True)

# ------------------------------------------------------------------ tasks
class Job:
    """A workload. gen(ctx) yields (request, expectation, class). Every request runs on every variant."""
    def __init__(self, name, gen, variants=('rel',), shards=NPROC, batch=600, args=(), env=None, compare=False, only_crash=False, prefix=(), hang=HANG_S):
        self.name, self.gen, self.variants, self.shards, self.batch = name, gen, variants, shards, batch
        self.args, self.env, self.compare, self.only_crash, self.prefix, self.hang = list(args), env, compare, only_crash, list(prefix), hang

# how much of a check's basic workload the quick tier runs (chosen so that each takes some 10-20 s)
SCALE = {'C01': 20, 'C03': 18, 'C04': 24, 'C05': 32, 'C06': 30, 'C07': 12, 'C08': 16, 'C09': 24, 'C10': 18, 'C11': 100, 'C12': 20, 'C13': 10, 'C14': 12, 'C15': 100,
         'C16': 40, 'C17': 20, 'C18': 12, 'C19': 60, 'C20': 60, 'C21': 80, 'C27': 200, 'C26': 30, 'C28': 1500}
class Ctx:
    def __init__(self, prop, tier, seed, job, shard, shards, lit, scale=1):
        self.scale = scale
        self.prop, self.tier, self.seed, self.shard, self.shards, self.lit = prop, tier, seed, shard, shards, lit
        self.rng = random.Random('%s/%s/%s/%s' % (seed, prop, job, shard))
        self.notes = {}
        self.k = 0
    @property
    def thorough(self): return self.tier == 'thorough'
    def n(self, quick, thorough=None):
        """this shard's share of a number of cases"""
        t = quick * self.scale
        if self.thorough: t = max(t, thorough if thorough is not None else quick * 20)
        return (t + self.shards - 1) // self.shards
    def rounds(self, quick, thorough):
        """a number of rounds of a workload that is not dealt out: every shard runs them with its own seed"""
        t = max(quick, quick * self.scale // 4)
        return max(t, thorough) if self.thorough else t
    def mine(self, it, keep=False):
        """deal an enumeration out over the shards; keep: exceptional inputs, which samples of this workload should contain"""
        for x in it:
            self.k += 1
            if self.k % self.shards == self.shard: yield x
    def note(self, key, by=1): self.notes[key] = self.notes.get(key, 0) + by

class SampleCtx(Ctx):
    """for samples of a workload: a few entries of every enumeration instead of one shard's share"""
    def mine(self, it, keep=False):
        l = list(it)
        return self.rng.sample(l, min(len(l), max(48 if keep else 5, len(l) // self.shards)))

def crash_text(run):
    e = run.err.strip()
    m = re.search(r'(ERROR: \w+Sanitizer[^\n]*|runtime error[^\n]*|WARNING: \w+Sanitizer[^\n]*|Assertion[^\n]*)', e)
    fr = [x for x in re.findall(r'#\d+ 0x[0-9a-f]+ in ([^\n]*)', e) if 'bls12_381' in x or '/src/' in x or '/include/' in x][:3]
    if m: return re.sub(r'0x[0-9a-f]{6,}', '0x..', m.group(1)) + (' in ' + ' < '.join(re.sub(r' /\S*/', ' ', f) for f in fr) if fr else '')
    return 'exit %s %s' % (run.rc, e[-200:].replace('\n', ' | '))

def run_task(check, job, shard, tier, seed, lit):
    ctx = Ctx(check.id, tier, seed, job.name, shard, job.shards, lit, SCALE.get(check.id, 1))
    res = {'evals': 0, 'classes': {}, 'hashes': set(), 'samples': [], 'viol': [], 'notes': ctx.notes, 'inconclusive': [], 'errors': []}
    it = iter(job.gen(ctx))
    done = False
    base = 0
    history = []
    while not done and not stopped():
        batch = []
        try:
            while len(batch) < job.batch: batch.append(next(it))
        except StopIteration: done = True
        if not batch: break
        lines = ['%d %s' % (i, b[0]) for i, b in enumerate(batch)]
        ref = None
        for variant in job.variants:
            start = 0
            out = {}
            tries = 0
            while start < len(lines):
                run = drive(variant, lines[start:], job.args, job.env, job.hang, job.prefix)
                got = run.replies
                for ln in got:
                    k, _, v = ln.partition(' ')
                    if k.isdigit(): out[int(k)] = v
                nxt = start
                while nxt < len(lines) and nxt in out: nxt += 1
                clean = not run.hang and run.rc == 0
                if clean and nxt >= len(lines): break
                if clean:
                    res['errors'].append('driver %s ended without replying to: %s' % (variant, batch[nxt][0][:200])); break
                # abnormal end: at the first request without reply (or after the last one)
                if nxt >= len(lines):
                    v = exit_violation(check, job, variant, lines[start:], batch, run)
                    if v: res['viol'].append(v)
                    break
                v, kind = confirm_crash(check, job, variant, lines, start, nxt, run)
                if v: res['viol'].append(v)
                else: res['inconclusive'].append(kind)
                tries += 1
                if stopped() or tries > 3 or len(res['viol']) > 5: break
                start = nxt + 1
            for i, (req, exp, cls) in enumerate(batch):
                if i not in out: continue
                rep = out[i]
                if rep.startswith('!bad'):
                    res['errors'].append('driver cannot serve %s: %s' % (req[:100], rep)); continue
                if job.only_crash: bad = None
                else:
                    try: bad = check_reply(rep, exp)
                    except Exception as ex: bad = 'malformed reply (%s: %s)' % (type(ex).__name__, ex)
                if not bad and job.compare and ref is not None and i in ref and ref[i] != rep:
                    bad = '%s replied %s' % (job.variants[0], ref[i])
                if bad and len(res['viol']) < 8:
                    res['viol'].append(confirm_reply(check, job, variant, lines, batch, i, rep, bad))
                res['evals'] += 1
                if variant == job.variants[0]:
                    res['classes'][cls] = res['classes'].get(cls, 0) + 1
                    res['hashes'].add(hash((req, cls)) & (2**52 - 1))
            if ref is None: ref = out
        if len(res['samples']) < 3 and batch:
            i = ctx.rng.randrange(len(batch))
            res['samples'].append({'job': job.name, 'class': batch[i][2], 'request': batch[i][0][:400], 'reply': str(ref.get(i))[:200]})
        if len(res['viol']) >= 3: break
        base += len(batch)
    return res

def replay_file(check, variant, args, env, lines, text, kind, prefix=()):
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    h = hashlib.sha256(('%s%s%s' % (variant, lines[-1:], text[:80])).encode()).hexdigest()[:12]
    p = os.path.join(VERIF, 'evidence', 'replay', '%s-%s.json' % (check.id, h))
    with open(p, 'w') as f:
        json.dump({'property': check.id, 'kind': kind, 'what': text[:4000], 'variant': variant, 'args': list(args), 'env': env,
                   'prefix': list(prefix), 'requests': lines, 'how': 'python3 run.py --replay <this file>'}, f, indent=1)
    return os.path.relpath(p, VERIF)

def confirm_reply(check, job, variant, lines, batch, i, rep, bad):
    req = batch[i][0]
    alone = drive(variant, [lines[i]], job.args, job.env, job.hang, job.prefix)
    a = next((l.partition(' ')[2] for l in alone.replies if l.split(' ')[0] == str(i)), None)
    hist = [lines[i]] if a == rep else lines[:i + 1]
    text = '%s -> %s : %s' % (req, rep, bad)
    if a != rep: text += ' (alone it replies %s: depends on earlier calls or memory)' % a
    return {'kind': 'wrong-result', 'key': req, 'text': text, 'replay': replay_file(check, variant, job.args, job.env, hist, text, 'wrong-result', job.prefix), 'variant': variant}

def confirm_crash(check, job, variant, lines, start, i, run):
    what = 'no reply for %d s' % job.hang if run.hang else crash_text(run)
    req = lines[i].partition(' ')[2]
    for hist in ([lines[i]], lines[start:i + 1]):
        again = drive(variant, hist, job.args, job.env, job.hang, job.prefix)
        bad = again.hang or (again.rc not in (0,) and len([l for l in again.replies if l.split(' ')[0].isdigit()]) < len(hist))
        if bad:
            if not again.hang and again.rc == -9: return None, 'killed: %s' % req[:100]
            w = 'no reply for %d s' % job.hang if again.hang else crash_text(again)
            kind = 'hang' if again.hang else 'crash'
            if again.hang and stopped(): return None, 'slow: %s' % req[:100]
            if again.hang: stop(req)
            text = '%s -> %s' % (req, w)
            return {'kind': kind, 'key': req, 'text': text, 'variant': variant, 'err': again.err[-6000:],
                    'replay': replay_file(check, variant, job.args, job.env, hist, text + '\n' + again.err[-3000:], kind, job.prefix)}, None
        if run.hang: break
    return None, 'not reproduced: %s -> %s' % (req[:200], what)

def exit_violation(check, job, variant, lines, batch, run):
    """all requests answered but the process did not end cleanly: leaks, sanitizer reports at exit"""
    if run.rc == -9 or run.hang: return None
    text = crash_text(run)
    # find one request that does it alone
    culprit = lines
    lo = lines
    tested = 0
    while len(lo) > 1 and tested < 14:
        half = lo[:len(lo) // 2]; rest = lo[len(lo) // 2:]
        tested += 1
        if drive(variant, half, job.args, job.env, job.hang, job.prefix).rc not in (0, -9): lo = half
        elif drive(variant, rest, job.args, job.env, job.hang, job.prefix).rc not in (0, -9): lo = rest
        else: break
    again = drive(variant, lo, job.args, job.env, job.hang, job.prefix)
    if again.rc in (0, -9): return None
    text = crash_text(again)
    req = lo[-1].partition(' ')[2]
    text = '%s -> %s' % (req if len(lo) == 1 else '%d requests ending in %s' % (len(lo), req), text)
    return {'kind': 'exit', 'key': req, 'text': text, 'variant': variant, 'err': again.err[-6000:],
            'replay': replay_file(check, variant, job.args, job.env, lo, text + '\n' + again.err[-3000:], 'exit', job.prefix)}

# ------------------------------------------------------------------ process pool
def pool(tasks, fn):
    """run fn(task) in forked processes, NPROC at a time; yields (task, result or exception text)"""
    import pickle
    running = {}; tasks = list(tasks); n = 0
    d = tempfile.mkdtemp(prefix='vp-')
    try:
        while tasks or running:
            if tasks and stopped(): tasks = []
            while tasks and len(running) < NPROC:
                t = tasks.pop(0); n += 1
                path = os.path.join(d, str(n))
                sys.stdout.flush(); sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        try: r = ('ok', fn(t))
                        except BaseException: r = ('exc', traceback.format_exc())
                        with open(path, 'wb') as f: pickle.dump(r, f)
                    finally: os._exit(0)
                running[pid] = (t, path)
            pid, st = os.wait()
            if pid not in running: continue
            t, path = running.pop(pid)
            try:
                with open(path, 'rb') as f: k, r = pickle.load(f)
                os.unlink(path)
            except Exception as e: k, r = 'exc', 'worker died with status %s (%s)' % (st, e)
            yield t, k, r
    finally: shutil.rmtree(d, ignore_errors=True)

# ------------------------------------------------------------------ known findings
def known():
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S.*?) :: (.*)', l)
            if m: r.append((m.group(1), m.group(2), m.group(3)))
    return r

class Check:
    """id, level, rule, jobs(tier) -> [Job]; special(tier, seed, lit, agg) for custom monitors"""
    def __init__(self, id, rule, jobs=None, special=None, variants=(), level='exploration', assumptions=(), prepare=None):
        self.id, self.rule, self.jobs, self.special, self.variants = id, rule, jobs, special, variants
        self.level, self.assumptions, self.prepare = level, list(assumptions), prepare

class Agg:
    def __init__(self):
        self.evals = 0; self.classes = {}; self.hashes = set(); self.samples = []; self.viol = []; self.notes = {}; self.inc = []; self.errors = []
    def add(self, r):
        self.evals += r['evals']; self.hashes |= r['hashes']; self.samples += r['samples']; self.viol += r['viol']
        self.inc += r['inconclusive']; self.errors += r['errors']
        for k, v in r['classes'].items(): self.classes[k] = self.classes.get(k, 0) + v
        for k, v in r['notes'].items():
            if k.startswith('max '): self.notes[k] = max(self.notes.get(k, 0), v)
            else: self.notes[k] = self.notes.get(k, 0) + v

def run_check(check, tier, seed, lit):
    global STOP, KNOWN_KEYS
    t0 = time.time()
    KNOWN_KEYS = {x[1] for x in known() if x[0] == check.id}
    STOP = os.path.join(tempfile.gettempdir(), 'vf-stop-%d' % os.getpid())
    if os.path.exists(STOP): os.unlink(STOP)
    try: return run_check_(check, tier, seed, lit, t0)
    finally:
        if os.path.exists(STOP): os.unlink(STOP)
def run_check_(check, tier, seed, lit, t0):
    agg = Agg()
    jobs = check.jobs(tier) if check.jobs else []
    need = sorted({v.split('@')[0] for j in jobs for v in j.variants} | set(check.variants))
    t1 = time.time()
    BUILT.update(build.build(need))
    tb = time.time() - t1
    if check.prepare: check.prepare()
    tasks = [(j, s) for j in jobs for s in range(j.shards)]
    for t, k, r in pool(tasks, lambda t: run_task(check, t[0], t[1], tier, seed, lit)):
        if k == 'exc': agg.errors.append('%s[%d]: %s' % (t[0].name, t[1], r))
        else: agg.add(r)
        if agg.viol and time.time() - t0 > 600: stop(None)
    if check.special and not stopped():
        try: check.special(check, tier, seed, lit, agg)
        except build.BuildError: raise
    kf = [x for x in known() if x[0] == check.id]
    seen = set(); news = []
    for v in agg.viol:
        hit = next((x for x in kf if x[1] == v['key']), None)
        if hit:
            if hit[1] not in seen: print('KNOWN-FINDING: property=%s %s' % (check.id, hit[2])); seen.add(hit[1])
        else: news.append(v)
    cov = {'evaluations': agg.evals, 'distinct_nontrivial': len(agg.hashes), 'rule': check.rule,
           'samples': agg.samples[:: max(1, len(agg.samples) // 8)][:8], 'classes': dict(sorted(agg.classes.items())),
           'observed': dict(sorted(agg.notes.items())), 'inconclusive': agg.inc[:20],
           'builds': need, 'build_s': round(tb, 1)}
    ev = {'property': check.id, 'tier': tier, 'seed': seed, 'level': check.level, 'coverage': cov,
          'assumptions': check.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(news)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', check.id + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for v in news[:10]:
        print('VIOLATION property=%s replay=%s' % (check.id, v['replay']))
        print('  [%s] %s' % (v.get('variant'), v['text'][:1500]))
    for e in agg.errors[:5]: print('ERROR: ' + e[:1500])
    for e in agg.inc[:5]: print('INCONCLUSIVE: ' + e[:300])
    print('%s %s: %d evaluations, %d distinct, %d violations, %.1fs (build %.1fs)' % (check.id, tier, agg.evals, len(agg.hashes), len(news), time.time() - t0, tb))
    if news: return 1
    if agg.errors: return 2
    if agg.evals == 0: print('ERROR: nothing observed'); return 2
    return 0
