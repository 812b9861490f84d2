"""C02, C22-C26: back ends, undefined behaviour, concurrency, purity, callbacks, allocation failure.
Requests come from the generators of all other checks; what differs is what is watched."""
import os, random, re, itertools, time
import ref, gen, harness
from ref import P, R
from gen import *
from harness import Job, Check, V, C, SampleCtx, drive, pool, replay_file, crash_text
import checks_field, checks_curve, checks_sig

CHECKS = {}
def reg(c): CHECKS[c.id] = c
SOURCES = {}
for m in (checks_field, checks_curve, checks_sig): SOURCES.update(m.CHECKS)
SKIP_JOBS = ('bulk', 'huge')

def sources(tier='quick', skip=()):
    """(name, generator) of every workload"""
    out = []
    for cid in sorted(SOURCES):
        if cid in skip: continue
        for j in SOURCES[cid].jobs(tier):
            if j.name not in SKIP_JOBS: out.append((cid, j))
    return out
def sample(cid, job, rng, lit, per, cap=12500, parts=64, seed=0):
    """a random selection of one workload's requests"""
    ctx = SampleCtx(cid, 'quick', rng.getrandbits(40), job.name, rng.randrange(parts), parts, lit)
    res = []; byc = {}; byop = {}
    for i, (req, _, cls) in enumerate(itertools.islice(job.gen(ctx), cap)):
        if len(res) < per: res.append((req, cls))
        else:
            k = rng.randrange(i + 1)
            if k < per: res[k] = (req, cls)
        for key, d in ((cls, byc), (opkey(req), byop)):      # rare classes (exceptional inputs, special values) and operations must not be sampled away
            if not key: continue
            l = d.setdefault(key, [0, []]); l[0] += 1
            if len(l[1]) < 3: l[1].append((req, cls))
            elif rng.random() < 3 / l[0]: l[1][rng.randrange(3)] = (req, cls)
    for d, keyof in ((byc, lambda x: x[1]), (byop, lambda x: opkey(x[0]))):
        if len(d) > 80: continue
        have = {}
        for x in res: have[keyof(x)] = have.get(keyof(x), 0) + 1
        q = max(1, min(3, per // 20))
        for c, (_, l) in d.items():
            for x in l[:max(0, q - have.get(c, 0))]:
                if x not in res: res.append(x)
    rng.shuffle(res)
    return res
def mixed(ctx, per, skip=(), cap=12500, parts=64):
    """this shard's share of samples of all workloads"""
    src = sources(skip=skip)
    for cid, j in ctx.mine(src) if ctx.shards > 1 else src:
        yield from sample(cid, j, ctx.rng, ctx.lit, per, cap, parts)
def opkey(req):
    f = req.split(' ')
    return ' '.join(f[:2]) if f[0] in ('g1', 'g2', 't2', 't6', 't12', 'enc', 'dec', 'pairing', 'wsum') else f[0]

# ------------------------------------------------------------------ C02
BACK = ('rel', 'rel@nobmi', 'port')
def c02(ctx):
    for req, cls in mixed(ctx, 150 if not ctx.thorough else 1500, parts=64 if not ctx.thorough else 16, cap=12500 if not ctx.thorough else 20000): yield req, None, opkey(req)
def c02_words(ctx):
    """the cheap operations, where back ends differ most, in bulk"""
    for s in range(ctx.n(48, 2000)):
        yield 'digest %d %d' % (ctx.rng.getrandbits(62), 30000), None, 'digest of 30000 structured operand pairs through every base-field operation'
    for cid in ('C01', 'C05'):
        for j in SOURCES[cid].jobs(ctx.tier):
            if j.name in SKIP_JOBS: continue
            for req, cls in sample(cid, j, ctx.rng, ctx.lit, 700 if not ctx.thorough else 20000, 4000 if not ctx.thorough else 100000, 8): yield req, None, opkey(req)
def c02_large(ctx):
    for q in ctx.mine(large(ctx.rng)): yield q, None, 'large: ' + opkey(q)
reg(Check('C02', 'The same requests (samples of every other check\'s workload, all public operations; plus digests over tens of thousands of structured operand pairs per request through every base-field operation) on the run-time selected assembly, the generic assembly (BLS_DISABLE_BMI2) and the portable C++ build; replies must be identical byte for byte, representation included. Distinct = distinct request.',
          jobs=lambda tier: [Job('all', c02, BACK, batch=600, compare=True), Job('words', c02_words, BACK, batch=1000, compare=True), Job('large', c02_large, BACK, batch=8, compare=True)],
          assumptions=['the processor has BMI2 and ADX, so that the default choice and the disabled choice differ']))

# ------------------------------------------------------------------ C22
LONG = re.compile(r'^[0-9a-f]{64,}$')
NOMUT = {'wsumstop', 'pairstop', 'sdiv', 'modprime', 'fmulraw', 'decomp', 'digest', 'bulk', 'const', 'wsum'}
def mutate(req, rng):
    """arbitrary limb values and bytes of the same length in place of the valid ones"""
    f = req.split(' ')
    idx = [i for i, x in enumerate(f) if i and len(x) >= 64 and LONG.match(x)]
    if not idx: return None
    for i in rng.sample(idx, min(len(idx), rng.choice((1, 1, 2, 3)))):
        x = f[i]; t = rng.random(); n = len(x)
        if t < .15: x = 'f' * n
        elif t < .25: x = '0' * n
        elif t < .5: x = '%0*x' % (n, rng.getrandbits(4 * n))
        elif t < .7:      # one coefficient at or above p
            if n % 96 == 0: k = rng.randrange(n // 96) * 96; x = x[:k] + '%096x' % min(P + rng.choice((0, 1, P, rng.getrandbits(380))), (1 << 384) - 1) + x[k + 96:]
        else:
            for _ in range(rng.choice((1, 2, 8))): k = rng.randrange(n); x = x[:k] + rng.choice('0123456789abcdef') + x[k + 1:]
        f[i] = x
    return ' '.join(f)
def c22_gen(per, mut):
    def g(ctx):
        for req, cls in mixed(ctx, per if not ctx.thorough else per * 12, parts=64):
            yield req, None, opkey(req)
            if ctx.rng.random() < mut and not any(w in NOMUT for w in req.split(' ')[:2]):
                m = mutate(req, ctx.rng)
                if m: yield m, None, 'arbitrary limbs: ' + opkey(req)
        if ctx.shard == 0:
            for w in 'hmac extract expand expand-long xmd h2g2 keygen sign verify tohex unhex wsum1 wsum2 aggpk aggsig aggsk aggverify popfast pairing'.split(): yield 'nullargs ' + w, None, 'null arguments'
            yield 'millerempty', None, 'empty list'
    return g
def c22_bytes(ctx):
    """hostile byte strings for every decoder and every length parameter"""
    rng = ctx.rng
    def garb(n):
        t = rng.random()
        if t < .3: return rng.randbytes(n)
        b = bytearray(rng.choice((b'\0', b'\xff', b'\x80')) * n)
        for _ in range(rng.choice((1, 2, 5))): b[rng.randrange(n)] = rng.choice((0, 1, 0x1a, 0x1f, 0x20, 0x40, 0x60, 0x80, 0xa0, 0xc0, 0xe0, 0xff, rng.randrange(256)))
        return bytes(b)
    for _ in range(ctx.n(2500, 60000)):
        g = rng.choice((1, 2)); w = 48 * g; t = rng.randrange(5)
        if t == 0: yield 'g%d decomp %s' % (g, garb(w).hex()), None, 'decompress garbage'
        elif t == 1:
            a = rng.choice(('aff', 'jac')); n = w * (2 if a == 'aff' else 3)
            yield 'g%d dec %s %s %d %d %s' % (g, a, rng.choice(('be', 'le')), rng.randrange(2), rng.randrange(2), garb(n).hex()), None, 'decode garbage point'
        elif t == 2:
            n = rng.choice((1, 2, 6, 12)); yield 'dec %d %s %d %d %s' % (n, rng.choice(('be', 'le')), rng.randrange(2), rng.randrange(2), garb(48 * n).hex()), None, 'decode garbage field element'
        elif t == 3: yield 'unhex ' + HB(garb(rng.randrange(1, 40))), None, 'hex garbage'
        else: yield rng.choice(('keygen %s', 'h2g2 %s ' + HB(garb(rng.choice((1, 255, 256, 300)))), 'hmac %s ' + HB(garb(70)), 'xmd 100 %s ' + HB(garb(rng.choice((1, 255, 256)))))) % HB(garb(rng.randrange(1, 200))), None, 'arbitrary bytes'
def c22_leaks(check, tier, seed, lit, agg):
    """leaks on exception and error paths, by the driver's own allocation table (independent of LeakSanitizer)"""
    T = tier == 'thorough'; rng = random.Random('%s/c22' % seed); q = []
    def s(): return rng.randrange(1, 10**6)
    for n in (1, 3, 31, 32, 40, 70): q += ['yield12 wsum1 %d %d' % (n, s()), 'yield6 wsum2 %d %d' % (n, s())]
    for n in (20, 33): q.append('yield10 pairing %d %d' % (n, s()))
    for n in (1, 40): q += ['alloc %s %d %d' % (o, n, s()) for o in ('wsum1', 'wsum2', 'hmac', 'extract', 'keygen', 'h2g2', 'aggverifydup', 'verify', 'popfast', 'aggsk', 'tohex', 'unhex')]
    q += ['alloc pairing %d %d' % (n, s()) for n in (2, 21)] + ['alloc addpair 3 %d' % s(), 'alloc lamport 32 %d' % s(), 'alloc lamportpk 4 %d' % s(), 'alloc hardened 4 %d' % s(), 'alloc h2g2 300 %d' % s()]
    q += ['alloc %s 10 %d %d' % (o, s(), L) for o in ('expand', 'extexp') for L in (32, 100)]
    if T: q += ['yield60 wsum%d %d %d' % (g, n, s()) for g in (1, 2) for n in range(1, 80)]
    fault_all(check, seed, agg, q, only=r'leak|process-died')
VG = ['valgrind', '-q', '--error-exitcode=78', '--track-origins=no', '--leak-check=full', '--errors-for-leak-kinds=definite', '--show-leak-kinds=definite', '--exit-on-first-error=yes', '--num-callers=12']
def c22_vg(ctx):
    for cid, j in ctx.mine(sources()):
        rng = ctx.rng
        for req, cls in sample(cid, j, rng, ctx.lit, 14 if not ctx.thorough else 250, 800, 64):
            if len(req) < 20000: yield req, None, 'memcheck ' + opkey(req)
reg(Check('C22', 'Samples of every other check\'s workload, each partly repeated with arbitrary limb values in place of valid ones, hostile byte strings for all decoders, null and empty arguments, exception and error paths, run on AddressSanitizer+UBSan+LeakSanitizer builds (clang with assembly, clang portable; gcc with libstdc++ assertions in thorough runs), on a MemorySanitizer build (portable) and under valgrind memcheck (assembly included); weighted sums and pairings left by exceptions of the progress callback, and all allocating operations with failing allocations, with an allocation table of driver-side accounting for leaks. Every argument lies in an allocation of its exact size. A report, an abnormal end or a leak at exit is a violation. Distinct = distinct request.',
          jobs=lambda tier: [Job('asan', c22_gen(70, .5), ('asan',), batch=2500, only_crash=True), Job('bytes', c22_bytes, ('asan', 'asanport'), batch=2500, only_crash=True),
                             Job('asanport', c22_gen(45, .4), ('asanport',), batch=2500, only_crash=True), Job('msan', c22_gen(45, .3), ('msan',), batch=2500, only_crash=True),
                             Job('memcheck', c22_vg, ('vg',), batch=1000, only_crash=True, prefix=VG, hang=400)]
                            + ([Job('gasan', c22_gen(70, .5), ('gasan',), batch=2500, only_crash=True)] if tier == 'thorough' else []),
          special=c22_leaks, variants=('fault',),
          assumptions=['red-zone tools miss accesses that land in another live object', 'assembly is watched by guard pages (C01), exact-size allocations and memcheck, not by compiler instrumentation']))

# ------------------------------------------------------------------ C23
def viol(check, variant, args, lines, text, kind, key):
    if kind == 'hang': harness.stop(key)
    return {'kind': kind, 'key': key, 'text': text, 'variant': variant, 'replay': replay_file(check, variant, args, None, lines, text, kind)}
def tsan_reports(err):
    out = []
    for m in re.finditer(r'WARNING: ThreadSanitizer: ([^\n(]*)(.*?)(?=\n=+\n|\Z)', err, re.S):
        fr = [re.sub(r' /\S*/', ' ', x) for x in re.findall(r'#\d+ ([^\n]*)', m.group(2)) if 'bls12_381' in x]
        out.append((m.group(1).strip(), ' / '.join(fr[:2]) or (re.findall(r'SUMMARY: [^\n]*', err) or ['?'])[0]))
    return out
def conc_run(check, variant, reqs, want, threads, rounds, seed, res, label):
    lines = ['%d %s' % (i, q) for i, q in enumerate(reqs)]
    args = ['--threads', str(threads), str(rounds), str(seed)]
    for attempt in (0, 1):
        run = drive(variant, lines, args, hang=240)
        if not run.hang: break
    if run.hang:
        res['viol'].append(viol(check, variant, args, lines, '%s: no progress for 240 s with %d threads, twice' % (label, threads), 'hang', 'hang ' + label)); return
    st = next((l for l in run.replies if l.startswith('#stats')), None)
    reps = tsan_reports(run.err)
    if reps:
        for what, where in sorted(set(reps))[:3]:
            res['viol'].append(viol(check, variant, args, lines, '%s: %s in %s' % (label, what, where), 'race', 'race %s' % where))
        return
    if st is None:
        if run.rc == -9: res['inconclusive'].append('killed: ' + label); return
        res['viol'].append(viol(check, variant, args, lines, '%s: ended with %s' % (label, crash_text(run)), 'crash', 'crash ' + label)); return
    m = dict(x.split('=') for x in st.split()[1:])
    res['evals'] += int(m['calls']); res['notes']['overlapping calls of one request'] = res['notes'].get('overlapping calls of one request', 0) + int(m['same_op_overlaps'])
    res['notes']['max calls in flight'] = max(res['notes'].get('max calls in flight', 0), int(m['max_inflight']))
    res['notes']['concurrent processes'] = res['notes'].get('concurrent processes', 0) + 1
    for l in run.replies:
        f = l.split(' ')
        if not f[0].isdigit(): continue
        i = int(f[0])
        if len(f) > 1 and f[1] == 'CONC':
            res['viol'].append(viol(check, variant, args, lines, '%s -> threads disagree: %s' % (reqs[i], l[:600]), 'wrong-result', reqs[i])); return
        r = l.partition(' ')[2]
        if r.startswith('!bad'): res['errors'].append('driver cannot serve %s: %s' % (reqs[i][:100], r)); return
        if want.get(i) is not None and r != want[i]:
            res['viol'].append(viol(check, variant, args, lines, '%s -> %s, alone %s' % (reqs[i], r[:300], want[i][:300]), 'wrong-result', reqs[i])); return
def blank(): return {'evals': 0, 'classes': {}, 'hashes': set(), 'samples': [], 'viol': [], 'notes': {}, 'inconclusive': [], 'errors': []}
def account(res, reqs, kind):
    for q in reqs:
        k = kind + opkey(q); res['classes'][k] = res['classes'].get(k, 0) + 1
        res['hashes'].add(hash((q, kind)) & (2**52 - 1))
    if reqs: res['samples'].append({'job': kind, 'request': reqs[0][:300]})
def alone(variant, reqs):
    run = drive(variant, ['%d %s' % (i, q) for i, q in enumerate(reqs)], ['--fork'])
    return {int(l.split(' ')[0]): l.partition(' ')[2] for l in run.replies if l.split(' ')[0].isdigit()}
def short(reqs, n=6000): return [q for q in reqs if len(q) < n]
def collect(seed, lit, per, tag, parts=64, cap=12500):
    """samples of all workloads, generated in parallel"""
    src = sources()
    out = {}
    def one(i):
        rng = random.Random('%s/%s/%d' % (seed, tag, i)); cid, j = src[i]
        return [q for q, _ in sample(cid, j, rng, lit, per, cap, parts)]
    errs = []
    for i, k, r in pool(range(len(src)), one):
        if k == 'ok': out[i] = r
        else: errs.append(r)
    return [q for i in sorted(out) for q in out[i]], errs
def c23(check, tier, seed, lit, agg):
    T = tier == 'thorough'
    reqs, errs = collect(seed, lit, 60 if not T else 400, 'c23')
    agg.errors += errs
    reqs = [q for q in short(reqs) if not q.startswith(('bigmsg', 'fguard'))]
    rng = random.Random('%s/c23' % seed); rng.shuffle(reqs)
    groups = {}
    for q in reqs: groups.setdefault(opkey(q), []).append(q)
    tasks = []
    # the first use of each operation in a process happens on all threads at once
    for v in ('tsan', 'tsanport'):
        ks = sorted(groups); rng.shuffle(ks); w = 3 if not T else 1
        for i in range(0, len(ks), w):
            l = [q for k in ks[i:i + w] for q in groups[k][:7 if not T else 40]]
            tasks.append((v, l, 4, 2, 'first use of ' + ', '.join(ks[i:i + w])))
    per = 90 if not T else 300
    for i in range(8 if not T else 40):
        tasks.append((('tsan', 'tsanport')[i % 2], rng.sample(reqs, min(per, len(reqs))), 8, 3, 'mixed'))
    for v in ('rel', 'rel@nobmi', 'port'):
        for i in range(4 if not T else 30):
            tasks.append((v, rng.sample(reqs, min(90 if not T else 220, len(reqs))), 24 if i == 1 else 8, 4 if not T else 8, 'mixed, full speed'))
    for k in sorted(groups): tasks.append((rng.choice(('rel', 'rel', 'port')), groups[k][:25], 8, 4, 'full speed, first use of ' + k))
    rng.shuffle(tasks)
    def one(t):
        v, l, th, rd, label = t
        res = blank()
        base = v if v in ('rel', 'rel@nobmi', 'port') else 'port' if v == 'tsanport' else 'rel'
        t0 = time.time(); w = alone(base, l); t1 = time.time()
        l = [q for i, q in enumerate(l) if not w.get(i, '!crash').startswith('!crash')]      # a call that fails alone is another property's business
        w = dict(enumerate(x for _, x in sorted(w.items()) if not x.startswith('!crash')))
        if not l: return res
        conc_run(check, v, l, w, th, rd, seed, res, label)
        if os.environ.get('VERIF_TIMES'): print('%-9s %5.1f %5.1f %s' % (v, t1 - t0, time.time() - t1, label[:80]))
        account(res, l, 'concurrent ')
        return res
    # each task is itself multi-threaded: few at a time
    save = harness.NPROC; harness.NPROC = 4
    try:
        for t, k, r in pool(tasks, one):
            if k == 'ok': agg.add(r)
            else: agg.errors.append(r)
    finally: harness.NPROC = save
    agg.notes['processes by build'] = len(tasks)
reg(Check('C23', 'Samples of all workloads executed by 4 to 24 threads at once on shared read-only requests, in lockstep (every thread the same call at the same moment, in particular the first use in a fresh process of each operation) and in independent random orders; ThreadSanitizer builds of the assembly and portable back ends report data races, and every reply of every thread is compared with the reply of the same call made alone in its own process (also at full speed on all three back ends). Distinct = distinct request.',
          special=c23, variants=('rel', 'port', 'tsan', 'tsanport'), assumptions=['accesses made inside assembly routines are seen by ThreadSanitizer only in the portable build']))

# ------------------------------------------------------------------ C24
def sibling(req, rng):
    """a request that agrees with the given one almost everywhere: one digit of one long argument changed, or its middle, or one word replaced, or a byte more or less at an end"""
    f = req.split(' ')
    idx = [i for i, x in enumerate(f) if i > 0 and len(x) >= 4 and re.match(r'^[0-9a-f]+$', x) and len(x) % 2 == 0]
    if not idx or any(w in NOMUT for w in f[:2]) or f[0] in ('expbig', 'xmdbig'): return None
    i = rng.choice(idx); x = f[i]; n = len(x); t = rng.random()
    if t < .6 or n < 64 or x.isdigit():
        k = rng.randrange(n); x = x[:k] + rng.choice('0123456789abcdef') + x[k + 1:]
    elif t < .75:                                       # the same first and last eight bytes
        k = 16 * rng.randrange(1, n // 16 - 1) if n >= 48 else 16; m = min(k + 16 * rng.choice((1, 1, 2, 4)), n - 16)
        x = x[:k] + '%0*x' % (m - k, rng.getrandbits(4 * (m - k))) + x[m:] if m > k else x
    elif t < .85:                                       # two words exchanged
        w = [x[k:k + 16] for k in range(0, n - n % 16, 16)]; a, b = rng.randrange(len(w)), rng.randrange(len(w)); w[a], w[b] = w[b], w[a]
        x = ''.join(w) + x[n - n % 16:]
    elif n % 96 and n != 64: x = rng.choice((x + '00', x[:-2], '00' + x, x[2:]))
    f[i] = x
    return ' '.join(f)
def abandoned(req, rng):
    """the same computation given up by a throwing callback"""
    f = req.split(' ')
    if f[0] in ('g1', 'g2') and f[1] == 'wsum' and f[3] != '0': f[1] = 'wsumstop'; f[2] = str(rng.choice((0, 1, 2, 3, rng.randrange(64), rng.randrange(600))))
    elif f[0] == 'pairing' and int(f[2]) >= 18: f[0] = 'pairstop'; f[1] = '0'
    else: return None
    return ' '.join(f)
def seq_run(variant, reqs, args):
    run = drive(variant, ['%d %s' % (i, q) for i, q in enumerate(reqs)], args)
    return run, {int(l.split(' ')[0]): l.partition(' ')[2] for l in run.replies if l.split(' ')[0].isdigit()}
def c24_task(check, variant, reqs, seed, tag):
    res = blank(); rng = random.Random('%s/%s' % (seed, tag))
    full = []
    for q in reqs:
        full.append(q)
        if rng.random() < .35:
            s = sibling(q, rng)
            if s: full.append(s)
        if rng.random() < .5:
            s = abandoned(q, rng)
            if s: full.append(s)
    full = list(dict.fromkeys(full))
    want = alone(variant, full)          # each in a process of its own
    res['evals'] += len(want)
    n = len(full)
    def runs():
        o = list(range(n)); yield 'as generated', o, ['--poison', 'a5']
        o = sorted(range(n), key=lambda i: (opkey(full[i]), rng.random())); yield 'grouped by operation', o, ['--poison', '00']
        o = list(range(n)); rng.shuffle(o); yield 'shuffled', o, ['--poison', 'ff']
        o = [i for i in range(n) for _ in (0, 1)]; yield 'each twice', o, ['--poison', '%02x' % rng.randrange(256)]
        o = []
        for i in range(n):
            o.append(i)
            if i and rng.random() < .6: o.append(rng.randrange(i))     # come back to an earlier call
            if rng.random() < .5: o.append(i)
        yield 'with returns', o, []
    for label, order, args in runs():
        ls = [full[i] for i in order]
        run, got = seq_run(variant, ls, args)
        if run.rc != 0 or len(got) != len(ls):
            # a crash alone is not this property's business unless the calls succeed alone
            i = len(got)
            if i < len(ls) and not run.hang and order[i] in want and not want[order[i]].startswith('!crash') and run.rc != -9:
                hist = ['%d %s' % (j, q) for j, q in enumerate(ls[:i + 1])]
                again = drive(variant, hist, args)
                if again.rc != 0 and again.rc != -9: res['viol'].append(viol(check, variant, args, hist, '%s -> %s after %d earlier calls (%s), alone it replies %s' % (ls[i], crash_text(again), i, label, want[order[i]][:200]), 'crash', ls[i]))
            else: res['inconclusive'].append('%s: run ended early (%s)' % (label, crash_text(run)))
            continue
        res['evals'] += len(got)
        res['notes']['calls: ' + label] = res['notes'].get('calls: ' + label, 0) + len(got)
        for i, q in enumerate(ls):
            if got[i] != want.get(order[i]):
                hist = ['%d %s' % (j, x) for j, x in enumerate(ls[:i + 1])]
                res['viol'].append(viol(check, variant, args, hist, '%s -> %s (%s, %s), alone %s' % (q, got[i][:400], label, ' '.join(args), str(want.get(order[i]))[:400]), 'impure', q)); break
            if 'MODIFIED-INPUT' in got[i]:
                res['viol'].append(viol(check, variant, args, ['0 ' + q], '%s -> %s: the call changed an argument it may only read' % (q, got[i][:300]), 'impure', q)); break
        if res['viol']: break
    account(res, full, '')
    return res
def c24_again(check, variant, group, budget, tag):
    """the same few calls over and over in one process, in turn: the thousandth reply is the first one"""
    res = blank(); key, reqs = group
    line = '0 again %d %d %s' % (budget, 70000 if budget < 20000 else 2 << 20, ' ;; '.join(reqs))
    want = alone(variant, reqs)
    run = drive(variant, [line]); rep = run.replies[0].partition(' ')[2] if run.replies else ''
    m = re.match(r'n=(\d+) (.*)', rep, re.S)
    if not m: res['inconclusive'].append('repetition of %s: %s' % (key, crash_text(run))); return res
    n = int(m.group(1)); res['evals'] += n; res['notes']['calls: repeated'] = n; res['notes']['max repetitions of one operation in a process'] = n
    got = m.group(2).split(' ;; ')
    if m.group(2).startswith('DIFF') or any(a != want.get(i) for i, a in enumerate(got)):
        again = drive(variant, [line]); r2 = again.replies[0].partition(' ')[2] if again.replies else ''
        m2 = re.match(r'n=(\d+) (.*)', r2, re.S)
        if m2 and (m2.group(2).startswith('DIFF') or any(a != want.get(i) for i, a in enumerate(m2.group(2).split(' ;; ')))):
            res['viol'].append(viol(check, variant, [], [line], '%s, repeated: %s' % (key, rep[:600]), 'again', 'again ' + key))
        else: res['inconclusive'].append('not reproduced: repetition of %s: %s' % (key, rep[:300]))
    account(res, reqs, '')
    return res
def c24(check, tier, seed, lit, agg):
    T = tier == 'thorough'
    reqs, errs = collect(seed, lit, 260 if not T else 1500, 'c24', cap=12500 if not T else 20000)
    agg.errors += errs
    reqs = short(reqs, 20000); rng = random.Random('%s/c24' % seed); rng.shuffle(reqs)
    k = 16 if not T else 64
    parts = [reqs[i::k] for i in range(k)]
    tasks = [(('rel', 'port', 'rel', 'clang')[i % 4], p, i) for i, p in enumerate(parts)]
    byop = {}
    for q in reqs:
        if not q.startswith(('bigmsg', 'digest', 'bulk', 'nullargs', 'const', 'fguard')): byop.setdefault(opkey(q), []).append(q)
    HEAVY = ('sign', 'verify', 'popverify', 'popprove', 'popfast', 'aggverify', 'h2g2', 'pairing 0', 'pairing 1', 'hardened', 'g1 decomp', 'g2 decomp', 'keygen', 'unhsk', 'unhg1', 'unhg2', 'finv', 'g1 wsum', 'g2 wsum', 'g1 scale', 'g2 scale')
    again = [('again', v, (o, sorted(rng.sample(l, min(len(l), 40)), key=len)[:3]), (2500 if o not in HEAVY else 9000) if not T else 60000) for o, l in sorted(byop.items()) for v in (('rel',) if not T else ('rel', 'port'))]
    again.sort(key=lambda t: -t[3])
    for t, kk, r in pool(again + tasks, lambda t: c24_again(check, t[1], t[2], t[3], 0) if t[0] == 'again' else c24_task(check, t[0], t[1], seed, t[2])):
        if kk == 'ok': agg.add(r)
        else: agg.errors.append(r)
reg(Check('C24', 'Samples of all workloads plus near-identical siblings (one digit changed) and the weighted sums and pairing products once more, abandoned by a throwing callback. Reference: every call made alone in its own process. Then the same calls in one process, as generated, grouped by operation, shuffled, each twice, and with returns to earlier calls; before every call the stack below and recently freed heap blocks are filled with 00, a5, ff or another byte; arguments sit alternately at the start and the end of freshly mapped pages, are write-watched and compared afterwards. Builds: gcc assembly, gcc portable, clang. Distinct = distinct request.',
          special=c24, variants=('rel', 'port', 'clang')))

# ------------------------------------------------------------------ C25 / C26
def fault_task(check, lines, only=None):
    """only: report nothing but violations whose text matches"""
    res = blank()
    args = ['--fault']
    run = drive('fault', lines, args, hang=300)
    if run.hang:
        run2 = drive('fault', lines, args, hang=400)
        if run2.hang: res['viol'].append(viol(check, 'fault', args, lines, 'no progress for 400 s', 'hang', 'hang ' + lines[0])); return res
        run = run2
    byid = {l.split(' ')[0]: l.partition(' ')[2] for l in lines}
    done = set(); at = {}
    for l in run.replies:
        f = l.split(' ')
        if len(f) < 2 or f[0] not in byid: continue
        req = byid[f[0]]
        if f[1] == 'VIOL' and only and not re.search(only, l): continue
        if f[1] == 'VIOL':
            text = '%s -> %s' % (req, ' '.join(f[2:])) + ((' during ' + at[f[0]]) if 'process-died' in l and f[0] in at else '')
            if not any(v['key'].startswith(req) for v in res['viol']):
                res['viol'].append(viol(check, 'fault', args, ['%s %s' % (f[0], req)], text, 'fault', '%s %s' % (req, re.sub(r'\d+', '#', ' '.join(f[2:4])))))
        elif f[1] == 'at': at[f[0]] = ' '.join(f[2:])
        elif f[1] == '!bad': res['errors'].append('fault driver cannot serve %s' % req)
        elif f[1] == 'done':
            done.add(f[0]); d = dict(x.split('=') for x in f[2:])
            if 'gap_adds' in d:
                g = float(d['gap_adds']); res['notes']['max gap in group additions'] = max(res['notes'].get('max gap in group additions', 0), g)
                res['notes']['callback invocations'] = res['notes'].get('callback invocations', 0) + int(d['calls'])
                res['evals'] += 1
                if g > GAP_LIMIT: res['viol'].append(viol(check, 'fault', args, ['%s %s' % (f[0], req)], '%s -> %s additions of work without a callback (limit %d)' % (req, d['gap_adds'], GAP_LIMIT), 'gap', req))
            else:
                for k, v in d.items():
                    if k not in ('n',): res['notes'][k] = res['notes'].get(k, 0) + int(v)
                res['evals'] += int(d.get('runs', d.get('tested', 0))) + 1
                n = int(req.split(' ')[2])
                if not only and 'tested' in d and int(d['calls']) == 0 and (req.split(' ')[1] != 'pairing' or n >= 20) and n > 0:
                    res['viol'].append(viol(check, 'fault', args, ['%s %s' % (f[0], req)], '%s -> the callback was never invoked' % req, 'gap', req))
            k = ' '.join(req.split(' ')[:2]); res['classes'][k] = res['classes'].get(k, 0) + 1; res['hashes'].add(hash(req) & (2**52 - 1))
    if run.rc != 0:
        res['errors'].append('fault driver ended with %s: %s' % (run.rc, run.err[-300:]))
    else:
        for i in byid:
            if i not in done and not any(byid[i] in v['text'] for v in res['viol']): res['errors'].append('no result for %s' % byid[i])
    res['samples'].append({'job': 'fault', 'request': lines[0], 'reply': '; '.join(l for l in run.replies if ' done ' in l)[:300]})
    return res
GAP_LIMIT = 640     # unchanged code: at most about 315
def fault_all(check, seed, agg, reqs, only=None):
    lines = ['%d %s' % (i, q) for i, q in enumerate(reqs)]
    random.Random('%s/f' % seed).shuffle(lines)
    n = 32
    for t, k, r in pool([lines[i::n] for i in range(n) if lines[i::n]], lambda l: fault_task(check, l, only)):
        if k == 'ok': agg.add(r)
        else: agg.errors.append(r)
def c25(check, tier, seed, lit, agg):
    T = tier == 'thorough'; rng = random.Random('%s/c25' % seed); q = []
    sizes = [1, 2, 3, 5, 15, 31, 32, 33, 63, 64, 100, 255, 256, 257, 300, 511, 513]
    for n in sizes + lit.sizes(1500)[:12]:
        q.append('gap wsum1 %d %d 0' % (n, rng.randrange(1000))); q.append('gap wsum2 %d %d %d' % (n, rng.randrange(1000), rng.choice((0, 2))))
        if n in (1, 31, 33, 300): q += ['gap wsum1 %d %d %d' % (n, rng.randrange(1000), k) for k in (1, 2, 3, 4)]
    q += ['gap wsum1 1000 1 0', 'gap wsum1 1000 1 2', 'gap wsum2 1000 5 0', 'gap wsum1 3000 2 0', 'gap wsum2 2100 2 0', 'gap wsum1 6000 3 1', 'gap wsum1 6000 3 3', 'gap wsum1 5000 3 4']
    q += ['gap wsum1 %d %d %d' % (n, rng.randrange(1000), k) for n in (900, 5000, 9000) for k in (0, 1, 2, 5, 6, 7, 8, 9)] + ['gap wsum2 %d %d %d' % (n, rng.randrange(1000), k) for n in (700, 4200) for k in (1, 5, 6, 7, 8, 9)] + ['gap wsum1 40000 %d %d' % (rng.randrange(1000), rng.choice((1, 3, 5, 6, 7, 9)))]
    if T: q += ['gap wsum1 %d %d %d' % (n, rng.randrange(99), k) for n in (1023, 1024, 1025, 5000, 20000, 70000) for k in (0, 1, 2)] + ['gap wsum2 %d 1 0' % n for n in (4097, 10000, 40000)]
    m = 40 if not T else 100000
    for n in (1, 2, 7, 31, 32, 33, 70): q.append('yield%d wsum1 %d %d' % (m, n, rng.randrange(1000)))
    for n in (1, 5, 31, 40): q.append('yield%d wsum2 %d %d' % (m, n, rng.randrange(1000)))
    q += ['yield%d wsum1 300 3' % (24 if not T else 100000), 'yield%d wsum2 257 3' % (12 if not T else 100000)]
    for n in (1, 2, 19, 20, 21, 33, 40): q.append('yield20 pairing %d %d' % (n, rng.randrange(1000)))
    q += ['yield5 wsum%d %d %d' % (rng.choice((1, 1, 2)), n, rng.randrange(1000)) for n in range(1, 140)] + ['yield20 pairing %d %d' % (n, rng.randrange(1000)) for n in range(3, 70)]
    q += ['gap wsum%d %d %d %d' % (rng.choice((1, 1, 2)), n, rng.randrange(1000), rng.randrange(10)) for n in list(range(4, 140, 3)) + [1 << k for k in range(1, 12)] + [(1 << k) - 1 for k in range(2, 12)] + [(1 << k) + 1 for k in range(2, 12)] + [rng.randrange(140, 3000) for _ in range(30)]]
    if T: q += ['yield20 pairing %d %d' % (n, rng.randrange(1000)) for n in range(18, 90)] + ['yield400 wsum1 %d %d' % (n, rng.randrange(99)) for n in range(1, 130)]
    fault_all(check, seed, agg, q)
reg(Check('C25', 'Weighted sums and pairing products with a callback that throws at each invocation in turn (all of them up to a bound, then spread; six exception types in turn, all six at the first and last invocation): the same exception object arrives, no further invocation, every block allocated inside the call is released (own accounting), inputs unchanged, later calls right; benign, empty and re-entrant callbacks leave the result and the number of invocations unchanged. Work between two invocations is counted in executed basic blocks relative to one group addition (limit %d additions; unchanged code reaches about 315) for sizes and scalar kinds on both sides of every threshold. Distinct = distinct case.' % GAP_LIMIT,
          special=c25, variants=('fault',)))
def c26(check, tier, seed, lit, agg):
    T = tier == 'thorough'; rng = random.Random('%s/c26' % seed); q = []
    def s(): return rng.randrange(1, 10**6)
    for op in ('wsum1', 'wsum2'):
        for n in (0, 1, 2, 5, 31, 32, 40) + ((64, 100, 300) if T else (100,)): q.append('alloc %s %d %d' % (op, n, s()))
    for n in (0, 1, 2, 3, 8, 20, 25): q.append('alloc pairing %d %d' % (n, s())); q.append('alloc addpair %d %d' % (n, s()))
    for n in (0, 1, 31, 32, 40, 64, 65, 200, 1000): q += ['alloc hmac %d %d' % (n, s()), 'alloc extract %d %d' % (n, s()), 'alloc keygen %d %d' % (n, s())]
    for n in (0, 1, 10, 64, 100):
        for L in (1, 31, 32, 33, 64, 100, 255) + ((8160, 4000) if T else (1000,)): q += ['alloc expand %d %d %d' % (n, s(), L), 'alloc extexp %d %d %d' % (n, s(), L)]
    for _ in range(2 if not T else 10):
        q += ['alloc lamport %d %d' % (rng.choice((32, 4, 100)), s()), 'alloc lamportpk 4 %d' % s(), 'alloc hardened 4 %d' % s(), 'alloc unhsk 4 %d' % s(), 'alloc popprove 4 %d' % s()]
    for n in (0, 1, 32, 56, 100, 255, 256, 300, 399): q += ['alloc h2g2 %d %d' % (n, s())]
    for n in (0, 1, 32, 100): q += ['alloc %s %d %d' % (o, n, s()) for o in ('sign', 'verify', 'verifybad', 'popfast', 'aggverify', 'aggverifydup')]
    q += ['alloc popverify 4 %d' % s() for _ in range(3)]
    for n in (0, 1, 2, 10, 50): q.append('alloc aggsk %d %d' % (n, s()))
    q += ['alloc %s %d %d' % (o, n, s()) for n in [rng.randrange(600) for _ in range(12 if not T else 100)] for o in ('hmac', 'extract', 'keygen', 'h2g2', 'aggsk', 'tohex', 'unhex')]
    q += ['alloc %s %d %d' % (o, rng.randrange(1, 60), s()) for _ in range(12 if not T else 100) for o in ('wsum1', 'wsum2', 'pairing')]
    q += ['alloc %s %d %d %d' % (o, rng.randrange(300), s(), rng.randrange(1, 600)) for _ in range(20 if not T else 200) for o in ('expand', 'extexp')]
    for n in (0, 1, 2, 7, 8, 15, 16, 32, 100): q += ['alloc tohex %d %d' % (n, s()), 'alloc unhex %d %d' % (n, s())]
    fault_all(check, seed, agg, q)
reg(Check('C26', 'Every operation that allocates, with sizes on both sides of its thresholds: each single allocation (malloc, calloc, realloc, operator new) fails in turn, once alone and once with all later ones; observed: the correct result, the documented error value, or a standard exception, nothing else; no crash, every block released, inputs unchanged, later calls right. Distinct = distinct case.',
          special=c26, variants=('fault',)))

# ------------------------------------------------------------------ C29
# Budgets: lib/work.json holds, per operation, the largest work (executed basic blocks), peak heap and stack depth seen on
# the unchanged tree over several seeds; a request may use 8 times that (scaled by its size for long arguments).
import json
WORK = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'work.json')
SMALL = 3000; SLACK = 8
NOMETER = ('bigmsg', 'fguard', 'digest', 'bulk', 'nullargs')
def reqsize(q, rl):
    return len(q) + rl + sum(2 * int(m) for m in re.findall(r'z:(\d+):', q))
def meter(lines):
    run = drive('fault', lines, ['--meter'])
    out = {}
    for l in run.replies:
        f = l.split(' ')
        if f[0].isdigit(): out[int(f[0])] = 'bad' if f[1] == '!bad' else tuple(int(x) for x in f[1:])
    return run, out
def learn(table, q, v):
    w, pk, kept, st, rl = v; s = reqsize(q, rl); t = table.setdefault(opkey(q), [0, 0, 0, 0, 0])
    if s < SMALL: t[0] = max(t[0], w); t[1] = max(t[1], pk)
    else: t[2] = max(t[2], round(w / s, 2)); t[3] = max(t[3], round(pk / s, 2))
    t[4] = max(t[4], st)
def budget(t, s):
    """(work, peak heap, stack) allowed for a request of size s"""
    f = max(1.0, s / SMALL)
    return tuple(SLACK * (a + max(t[i] * f, t[i + 2] * s)) for i, a in ((0, 40000), (1, 3000))) + (SLACK * max(4096, t[4]) + 65536,)
def c29_requests(seed, lit, per, cap=12500):
    reqs, errs = collect(seed, lit, per, 'c29', cap=cap)
    rng = random.Random('%s/c29' % seed); out = []
    for q in reqs:
        f = q.split(' ')
        if f[0] in NOMETER: continue
        out.append(q)
        if rng.random() < .3 and not any(w in NOMUT for w in f[:2]):
            m = mutate(q, rng)
            if m: out.append(m)
    rng.shuffle(out)
    return out, errs
def c29_task(check, reqs, table):
    res = blank(); lines = ['%d %s' % (i, q) for i, q in enumerate(reqs)]
    run, out = meter(lines)
    mis = [i for i in range(len(reqs)) if i not in out]
    if run.hang and mis:
        i = mis[0]
        again, _ = meter([lines[i]])
        if again.hang: res['viol'].append(viol(check, 'fault', ['--meter'], [lines[i]], '%s -> no end within %d s, twice' % (reqs[i], HANG), 'hang', reqs[i]))
        else: res['inconclusive'].append('slow once: ' + reqs[i][:200])
    elif mis: res['inconclusive'].append('ended early (%s) at %s' % (crash_text(run), reqs[mis[0]][:200]))     # crashes are C22's
    growth = 0; seen = 0
    for i, q in enumerate(reqs):
        if i not in out: continue
        v = out[i]
        if v == 'bad': res['errors'].append('driver cannot serve ' + q[:100]); continue
        t = table.get(opkey(q))
        if t is None: res['errors'].append('no budget recorded for ' + opkey(q)); continue
        s = reqsize(q, v[4]); b = budget(t, s)
        res['evals'] += 1
        for name, x, y in (('basic blocks executed', v[0], b[0]), ('bytes of heap', v[1], b[1]), ('bytes of stack', v[3], b[2])):
            k = 'max percent of budget: ' + name; res['notes'][k] = max(res['notes'].get(k, 0), round(100 * x / y, 1))
            if x > y and not any(z['key'] == q for z in res['viol']):
                _, o2 = meter(lines[:i + 1])
                if o2.get(i) == v or (i in o2 and o2[i] != 'bad' and o2[i][(0, 1, 3)[('basic blocks executed', 'bytes of heap', 'bytes of stack').index(name)]] > y):
                    res['viol'].append(viol(check, 'fault', ['--meter'], lines[:i + 1], '%s -> %d %s, budget %d (size %d)' % (q, x, name, y, s), 'work', q))
        seen += 1
        if seen > 25: growth += v[2]
    res['notes']['heap bytes still held after the calls'] = growth
    if growth > KEPT_LIMIT:
        # distinct calls keep adding memory that is never released
        _, o2 = meter(lines)
        g2 = sum(v[2] for i, v in sorted(o2.items())[25:] if v != 'bad')
        if g2 > KEPT_LIMIT:
            tops = {}
            for i, v in o2.items():
                if v != 'bad': tops[opkey(reqs[i])] = tops.get(opkey(reqs[i]), 0) + v[2]
            top = max(tops, key=lambda k: tops[k])
            res['viol'].append(viol(check, 'fault', ['--meter'], lines, '%d calls leave %d bytes of heap allocated, most of it by %s' % (len(reqs), g2, top), 'kept', 'kept ' + top))
    account(res, reqs, '')
    return res
HANG = harness.HANG_S; KEPT_LIMIT = 2048
def families(rng, T):
    """(name, size -> request, sizes): requests whose cost must not grow faster than their size"""
    z = lambda n: 'z:%d:%d' % (n, n % 97 + 1)
    k = ref.E1; G1 = [J1(k.gen + (1,))] ; G2 = [J2(ref.E2.gen + ((1, 0),))]
    pts = {}
    for g, E, J, one in ((1, ref.E1, J1, 1), (2, ref.E2, J2, (1, 0))):
        pool_ = []; p = E.gen
        for i in range(4096 if g == 1 else 1024): pool_.append(J(p + (one,))); p = E.add(p, E.gen)     # all different: a search among the entries must not pay
        pts[g] = pool_
    inf = {1: J1((1, 1, 0)), 2: J2(((1, 0), (1, 0), (0, 0)))}
    lens = (1 << 10, 1 << 12, 1 << 14, 1 << 16, 1 << 18) + ((1 << 20, 1 << 22) if T else ())
    out = []
    for name, f in (('hmac input', lambda n: 'hmac %s %s' % (z(n), z(20))), ('hmac key', lambda n: 'hmac %s %s' % (z(20), z(n))), ('extract', lambda n: 'extract %s %s' % (z(7), z(n))), ('extract salt', lambda n: 'extract %s %s' % (z(n), z(32))),
                    ('expand info', lambda n: 'expand 64 %s %s' % (z(32), z(n))), ('extexp', lambda n: 'extexp 40 %s %s %s' % (z(n), z(9), z(n // 2))), ('keygen', lambda n: 'keygen ' + z(n)),
                    ('xmd message', lambda n: 'xmd 256 %s %s' % (z(n), z(20))), ('h2g2 message', lambda n: 'h2g2 %s 51' % z(n)), ('h2g2 tag', lambda n: 'h2g2 01 %s' % z(n)), ('sign', lambda n: 'sign %s %s' % (W(12345678901234567, 4), z(n))),
                    ('verify', lambda n: 'verify %s %s %s' % (pts[1][3], z(n), pts[2][5])), ('lamport ikm', lambda n: 'lamport %s 00000001' % z(n)), ('lamport salt', lambda n: 'lamport 0102 %s' % z(n)),
                    ('unhex', lambda n: 'unhex ' + HB((b'0x' + b'a7' * (n // 8)))), ('unhex odd', lambda n: 'unhex ' + HB(b'a' * (n // 4 + 1 | 1))), ('unhex junk', lambda n: 'unhex ' + HB(b'0x' * (n // 8))), ('tohex', lambda n: 'tohex ' + z(n // 4))):
        out.append((name, f, lens))
    out.append(('expand length', lambda n: 'expand %d %s 00' % (n, z(32)), (32, 128, 512, 2048, 8160)))
    out.append(('xmd length', lambda n: 'xmd %d 00 %s' % (n, z(9)), (32, 128, 512, 2048, 8160)))
    for g in (1, 2):
        P_ = pts[g]; ns = ((16, 64, 256, 1024, 4096) if g == 1 else (16, 64, 256, 1024)) if not T else (16, 64, 256, 1024, 4096, 16384)
        def w(n, pf, sf, g=g): return 'g%d wsum 0 %d %d %s' % (g, n, n, ' '.join([pf(i) for i in range(n)] + [sf(i) for i in range(n)]))
        full = lambda i: W((0x9E3779B97F4A7C15F39CC0605CEDC834 * (i + 1) ** 3 << 100 | i * 0x123456789) % R, 4)
        for nm, pf, sf in (('random', lambda i, P_=P_: P_[i % len(P_)], full), ('same point', lambda i, P_=P_: P_[0], full), ('same scalar', lambda i, P_=P_: P_[i % len(P_)], lambda i: full(1)),
                           ('maximal scalars', lambda i, P_=P_: P_[i % len(P_)], lambda i: 'f' * 64), ('zero scalars', lambda i, P_=P_: P_[i % len(P_)], lambda i: '0' * 64), ('infinity', lambda i, g=g: inf[g], full)):
            out.append(('wsum g%d %s' % (g, nm), lambda n, w=w, pf=pf, sf=sf: w(n, pf, sf), ns[:4] if nm not in ('random', 'zero scalars') else ns))
        a = 'aggpk' if g == 1 else 'aggsig'
        for nm, pf in (('', lambda i, P_=P_: P_[i % len(P_)]), (' same', lambda i, P_=P_: P_[7]), (' infinity', lambda i, g=g: inf[g])):
            out.append((a + nm, lambda n, a=a, pf=pf: '%s %s %s' % (a, '1' * n, ' '.join(pf(i) for i in range(n))), (16, 64, 256, 1024) + ((4096,) if g == 1 else ())))
        out.append((a + ' masked', lambda n, a=a, P_=P_: '%s %s %s' % (a, ('1' + '0' * 63) * (n // 64), ' '.join(P_[i % len(P_)] for i in range(n))), (64, 256, 1024, 4096)))
    out.append(('aggsk', lambda n: 'aggsk %d %s' % (n, ' '.join(W(R - 1 - i, 4) for i in range(n))), (16, 64, 256, 1024, 4096)))
    out.append(('pairing', lambda n: 'pairing 1 %d %s' % (n, ' '.join(pts[1][i % 4096] + ' ' + pts[2][(i * 7 + 1) % 1024] for i in range(n))), (4, 16, 64) + ((256, 1024) if T else ())))
    out.append(('pairing infinity', lambda n: 'pairing 0 %d %s' % (n, ' '.join(pts[1][i % 4096] + ' ' + inf[2] for i in range(n))), (16, 64, 256, 1024)))
    def av(n, dup, k, m): return 'aggverify %d %d %d %s %s %s' % (dup, n, k, ' '.join(pts[1][i % 4096] for i in range(n)), ' '.join(m(i) for i in range(k)), pts[2][3])
    # rejected for duplicates before any pairing: only the search for duplicates is left
    mm = lambda i: '%08x%08x' % (i * 2654435761 % 2**32, i)
    big = (256, 1024, 4096) + ((16384,) if T else ())
    for nm, m in (('last two equal', lambda n: lambda i: mm(min(i, n - 2))), ('first and last equal', lambda n: lambda i: mm(i % (n - 1))), ('all equal', lambda n: lambda i: '00'), ('ascending', lambda n: lambda i: '%08x' % min(i, n - 2)), ('descending', lambda n: lambda i: '%08x' % (n - min(i, n - 2))), ('from the middle outwards', lambda n: lambda i: '%08x' % (2 * n + (min(i, n - 2) + 1) // 2 * (1 if i & 1 else -1))), ('all lengths', lambda n: lambda i: 'ab' * (min(i, n - 2) % 97 + 1) + '%08x' % min(i, n - 2)), ('long common prefix', lambda n: lambda i: '5a' * 40 + '%08x' % (min(i, n - 2)))):
        out.append(('aggverify duplicates: ' + nm, lambda n, m=m: av(n, 1, n, m(n)), big))
    out.append(('aggverify length mismatch', lambda n: av(n, 1, n - 1, mm), big))
    out.append(('aggverify', lambda n: av(n, 1, n, mm), (4, 16, 64)))
    out.append(('popfast', lambda n: 'popfast %d %s 0102 %s' % (n, ' '.join(pts[1][i % 4096] for i in range(n)), pts[2][3]), (16, 64, 256, 1024, 4096)))
    for op, e in (('fexp', '%096x' % 12345), ('t2 exp', '%0192x' % 12345), ('t6 exp', '%0576x' % 12345), ('t12 exp', '%01152x' % 12345), ('12cexp', '%01152x' % 12345), ('g1 scale', pts[1][2]), ('g2 scale', pts[2][2])):
        out.append((op + ' exponent width', lambda n, op=op, e=e: '%s %s %s' % (op, e, 'f' * 16 * n), (1, 2, 4) if op == '12cexp' else (1, 2, 4, 8)))
    return out
def large(rng, limit=400000):
    """one long request of every size family"""
    out = []
    for name, f, sizes in families(rng, False):
        for n in sizes[::-1]:
            q = f(n)
            if n == sizes[0] or reqsize(q, 0) < limit: out.append(q); break
    return out
FACTOR = 1.7      # quadrupled input: at most 4 * 1.7 times the work; doubled: 2 * 1.7
def c29_family(check, fam):
    name, f, sizes = fam; res = blank()
    reqs = [f(n) for n in sizes]; lines = ['%d %s' % (i, q) for i, q in enumerate(reqs)]
    run, out = meter(lines)
    for i, q in enumerate(reqs):
        if i not in out:
            if run.hang: res['viol'].append(viol(check, 'fault', ['--meter'], [lines[i]], '%s, size %d: no end within %d s' % (name, sizes[i], HANG), 'hang', 'family ' + name))
            else: res['inconclusive'].append('%s: ended early (%s)' % (name, crash_text(run)))
            return res
        if out[i] == 'bad': res['errors'].append('driver cannot serve family %s' % name); return res
        res['evals'] += 1
    worst = 0
    for i in range(1, len(sizes)):
        a, b = out[i - 1], out[i]; r = sizes[i] / sizes[i - 1]
        g = b[0] / max(a[0], 1) / r; worst = max(worst, g)
        if g > FACTOR and b[0] > 200000: res['viol'].append(viol(check, 'fault', ['--meter'], lines, '%s: %d basic blocks for size %d, %d for size %d: faster than linear' % (name, a[0], sizes[i - 1], b[0], sizes[i]), 'growth', 'family ' + name))
        if b[1] / max(a[1], 1) / r > FACTOR and b[1] > 1 << 18: res['viol'].append(viol(check, 'fault', ['--meter'], lines, '%s: %d bytes of heap for size %d, %d for size %d: faster than linear' % (name, a[1], sizes[i - 1], b[1], sizes[i]), 'growth', 'family ' + name))
        if b[3] > 2 * a[3] + 32768: res['viol'].append(viol(check, 'fault', ['--meter'], lines, '%s: %d bytes of stack for size %d, %d for size %d' % (name, a[3], sizes[i - 1], b[3], sizes[i]), 'growth', 'family ' + name))
        if res['viol']: break
    res['notes']['max growth of work relative to growth of size'] = round(worst, 2); res['notes']['size families'] = 1
    res['classes']['family ' + name] = len(sizes); res['hashes'] |= {hash(q) & (2**52 - 1) for q in reqs}
    res['samples'].append({'job': 'family ' + name, 'request': 'sizes %s' % (sizes,), 'reply': 'blocks %s' % [out[i][0] for i in range(len(sizes))]})
    return res
def c29(check, tier, seed, lit, agg):
    T = tier == 'thorough'; table = json.load(open(WORK))
    reqs, errs = c29_requests(seed, lit, 700 if not T else 4000, cap=12500 if not T else 30000)
    agg.errors += errs
    # calls of one operation together, as many as fit a time slice, so that whatever each call leaves behind adds up
    groups = {}
    for q in reqs: groups.setdefault(opkey(q), []).append(q)
    tasks = [('f', x) for x in families(random.Random('%s/fam' % seed), T)]; mixed_ = []
    for k in sorted(groups):
        l = groups[k]; t = table.get(k, [0] * 5); cur = []; cost = 0
        if len(l) < 40: mixed_ += l; continue
        for q in l:
            cur.append(q); cost += max(t[0], t[2] * len(q))
            if cost > 2.5e9 and len(cur) > 60: tasks.append(('r', cur)); cur = []; cost = 0
        if cur: tasks.append(('r', cur))
    random.Random('%s/mix' % seed).shuffle(mixed_)
    tasks += [('r', mixed_[i::16]) for i in range(16) if mixed_[i::16]]
    for t, k, r in pool(tasks, lambda t: c29_family(check, t[1]) if t[0] == 'f' else c29_task(check, t[1], table)):
        if k == 'ok': agg.add(r)
        else: agg.errors.append(r)
reg(Check('C29', 'Samples of every other check\'s workload (exceptional inputs included, partly with arbitrary limbs in place of valid ones), each metered: executed basic blocks, peak heap, heap still held afterwards, deepest stack. A request may use 8 times what the unchanged code used at most for that operation over several calibration seeds (lib/work.json), scaled by its size; heap held by calls must not accumulate. Families of requests of growing size (lists with equal, zero, infinite and maximal entries, duplicate search, byte strings, exponent widths): work and heap may grow at most 1.7 times faster than the size, stack must not grow. A request without an end within 150 s, twice, is a violation. Distinct = distinct request.',
          special=c29, variants=('fault',), assumptions=['work inside libc routines (memcpy and the like) is not counted']))
def calibrate(seeds):
    """python3 -c 'import checks_dyn; checks_dyn.calibrate(range(1, 7))' : rewrite lib/work.json from the current tree"""
    harness.BUILT.update(harness.build.build(['fault'])); lit = Lit(); table = {}
    for s in seeds:
        reqs, errs = c29_requests('cal%s' % s, lit, 1000, cap=30000)
        for t, k, r in pool([reqs[i::32] for i in range(32)], lambda p: [(q, v) for i, v in meter(['%d %s' % x for x in enumerate(p)])[1].items() if v != 'bad' for q in (p[i],)]):
            if k != 'ok': print(r); continue
            for q, v in r: learn(table, q, v)
        print(s, len(reqs), errs[:1])
    with open(WORK, 'w') as f: f.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(table[k])) for k in sorted(table)) + '\n}\n')

# ------------------------------------------------------------------ C30, C31
def envkey(env): return ' '.join('%s=%s' % (k, v[:40]) for k, v in sorted((env or {}).items()))
def ambient_task(check, variant, reqs, args, env, label, hang):
    """reply of every request in the given circumstances = reply of the same request made alone in ordinary ones"""
    res = blank()
    want = alone(variant, reqs)
    reqs = [q for i, q in enumerate(reqs) if not want.get(i, '!crash').startswith('!crash')]      # fails anyway: another property's business
    want = dict(enumerate(x for _, x in sorted(want.items()) if not x.startswith('!crash')))
    if not reqs: return res
    lines = ['%d %s' % (i, q) for i, q in enumerate(reqs)]
    def go(ls):
        run = drive(variant, ls, args, env, hang)
        return run, {int(l.split(' ')[0]): l.partition(' ')[2] for l in run.replies if l.split(' ')[0].isdigit()}
    def bad_of(i, got, run):
        if i in got:
            if got[i] != want[i]: return '%s; in ordinary circumstances %s' % (got[i][:400], want[i][:400])
            return None
        if run.hang: return 'no reply for %d s' % hang
        if run.rc == -9: return None
        return 'the process ends with ' + crash_text(run)
    run, got = go(lines)
    for i, q in enumerate(reqs):
        b = bad_of(i, got, run)
        if not b: continue
        r1, g1_ = go([lines[i]]); b1 = bad_of(i, g1_, r1)
        hist = [lines[i]]
        if not b1:
            hist = lines[:i + 1]; r1, g1_ = go(hist); b1 = bad_of(i, g1_, r1)
        if r1.hang and harness.stopped(): break
        if not b1: res['inconclusive'].append('not reproduced (%s): %s -> %s' % (label, q[:200], b[:200])); break
        text = '%s -> %s (%s)' % (q, b1, label)
        if r1.hang: harness.stop(q)
        res['viol'].append({'kind': 'ambient', 'key': q, 'text': text, 'variant': variant, 'replay': replay_file(check, variant, args, env, hist, text + '\n' + r1.err[-2000:], 'ambient')})
        break
    if not res['viol'] and len(got) == len(lines) and run.rc not in (0, -9):
        run2, _ = go(lines)
        if run2.rc not in (0, -9):
            text = 'after %d correct replies (%s): %s' % (len(lines), label, crash_text(run2))
            res['viol'].append({'kind': 'ambient', 'key': 'end ' + label, 'text': text, 'variant': variant, 'replay': replay_file(check, variant, args, env, lines, text + '\n' + run2.err[-2000:], 'ambient')})
    res['evals'] += len(got)
    k = '%s: ' % label
    res['notes'][k + 'calls'] = res['notes'].get(k + 'calls', 0) + len(got)
    for l in run.replies:
        if l.startswith('#') and not l.startswith('#phase'): res['notes']['processes ' + l[1:]] = res['notes'].get('processes ' + l[1:], 0) + 1
    account(res, reqs, '')
    return res
MODES = [
    ('state of the process compared before and after every call, stale errno', ['--ambient', 'watch,errno'], {}),
    ('state compared, rounding upward, foreign locale', ['--ambient', 'watch,up,locale'], {}),
    ('rounding downward, flush to zero, stale errno', ['--ambient', 'down,ftz,errno'], {}),
    ('rounding toward zero, floating-point traps, foreign locale', ['--ambient', 'zero,trap,locale'], {}),
    ('system-call filter, clock unreadable', ['--ambient', 'filter'], {}),
    ('odd environment', [], {'LC_ALL': 'tr_TR.UTF-8', 'LANG': 'de_DE', 'TZ': 'Pacific/Kiritimati', 'HOME': '/nonexistent', 'PATH': '', 'TMPDIR': '/nonexistent', 'POSIXLY_CORRECT': '1', 'BLS': '1', 'BLS_DISABLE': '1', 'BLS_DEBUG': '1', 'DEBUG': '1', 'NDEBUG': '', 'X' * 3000: 'y' * 60000}),
    ('heap filled with a pattern, small allocations uncached', [], {'MALLOC_PERTURB_': '165', 'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0'}),
    ('every allocation its own mapping, plain string routines', [], {'MALLOC_MMAP_THRESHOLD_': '1', 'GLIBC_TUNABLES': 'glibc.cpu.hwcaps=-AVX2,-AVX,-ERMS,-FSRM,-SSSE3,-SSE4_1,-SSE4_2,-AVX512F,-AVX512VL'}),
]
def c30(check, tier, seed, lit, agg):
    T = tier == 'thorough'
    reqs, errs = collect(seed, lit, 200 if not T else 1200, 'c30', cap=12500 if not T else 20000)
    agg.errors += errs
    reqs = short(reqs, 20000); rng = random.Random('%s/c30' % seed); rng.shuffle(reqs)
    light = [q for q in reqs if not q.startswith(('bigmsg', 'digest', 'bulk'))]
    big = large(rng); tasks = []
    for m, (label, args, env) in enumerate(MODES):
        env = dict(env)
        if 'X' * 3000 in env and T: env['Z' * 20] = 'z' * 100000
        for v in ('rel', 'port', 'clang'):
            mine = light if v == 'rel' else light[m % 3::3]
            k = 4 if v != 'port' else 6
            tasks += [(v, mine[i::k], args, env, label) for i in range(k) if mine[i::k]]
            if v == 'rel' or m == 4: tasks += [(v, big[i::3], args, env, label) for i in range(3)]
    for t, kk, r in pool(tasks, lambda t: ambient_task(check, *t, 150)):
        if kk == 'ok': agg.add(r)
        else: agg.errors.append(r)
    agg.viol = agg.viol[:6]
reg(Check('C30', 'Samples of all workloads executed in eight altered circumstances (rounding modes, flush-to-zero, floating-point traps, a foreign locale, stale errno, odd environment variables, heap configurations that change every address, restricted string routines), each reply compared with that of the same call made alone in an ordinary process; under a seccomp filter that lets only memory management through and with the time-stamp counter made unreadable, so that any other system call or look at the clock ends the process; and with the observable state of the process (control words, locales, environment, signal mask and handlers, working directory, umask, limits, open files, files, threads, timers, handlers, rand state) compared before and after every call. Builds: gcc assembly, gcc portable, clang. Distinct = distinct request.',
          special=c30, variants=('rel', 'port', 'clang'), assumptions=['where the sandbox refuses the filter the system-call part is not observed (the evidence counts processes filtered and unfiltered)']))
def c31(check, tier, seed, lit, agg):
    T = tier == 'thorough'
    reqs, errs = collect(seed, lit, 300 if not T else 1200, 'c31', cap=12500 if not T else 20000)
    agg.errors += errs
    reqs = short(reqs, 20000); rng = random.Random('%s/c31' % seed); rng.shuffle(reqs)
    reqs = [q for q in reqs if not q.startswith(('bigmsg', 'digest', 'bulk'))]
    byop = {}; big = large(rng)
    for q in reqs: byop.setdefault(opkey(q), []).append(q)
    tasks = []
    for v in ('phase', 'phaseasan'):
        for ph in ('early', 'late'):
            label = 'in the initialiser of a static object' if ph == 'early' else 'in the destructor of a static object'
            mine = reqs if v == 'phase' else reqs[::3]
            k = 4 if v == 'phase' else 8
            tasks += [(v, mine[i::k], [], {'DRV_PHASE': ph}, '%s, %s build' % (label, v)) for i in range(k) if mine[i::k]]
            if v == 'phase': tasks += [(v, big[i::3], [], {'DRV_PHASE': ph}, '%s, %s build' % (label, v)) for i in range(3)]
            # the very first call of a process is of each operation in turn
            if v == 'phase': tasks += [(v, rng.sample(byop[o], min(len(byop[o]), 2)), [], {'DRV_PHASE': ph}, label + ', first call of the process') for o in sorted(byop)]
    for t, kk, r in pool(tasks, lambda t: ambient_task(check, *t, 60)):
        if kk == 'ok': agg.add(r)
        else: agg.errors.append(r)
    agg.viol = agg.viol[:6]
    agg.notes['processes'] = len(tasks)
reg(Check('C31', 'Samples of all workloads executed inside the initialiser, and inside the destructor, of a static object of a file that is linked before the library (so before any dynamic initialiser of the library has run, and after all its destructors), in one build with the library\'s files in alphabetical and one (ASan, UBSan, portable) in the opposite order; also with each operation as the first call of a process. Replies are compared with those of the same calls made alone from main. Distinct = distinct request.',
          special=c31, variants=('phase', 'phaseasan')))
