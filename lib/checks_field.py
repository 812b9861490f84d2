"""C01-C05: field arithmetic, back ends, roots and order, towers, wide integers."""
import random
import ref
from ref import P, R, MONT, RINV
from gen import *
from harness import Job, Check, V, C

BACKENDS = ('rel', 'rel@nobmi', 'port')

# ------------------------------------------------------------------ C01
def r1(op, a, b):
    """expected raw limbs for raw canonical operands"""
    if op == 'fadd': v = (a + b) % P
    elif op == 'fsub': v = (a - b) % P
    elif op in ('fmul', 'fmulraw'): v = a * b * RINV % P
    elif op == 'fladd': v = a + b
    elif op == 'flsub': v = a - b
    return '%096x' % v
def r1u(op, a):
    if op == 'fdbl': v = 2 * a % P
    elif op == 'fsqr': v = a * a * RINV % P
    elif op == 'fneg': v = -a % P
    elif op == 'ftomont': v = a * MONT % P
    elif op == 'ffrommont': v = a * RINV % P
    elif op == 'fldbl': v = 2 * a
    return '%096x' % v
GOPS2 = {'add': 'fadd', 'sub': 'fsub', 'mul': 'fmul', 'ladd': 'fladd', 'lsub': 'flsub'}
GOPS1 = {'dbl': 'fdbl', 'sqr': 'fsqr', 'neg': 'fneg', 'ldbl': 'fldbl'}
def c01_bin(op, a, b, cls): return ('%s %096x %096x' % (op, a, b), r1(op, a, b), cls)
def c01_un(op, a, cls): return ('%s %096x' % (op, a), r1u(op, a), cls)
def c01_guard(g, a, b):
    if g in GOPS2:
        if g == 'lsub' and a < b: a, b = b, a
        return ('fguard %s %096x %096x' % (g, a, b), r1(GOPS2[g], a, b), 'guard ' + g)
    return ('fguard %s %096x %096x' % (g, a, b), r1u(GOPS1[g], a), 'guard ' + g)
def nearpairs(rng, lit):
    """operand pairs whose sum, difference or product meets a limb or modulus boundary"""
    a = fpv(rng, lit)
    t = rng.randrange(9)
    if t == 0: b = (P - a + rng.randrange(-3, 4)) % P                       # sum around p
    elif t == 1: b = (a + rng.randrange(-3, 4)) % P                         # difference around 0
    elif t == 2:                                                            # sum has all-ones limbs
        s = wide(rng, 6, lit) % (2 * P); b = s - a if 0 <= s - a < P else (s - a) % P
    elif t == 3: b = ((1 << (64 * rng.randrange(1, 6))) - a + rng.randrange(-2, 3)) % P
    elif t == 4: b = (a ^ ((1 << 64) - 1) << 64 * rng.randrange(6)) % P
    elif t == 5: b = ref.inv(a) * MONT * MONT % P if a else 1               # raw product is one
    elif t == 6: b = fpv(rng, lit) * ref.inv(a) % P * MONT % P if a else 0  # product is a structured value
    elif t == 7: b = a
    else: b = fpv(rng, lit)
    return a, b
def c01(ctx):
    rng, lit = ctx.rng, ctx.lit
    E = FP_EDGES
    for a, b in ctx.mine((a, b) for a in E for b in E):
        for op in ('fadd', 'fsub', 'fmul'): yield c01_bin(op, a, b, op + ' edge x edge')
    for a in ctx.mine(E):
        for op in ('fdbl', 'fsqr', 'fneg', 'ftomont', 'ffrommont', 'fldbl'): yield c01_un(op, a, op + ' edge')
    for _ in range(ctx.n(24000, 1600000)):
        a, b = nearpairs(rng, lit)
        t = rng.random()
        if t < .62: op = rng.choice(('fadd', 'fsub', 'fmul')); yield c01_bin(op, a, b, op)
        elif t < .76: op = rng.choice(('fdbl', 'fsqr', 'fneg', 'ftomont', 'ffrommont', 'fldbl')); yield c01_un(op, a, op)
        elif t < .84:
            x = a + rng.choice((0, 1, 2, 3)) * P
            yield c01_bin('fmulraw', *((x, b) if rng.random() < .5 else (b, x)), 'multiply unreduced')
        elif t < .92:
            x = a + rng.choice((0, 0, 1, 3)) * P; y = b + rng.choice((0, 0, 1, 3)) * P
            if rng.random() < .5: yield c01_bin('fladd', x, y, 'fladd')
            else: yield c01_bin('flsub', max(x, y), min(x, y), 'flsub')
        elif t < .95:
            x = a * MONT % P if rng.random() < .2 else a
            y = x if rng.random() < .1 else x ^ 1 << rng.randrange(381)
            if y >= P: y = x ^ 1 << rng.randrange(300)
            yield fcmp(x, y)
        else:
            yield c01_guard(rng.choice(list(GOPS2) + list(GOPS1)), a, b)
def c01_bulk(ctx):
    """mass runs of the library against the interpreter's own schoolbook model, in process"""
    for _ in range(ctx.n(16, 16 * 40)):
        yield ('bulk fp %d %d' % (ctx.rng.getrandbits(60), 60000), C(bulk_ok), 'bulk fp (60000 operand pairs each)')
def bulk_ok(reply):
    return None if reply.startswith('ok ') else reply
CHECKS = {}
def reg(c): CHECKS[c.id] = c
reg(Check('C01', 'Operands: all pairs of %d edge residues, plus pairs made so that sum, difference or product meets p, a limb boundary or an all-ones limb; every alias pattern and call form of each operation, guard pages and register checks; on all three back ends against Python integers. Bulk cases: each is 60000 operand pairs against a schoolbook model in the driver. Non-trivial: every case (distinct = distinct request and class).' % len(FP_EDGES),
          jobs=lambda tier: [Job('fp', c01, BACKENDS, batch=4000), Job('bulk', c01_bulk, BACKENDS, batch=4)]))

# ------------------------------------------------------------------ C03
def sqrt1(reply, a):
    ok, _, root = reply.partition(' ')
    s = ref.is_square(a)
    if ok != ('1' if s else '0'): return 'square: %s' % s
    if s:
        r = u1(root)
        if r * r % P != a: return 'root squared differs from the input'
def sqrt2(reply, a):
    ok, _, root = reply.partition(' ')
    s = ref.f2is_square(a)
    if ok != ('1' if s else '0'): return 'square: %s' % s
    if s:
        r = u2(root)
        if ref.f2sqr(r) != a: return 'root squared differs from the input'
def b01(x): return '1' if x else '0'
def pred1(reply, a):
    q, l, s = reply.split(' ')
    if a and q != b01(not ref.is_square(a)): return 'non-residue flag'
    if l != b01(ref.lexlarge1(a)): return 'lexicographically-largest flag'
    if s != b01(a % 2 == 0): return 'parity flag'
def pred2(reply, a):
    q, l, s = reply.split(' ')
    if a != (0, 0) and q != b01(not ref.f2is_square(a)): return 'non-residue flag'
    if l != b01(ref.lexlarge2(a)): return 'lexicographically-largest flag'
    if s != b01((a[0] if a[0] else a[1]) % 2 == 0): return 'parity flag'
def cmpw(a, b): return 'lt' if a < b else 'gt' if a > b else 'eq'
def c03_1(a, cls):
    yield ('finv ' + F1(a), V(lambda a: F1(ref.inv(a)), a), 'inverse ' + cls)
    yield ('fsqrt ' + F1(a), C(sqrt1, a), 'sqrt ' + cls)
    yield ('fpred ' + F1(a), C(pred1, a), 'predicates ' + cls)
def c03_2(a, cls):
    yield ('t2 inv ' + F2(a), V(lambda a: F2(ref.f2inv(a)), a), 'inverse2 ' + cls)
    yield ('2sqrt ' + F2(a), C(sqrt2, a), 'sqrt2 ' + cls)
    yield ('2pred ' + F2(a), C(pred2, a), 'predicates2 ' + cls)
def c03_flags(raw):
    v = raw
    return ('fflags %096x' % raw, b01(v & 1) + b01(not v & 1) + b01(v == 0) + b01(v == MONT % P) + b01(v < P), 'flags')
def fcmp(a, b): return ('fcmp %096x %096x' % (a, b), cmpw(a, b), 'order')
def f2cmp(a, b):
    k = lambda t: (t[0] * MONT % P, t[1] * MONT % P)
    return ('2cmp %s %s' % (F2(a), F2(b)), '%s %s' % (cmpw(k(a), k(b)), b01(a == b)), 'order2')
def sparse2(rng, lit):
    t = rng.random()
    a = fpm(rng, lit)
    if t < .3: return (a, 0)
    if t < .6: return (0, a)
    if t < .7: return rng.choice([(P - 1, 0), (0, P - 1), (1, 0), (0, 1), (P - 1, P - 1), (1, 1), (1, P - 1), (P - 1, 1), (0, 0)])
    if t < .8: return ref.f2sqr((a, fpm(rng, lit)))
    if t < .9: return ref.f2mul(ref.f2sqr((a, fpm(rng, lit))), (1, 1))
    # alpha = a^((p-1)/2) = -1 happens exactly when the root is purely imaginary (times a square)
    return ref.f2mul((a * a % P, 0), (P - 1, 0))
def c03(ctx):
    rng, lit = ctx.rng, ctx.lit
    for e in ctx.mine(FP_EDGES):
        yield from c03_1(e, 'edge')
        yield from c03_1(e * RINV % P, 'edge (Montgomery)')
        yield c03_flags(e)
        for z in ((e, 0), (0, e), (e, e), (e, -e % P), (e * RINV % P, 1), (e * RINV % P, 0)): yield from c03_2(z, 'edge')
    for k in ctx.mine(range(384)):           # powers of two and their neighbours as raw limbs: inverse step counts
        for d in (-1, 0, 1):
            v = ((1 << k) + d) % P
            yield from c03_1(v * RINV % P, 'raw 2^k')
            yield from c03_1((P - (1 << k) + d) % P * RINV % P, 'raw p-2^k')
        yield c03_flags((1 << k) % MONT)
        yield c03_flags((P + (1 << k)) % MONT)
    for v in ctx.mine([P - 1, P, P + 1, MONT - 1, 0, 1, MONT % P, MONT % P + 1, 2 * P]): yield c03_flags(v)
    for _ in range(ctx.n(2600, 80000)):
        yield from c03_1(fpm(rng, lit), 'structured')
    for _ in range(ctx.n(2200, 60000)):
        yield from c03_2(f2m(rng, lit) if rng.random() < .6 else sparse2(rng, lit), 'structured')
    for _ in range(ctx.n(600, 8000)):        # halves: y and p-y around (p-1)/2
        y = (P - 1) // 2 + rng.choice((0, 1, 2, -1, rng.randrange(-2**70, 2**70)))
        yield ('fpred ' + F1(y), C(pred1, y), 'predicates half')
        z = rng.choice(((y, 0), (0, y), (5, y), (y, 7), (0, P - y), (P - y, 0)))
        yield ('2pred ' + F2(z), C(pred2, z), 'predicates2 half')
    for _ in range(ctx.n(6000, 100000)):
        a = wide(rng, 6, lit)
        t = rng.random()
        b = a if t < .1 else a ^ (1 << rng.randrange(384)) if t < .5 else wide(rng, 6, lit)
        yield fcmp(a, b)
        if t < .3: yield c03_flags(a)
        x, y = f2m(rng, lit), f2m(rng, lit)
        if rng.random() < .4: y = (x[0], y[1]) if rng.random() < .5 else (y[0], x[1])
        if rng.random() < .1: y = x
        yield f2cmp(x, y)
    for _ in range(ctx.n(40, 600)):          # exponentiation used by the roots
        a = fpm(rng, lit); k = rng.randrange(1, 9); e = wide(rng, k, lit) if rng.random() < .6 else sparse_exp(rng, k)
        yield ('fexp %s %s' % (F1(a), W(e, k)), V(lambda a, e: F1(pow(a, e, P)), a, e), 'fexp')
def c03_bulk(ctx):
    for _ in range(ctx.n(16, 16 * 40)):
        yield ('bulk inv %d %d' % (ctx.rng.getrandbits(60), 4000), C(bulk_ok), 'bulk inverse/root (4000 elements each)')
reg(Check('C03', 'Edge residues (plain and as raw limbs), all 2^k and p-2^k with neighbours as raw limbs, structured and sparse Fp2 elements including squares, non-squares, negative rationals and pure imaginaries, values around (p-1)/2; replies against Python (pow, Euler, norm-method root). Distinct = distinct request and class.',
          jobs=lambda tier: [Job('roots', c03, batch=2000), Job('bulk', c03_bulk, batch=4)]))

# ------------------------------------------------------------------ C04
def t_bin(n, o, a, b): 
    if n == 2: return F2({'add': ref.f2add, 'sub': ref.f2sub, 'mul': ref.f2mul}[o](a, b))
    if n == 6:
        if o == 'mul': return F6(ref.f6mul(a, b))
        g = ref.f2add if o == 'add' else ref.f2sub
        return F6(tuple(g(x, y) for x, y in zip(a, b)))
    return F12({'add': ref.f12add, 'sub': ref.f12sub, 'mul': ref.f12mul}[o](a, b))
Fs = {2: F2, 6: F6, 12: F12}
GENS = {2: f2m, 6: f6m, 12: f12m}
def t_un(n, o, a):
    if o == 'sqr': return t_bin(n, 'mul', a, a)
    if o == 'dbl': return t_bin(n, 'add', a, a)
    if o == 'neg': return F2(ref.f2neg(a)) if n == 2 else Fs[n](tuple(ref.f2neg(x) for x in a))
    if o == 'inv': return F2(ref.f2inv(a)) if n == 2 else F6(ref.f6inv(a)) if n == 6 else F12(ref.f12inv(a))
def t_frob(n, a, k):
    if n == 2: return F2(ref.f2conj(a) if k % 2 else a)
    return F6(ref.f6frob(a, k % 6)) if n == 6 else F12(ref.f12frob(a, k % 12))
def t_exp(n, a, e):
    return F2(ref.f2pow(a, e)) if n == 2 else F6(ref.f6pow(a, e)) if n == 6 else F12(ref.f12pow(a, e))
def isz(a): return b01(all(c == (0, 0) for c in a) if isinstance(a[0], tuple) else a == (0, 0))
def is1(a): return b01((a[0] == (1, 0) and all(c == (0, 0) for c in a[1:])) if isinstance(a[0], tuple) else a == (1, 0))
def adj(n, rng):
    """coefficients adjacent to p in their raw form everywhere (lazy reduction extremes)"""
    def c(): return rng.choice((P - 1, P - 2, 0, 1, P - 1, P - 1, (P - 1) // 2, MONT % P)) * RINV % P
    if n == 2: return (c(), c())
    return tuple((c(), c()) for _ in range(n // 2))
def f12l(*c):
    l = [(0, 0)] * 6
    for i, v in c: l[i] = v
    return tuple(l)
def e_6by01(a, b, c): return F6(ref.f6mul(a, (b, c, (0, 0))))
def e_014(a, b, c, d):
    # b + c v + d v w  in the tower: w^0, w^2, w^3
    return F12(ref.f12mul(a, f12l((0, b), (2, c), (3, d))))
def e_flat(a): return ref.tower12(a)
def e_12part(a):
    t = ref.tower12(a); m = ref.f6mul(t[:3], t[3:]); d = tuple(ref.f2add(x, y) for x, y in zip(t[:3], t[3:]))
    return F6(m) + F6(t[3:]) + ' ' + F6(t[:3]) + F6(d)
def e_fp4(a, b):
    return F2(ref.f2add(ref.f2sqr(a), ref.f2mul(ref.XI, ref.f2sqr(b)))) + F2(ref.f2smul(ref.f2mul(a, b), 2))
def e_cyc(rng, lit):
    t = rng.random()
    if t < .05: return ref.F12O
    while True:
        f = f12m(rng, lit) if t < .6 else tuple((rng.randrange(P), rng.randrange(P)) for _ in range(6))
        if any(c != (0, 0) for c in f): return ref.easy(f)
def neutral(r, n):
    f = r.split(' '); one = {1: lambda: F1(1), 2: lambda: F2((1, 0)), 6: lambda: F6(((1, 0), (0, 0), (0, 0))), 12: lambda: F12(ref.F12O)}[n]()
    if f[0] != '0' * (96 * n): return 'zero() is not zero'
    if f[1] != one: return 'one() is not one'
    return None if f[2] == '1001' else 'isZero/isOne of zero and one'
def c04(ctx):
    rng, lit = ctx.rng, ctx.lit
    def el(n):
        t = rng.random()
        if t < .25: return adj(n, rng)
        return GENS[n](rng, lit)
    reps = {2: ctx.n(9000, 200000), 6: ctx.n(3600, 80000), 12: ctx.n(3600, 80000)}
    for n in (1, 2, 6, 12):
        yield 'neutral %d' % n, C(lambda r, n: neutral(r, n), n), 'fp%d zero and one' % n
    for n in (2, 6, 12):
        for _ in range(reps[n]):
            a = el(n); t = rng.random()
            b = a if t < .1 else el(n)
            if t > .95: b = Fneg(n, a)
            o = rng.choice(('add', 'sub', 'mul', 'mul', 'mul'))
            yield ('t%d %s %s %s' % (n, o, Fs[n](a), Fs[n](b)), V(t_bin, n, o, a, b), 'fp%d %s' % (n, o))
            o = rng.choice(('sqr', 'dbl', 'neg', 'sqr'))
            yield ('t%d %s %s' % (n, o, Fs[n](a)), V(t_un, n, o, a), 'fp%d %s' % (n, o))
            if rng.random() < .25: yield ('t%d inv %s' % (n, Fs[n](a)), V(t_un, n, 'inv', a), 'fp%d inv' % n)
            if rng.random() < .25:
                yield ('t%d eq %s %s' % (n, Fs[n](a), Fs[n](b)), b01(a == b) * 2 + isz(a) + is1(a), 'fp%d eq' % n)
        for _ in range(ctx.n(160, 2000)):     # elements differing in exactly one coefficient, one bit
            a = el(n); fl = list(a) if n == 2 else [x for c in a for x in c]
            i = rng.randrange(n); fl[i] = (fl[i] + rng.choice((1, 1 << rng.randrange(380)))) % P
            b = tuple(fl) if n == 2 else tuple((fl[2 * j], fl[2 * j + 1]) for j in range(n // 2))
            yield ('t%d eq %s %s' % (n, Fs[n](a), Fs[n](b)), b01(a == b) * 2 + isz(a) + is1(a), 'fp%d eq one coefficient' % n)
            z = [0] * n; z[i] = rng.choice((1, rng.randrange(P)))
            zz = tuple(z) if n == 2 else tuple((z[2 * j], z[2 * j + 1]) for j in range(n // 2))
            one = [0] * n; one[0] = 1; one[i] = (one[i] + rng.choice((0, 1, 2))) % P
            oo = tuple(one) if n == 2 else tuple((one[2 * j], one[2 * j + 1]) for j in range(n // 2))
            yield ('t%d eq %s %s' % (n, Fs[n](zz), Fs[n](oo)), b01(zz == oo) * 2 + isz(zz) + is1(zz), 'fp%d zero/one tests' % n)
            yield ('t%d eq %s %s' % (n, Fs[n](oo), Fs[n](zz)), b01(zz == oo) * 2 + isz(oo) + is1(oo), 'fp%d zero/one tests' % n)
        for k in ctx.mine(list(range(0, 40)) + [47, 48, 49, 59, 60, 61, 255, 256, 257, 1023, 1024, 4095, 1 << 20, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1] + lit.newsmall):
            for _ in range(6):
                a = el(n)
                yield ('t%d frob %s %d' % (n, Fs[n](a), k), V(t_frob, n, a, k), 'fp%d frobenius' % n)
        for _ in range(ctx.n({2: 160, 6: 48, 12: 48}[n], 1600)):
            a = el(n); k = rng.randrange(1, 9) if n == 2 else rng.randrange(1, 4)
            e = rng.choice((0, 1, 2, 3, wide(rng, k, lit), rng.getrandbits(64 * k), 1 << (64 * k - 1), (1 << 64 * k) - 1))
            if n == 12 and e.bit_length() > 130: e >>= rng.randrange(64, 128)
            if rng.random() < .3: e = sparse_exp(rng, k)
            yield ('t%d exp %s %s' % (n, Fs[n](a), W(e, k)), V(t_exp, n, a, e), 'fp%d exp' % n)
    for _ in range(ctx.n(1500, 30000)):
        a, b = el(2), el(2)
        x = fpm(rng, lit)
        yield ('2conj ' + F2(a), V(lambda a: F2(ref.f2conj(a)), a), '2conj')
        yield ('2mnr ' + F2(a), V(lambda a: F2(ref.f2mul(a, ref.XI)), a), '2mnr')
        yield ('2mb ' + F2(a), V(lambda a: F2(ref.f2mul(a, (4, 4))), a), '2mb')
        yield ('2mulfq %s %s' % (F2(a), F1(x)), V(lambda a, x: F2(ref.f2smul(a, x)), a, x), '2mulfq')
        k = rng.randrange(2)
        yield ('2mulself %s %d' % (F2(a), k), V(lambda a, x: F2(ref.f2smul(a, x)) + ' ' + F2((a[0] * a[1] % P, 2 * a[1] % P)), a, a[k]), '2mulfq into itself')
        yield ('2mulfqself ' + F2(a), V(lambda a: F2(ref.f2smul(a, a[0])) + ' ' + F2(ref.f2smul(a, a[1])), a), '2mulfq aliased')
        yield ('fp4sqr %s %s' % (F2(a), F2(b)), V(e_fp4, a, b), 'fp4sqr')
    for _ in range(ctx.n(1200, 24000)):
        a = el(6); b, c = el(2), el(2)
        yield ('6mnr ' + F6(a), V(lambda a: F6(ref.f6mul(a, ((0, 0), (1, 0), (0, 0)))), a), '6mnr')
        yield ('6by01 %s %s %s' % (F6(a), F2(b), F2(c)), V(e_6by01, a, b, c), '6by01')
        i, j = rng.randrange(3), rng.randrange(3)
        yield ('6by01self %s %d %d' % (F6(a), i, j), V(e_6by01, a, a[i], a[j]), '6by01 aliased with coefficients %d,%d' % (i, j))
        yield ('6by1self %s %d' % (F6(a), i), V(lambda a, x: e_6by01(a, (0, 0), x) + ' ' + e_6by01(a, x, (0, 0)), a, a[i]), '6by1/6bybase aliased with coefficient %d' % i)
        yield ('6mulpart ' + F6(a), V(lambda a: F6((ref.f2mul(a[0], a[1]), a[1], (0, 0))), a), '6 coefficient of itself')
        yield ('6by1 %s %s' % (F6(a), F2(b)), V(e_6by01, a, (0, 0), b), '6by1')
        yield ('6bybase %s %s' % (F6(a), F2(b)), V(e_6by01, a, b, (0, 0)), '6bybase')
    for _ in range(ctx.n(1600, 30000)):
        a = el(12); b, c, d = el(2), el(2), el(2)
        yield ('12conj ' + F12(a), V(lambda a: F12(ref.f12conj(a)), a), '12conj')
        yield ('12by014 %s %s %s %s' % (F12(a), F2(b), F2(c), F2(d)), V(e_014, a, b, c, d), '12by014')
        i, j, k = rng.randrange(6), rng.randrange(6), rng.randrange(6)
        fl = e_flat(a)
        yield ('12by014self %s %d %d %d' % (F12(a), i, j, k), V(e_014, a, fl[i], fl[j], fl[k]), '12by014 aliased')
        yield ('12mulpart ' + F12(a), V(e_12part, a), '12 halves of itself')
    for _ in range(ctx.n(700, 8000)):
        a = e_cyc(rng, lit)
        yield ('12csqr ' + F12(a), V(lambda a: F12(ref.f12sqr(a)), a), 'cyclotomic square')
        if rng.random() < .12:
            k = rng.randrange(1, 5)
            e = rng.choice((0, 1, 2, 3, -ref.X, rng.getrandbits(64 * k), 1 << (64 * k - 1), wide(rng, k, lit))) % (1 << 64 * k)
            if e.bit_length() > 130: e >>= 64
            if rng.random() < .5: e = sparse_exp(rng, k)
            yield ('12cexp %s %s' % (F12(a), W(e, k)), V(t_exp, 12, a, e), 'cyclotomic exp')
def Fneg(n, a): return ref.f2neg(a) if n == 2 else tuple(ref.f2neg(x) for x in a)
def c04_bulk(ctx):
    for w, k in (('t2', 6000), ('t6', 1500), ('t12', 500)):
        for _ in range(ctx.n(8, 320)):
            yield ('bulk %s %d %d' % (w, ctx.rng.getrandbits(60), k), C(bulk_ok), 'bulk %s (%d elements each)' % (w, k))
reg(Check('C04', 'Tower elements with coefficients at 0, 1, p-1 (raw), sparse, subfield and structured elements; all ring operations in every call form and alias pattern, sparse products, Frobenius powers 0..39 and large, exponents of all widths, cyclotomic elements from the easy part; against a flat Fp[w]/(w^12-2w^6+2) model. Distinct = distinct request and class.',
          jobs=lambda tier: [Job('tower', c04, batch=2000), Job('bulk', c04_bulk, batch=4)]))

# ------------------------------------------------------------------ C05
def hl(v): return '%x %x' % (v >> 64 & M64, v & M64)
def h3(v): return '%x %x %x' % (v >> 128 & M64, v >> 64 & M64, v & M64)
def c05_prim(op, a):
    n = {'add64': 3, 'sub64': 3, 'mul64': 2, 'madd': 5, 'madd0': 3, 'madd1': 3, 'madd2': 4, 'madd3': 5, 'madd2s': 5, 'madd1s': 4, 'madd2sb': 4, 'madd1sb': 3}[op]
    a = list(a[:n])
    if op in ('add64', 'sub64'): a[2] &= 1
    if op == 'madd': a[2] = min(a[2], M64 - 1)
    if op == 'madd3':      # the sum must fit in two words
        lo = a[0] * a[1] + a[2] + a[3]
        a[4] = min(a[4], M64 - (lo >> 64))
    if op == 'add64': s = sum(a); e = '%x %x' % (s & M64, s >> 64)
    elif op == 'sub64': s = a[0] - a[1] - a[2]; e = '%x %x' % (s & M64, 1 if s < 0 else 0)
    elif op == 'mul64': e = hl(a[0] * a[1])
    elif op == 'madd': e = h3((a[2] << 128 | a[3] << 64 | a[4]) + a[0] * a[1])
    elif op == 'madd0': e = '%x' % ((a[0] * a[1] + a[2]) >> 64)
    elif op == 'madd1': e = hl(a[0] * a[1] + a[2])
    elif op == 'madd2': e = hl(a[0] * a[1] + a[2] + a[3])
    elif op == 'madd3': e = hl(a[0] * a[1] + a[2] + a[3] + (a[4] << 64))
    elif op == 'madd2s': e = h3(2 * a[0] * a[1] + a[2] + a[4] + (a[3] << 64))
    elif op == 'madd1s': e = h3(2 * a[0] * a[1] + a[3] + (a[2] << 64))
    elif op == 'madd2sb': e = h3(2 * a[0] * a[1] + a[2] + a[3])
    elif op == 'madd1sb': e = h3(2 * a[0] * a[1] + a[2])
    return (op + ''.join(' %x' % x for x in a), e, op)
PRIMNAMES = ('add64', 'sub64', 'mul64', 'madd', 'madd0', 'madd1', 'madd2', 'madd3', 'madd2s', 'madd1s', 'madd2sb', 'madd1sb')
def c05_sdiv(u, n, v, m, cls):
    v = v or 1
    return ('sdiv %s %s' % (W(u, n), W(v, m)), W(u // v, n) + ' ' + W(u % v, m), cls)
def divcase(rng, lit):
    n = rng.randrange(1, 9); m = rng.randrange(1, n + 1)
    v = wide(rng, m, lit)
    t = rng.random()
    if t < .15: v = (1 << 64 * m) - 1 - (rng.getrandbits(64 * m - 64) if m > 1 and rng.random() < .5 else rng.randrange(3))
    elif t < .35: v = (1 << (64 * m - 1)) | (wide(rng, m, lit) >> rng.randrange(1, 66))            # top bit set, small second word
    elif t < .45: v = (rng.choice((1, 2, 3, (1 << 62), (1 << 63) - 1)) << (64 * m - 64)) | (wide(rng, m, lit) & ((1 << (64 * m - 64)) - 1 if m > 1 else 0))
    v &= (1 << 64 * m) - 1
    full = True
    if rng.random() < .15: v >>= rng.randrange(1, 64 * m); v = v or rng.choice((1, 2, M64)); full = v >> (64 * (m - 1)) != 0      # leading zero digits
    elif v >> (64 * (m - 1)) == 0: v |= rng.choice((1, 1 << 63, rng.getrandbits(64) | 1)) << (64 * (m - 1))
    t = rng.random(); top = 1 << 64 * n; mm = (v.bit_length() + 63) // 64
    if t < .3: u = wide(rng, n, lit)
    elif t < .75:
        q = wide(rng, n - mm + 1, lit)
        r = rng.choice((0, 1, v - 1, v - 2 if v > 1 else 0, rng.randrange(v)))
        u = q * v + r
        if u >= top: q = (top - 1 - r) // v - rng.choice((0, 0, 1)) if top - 1 >= r else 0; q = max(q, 0); u = q * v + r
    else:            # dividend whose leading words equal the divisor's: the quotient digit estimate overflows
        u = (v << (64 * rng.randrange(0, n - mm + 1))) - rng.choice((0, 1, 1 << 63, 1 << 64))
        u = abs(u)
    return c05_sdiv(u % top, n, v, m, 'sdiv %d/%d%s' % (n, m, '' if full else ' short divisor'))
def c05(ctx):
    rng, lit = ctx.rng, ctx.lit
    ws = WORDS + [PL[0], PL[0] - 1, RL[0]] + lit.newwords[:6]
    for op in PRIMNAMES:
        for x in ctx.mine(ws):
            for y in ws:
                for _ in range(8): yield c05_prim(op, [x, y] + [rng.choice(ws) if rng.random() < .8 else rng.getrandbits(64) for _ in range(3)])
        for _ in range(ctx.n(6000, 400000)):
            a = [word(rng, lit) for _ in range(5)]
            t = rng.random()
            if t < .2 and a[0]:                       # twice the product ends in an all-ones word
                k = (1 << rng.choice((127, 128, 64))) - rng.choice((1, rng.getrandbits(30)))
                b = k // a[0]
                if b <= M64: a[1] = b
            elif t < .3: a[1] = M64 - a[0] + rng.randrange(-1, 2) & M64
            yield c05_prim(op, a)
    for _ in range(ctx.n(24000, 600000)):
        na, nb = rng.randrange(1, 5), rng.randrange(1, 5)
        a, b = wide(rng, na, lit), wide(rng, nb, lit)
        if rng.random() < .2: b = ((1 << 64 * max(na, nb)) - a - rng.randrange(2)) % (1 << 64 * nb)
        nc = rng.choice((max(na, nb), max(na, nb), max(na, nb) + 1, rng.randrange(max(na, nb), 10)))
        s = a + b
        yield ('sadd %d %s %s' % (nc, W(a, na), W(b, nb)), W(s, nc) if s < 1 << 64 * nc else '!invalid_argument', 'sadd %s' % ('overflow' if s >> 64 * nc else 'fits'))
        if rng.random() < .3: a >>= rng.randrange(64 * na); b >>= rng.randrange(64 * nb)
        p = a * b
        nc = rng.choice((na + nb, max(1, (p.bit_length() + 63) // 64), max(1, (p.bit_length() + 63) // 64 - 1), rng.randrange(1, 10)))
        yield ('smul %d %s %s' % (nc, W(a, na), W(b, nb)), W(p, nc) if p < 1 << 64 * nc else '!invalid_argument', 'smul %s' % ('overflow' if p >> 64 * nc else 'fits'))
        n = rng.randrange(1, 9)
        a = wide(rng, n, lit); t = rng.random()
        b = a if t < .15 else a ^ (1 << rng.randrange(64 * n)) if t < .6 else wide(rng, n, lit)
        yield ('scmp %s %s' % (W(a, n), W(b, n)), cmpw(a, b) + ' ' + b01(a == b), 'scmp')
        if t < .5: a >>= rng.randrange(64 * n)
        yield ('sbits ' + W(a, n), '%x' % a.bit_length(), 'sbits')
        k = rng.choice((0, 1, 63, 64, 65, 127, 128, 64 * n - 1, rng.randrange(64 * n))) % (64 * n)
        yield ('srsh %s %d' % (W(a, n), k), W(a >> k, n), 'srsh')
        if t < .1:
            k = 64 * n + rng.choice((0, 1, 63, 64, rng.getrandbits(rng.randrange(1, 64)))) if t < .05 else (1 << rng.randrange(6, 64)) + rng.choice((0, 0, 1, -1, 64, rng.randrange(64 * n)))
            yield ('srsh %s %d' % (W(a, n), k), W(a >> k if k < 64 * n else 0, n), 'srsh beyond the width')
    for n in range(1, 9):
        for k in ctx.mine(range(64 * n)):
            yield ('sbits ' + W(1 << k, n), '%x' % (k + 1), 'sbits each bit')
            a = rng.getrandbits(64 * n)
            yield ('srsh %s %d' % (W(a, n), k), W(a >> k, n), 'srsh each shift')
    for _ in range(ctx.n(36000, 1500000)): yield divcase(rng, lit)
    for _ in range(ctx.n(6000, 100000)):
        n = rng.randrange(6, 13); v = wide(rng, n, lit)
        t = rng.random()
        if t < .4: v = min(wide(rng, n - 5, lit) * P + rng.choice((0, 1, P - 1, -1, rng.randrange(P))), (1 << 64 * n) - 1); v = max(v, 0)
        yield ('modprime ' + W(v, n), F1(v % P), 'modprime %d' % n)
reg(Check('C05', 'Word primitives over all pairs of boundary words and products ending in all-ones words; wide integers of every width with structured limbs; divisions built backwards from quotient and remainder (including quotient-digit over-estimation and normalised divisors) for every width pair; every shift and bit position. Against Python integers, on the x86-64 and the portable build. Distinct = distinct request and class.',
          jobs=lambda tier: [Job('int', c05, ('rel', 'port'), batch=6000)]))

# ------------------------------------------------------------------ C28
def c28_judge(reply, elems):
    """a strict total order whose equality is identity of the stored coordinates, and containers that keep to it"""
    f = reply.split(' ')
    n = len(elems)
    if len(f) < 3 or len(f[0]) != n * n: return 'malformed'
    if len(f) > 3: return ' '.join(f[3:])
    m = f[0]
    for i in range(n):
        for j in range(n):
            x, y = m[i * n + j], m[j * n + i]
            if (x == '=') != (elems[i] == elems[j]): return 'elements %d and %d compare %s' % (i, j, x)
            if x + y not in ('==', '<>', '><'): return 'elements %d and %d compare %s and %s' % (i, j, x, y)
    rank = [m[i * n:(i + 1) * n].count('>') for i in range(n)]
    for i in range(n):
        for j in range(n):
            if (m[i * n + j] == '<') != (rank[i] < rank[j]): return 'the order is not transitive around elements %d and %d' % (i, j)
    first = {}
    for i, e in enumerate(elems): first.setdefault(e, i)
    if f[1] != ''.join('%d,' % first[e] for e in elems): return 'std::map lookups give %s' % f[1][:200]
    if f[2] != ''.join('%d,' % i for i in sorted(first.values(), key=lambda i: rank[i])): return 'std::map iterates as %s' % f[2][:200]
    return None
ORD = {'fp': 1, 'fp2': 2, 'g1': 3, 'g2': 6}
def c28(ctx):
    rng, lit = ctx.rng, ctx.lit
    def el(k):
        t = rng.random()
        if t < .3: return [fpv(rng, lit) for _ in range(k)]
        if t < .5: return [rng.choice((0, 1, P - 1, MONT % P, (1 << 64) - 1, 1 << 63, 1 << 319)) for _ in range(k)]
        if t < .8: return [wide(rng, 6, lit) for _ in range(k)]      # unreduced limbs can be stored, too
        v = fpv(rng, lit); return [v] * k
    for T, k in ORD.items():
        # one limb of one coordinate differs, by every kind of amount
        for i in ctx.mine(range(6 * k)):
            b = el(k); l = [list(b)]
            for d in (1, 1 << 63, 1 << 31, 1 << 32, (1 << 64) - 1):
                c = list(b); c[i // 6] ^= d << 64 * (i % 6); l.append(c)
            o = list(l[1]); j = rng.randrange(6 * k); o[j // 6] ^= 1 << 64 * (j % 6); l.append(o)
            rng.shuffle(l); e = [''.join(h96(x) for x in c) for c in l]
            yield 'order %s %d %s' % (T, len(e), ' '.join(e)), C(c28_judge, e), '%s one limb differs' % T
        for _ in range(ctx.n(60, 4000)):
            l = [el(k) for _ in range(rng.randrange(1, 6))]
            while len(l) < rng.choice((4, 9, 16, 24)):
                c = list(rng.choice(l)); t = rng.random()
                if t < .2: pass
                elif t < .5: i = rng.randrange(6 * k); c[i // 6] ^= rng.choice((1, 1 << 63, 1 << rng.randrange(64), M64)) << 64 * (i % 6)
                elif t < .7: i = rng.randrange(k); c[i] = (c[i] + rng.choice((-1, 1)) * (1 << rng.choice((0, 64, 128, 320, rng.randrange(384))))) % (1 << 384)
                elif t < .8 and k > 1: i, j = rng.sample(range(k), 2); c[i], c[j] = c[j], c[i]
                elif t < .9: c = list(reversed(c))
                else: c = el(k)
                l.append(c)
            rng.shuffle(l); e = [''.join(h96(x) for x in c) for c in l]
            yield 'order %s %d %s' % (T, len(e), ' '.join(e)), C(c28_judge, e), '%s list' % T
reg(Check('C28', 'Lists of base-field, quadratic-extension, G1 and G2 values, many of them equal or differing in a single limb of a single coordinate (unreduced limbs included): every ordered pair is compared with all seven operators, the lists are stored in std::map and std::set in two insertion orders, looked up, iterated, partly erased, and sorted. Observed: exactly one of <, =, > per pair, antisymmetry, transitivity, equality exactly for identical coordinates, no entry lost or misplaced. Distinct = distinct list.',
          jobs=lambda tier: [Job('order', c28, ('rel', 'port', 'clang'), batch=2000)]))
