"""C06-C12, C14: group law, multiples, weighted sums, membership, encodings, pairing, map to curve."""
import random
import ref
from ref import P, R, MONT, RINV, E1, E2, H1, H2
from gen import *
from harness import Job, Check, V, C

CHECKS = {}
def reg(c): CHECKS[c.id] = c
def b01(x): return '1' if x else '0'
OMEGA = ref.omega_candidates()[1]

def exact_or_inf(K, reply, want):
    """affine form: z is one, coordinates exact"""
    if want is None: return K.same(reply, None)
    return None if reply == K.aff(want) else 'want %s' % K.aff(want)

# ------------------------------------------------------------------ C06
def rep_same_x(K, p, q, rng):
    """representations of p and q whose raw X (or Y) coordinates coincide"""
    F = K.F
    if p is None or q is None or p[0] == F.zero or q[0] == F.zero: return None
    if rng.random() < .5: z = K.zto(p, rng, xt=q[0])     # p.x * z^2 = q.x
    else: z = K.zto(p, rng, yt=rng.choice((q[1], F.neg(q[1]))))
    if z is None: return None
    s = K.rz(rng)
    return K.J(K.E.jac(p, F.mul(z, s))), K.J(K.E.jac(q, s))
def c06_pair(K, p, q, kind, rng, lit, ops=None):
    E, n = K.E, K.name
    a, b = K.rep(p, rng, lit), K.rep(q, rng, lit)
    t = rng.random()
    if t < .08:
        r = rep_same_x(K, p, q, rng)
        if r: a, b = r; kind = kind + ' equal coordinate limbs'
    elif t < .2 and p is not None and q is not None:      # same Z on both
        z = K.rz(rng); a, b = K.J(E.jac(p, z)), K.J(E.jac(q, z))
    for o in ops or ('add', 'sub', 'eq'):
        if o == 'add': yield ('%s add %s %s' % (n, a, b), C(lambda r, p, q: K.same(r, E.add(p, q)), p, q), '%s add %s' % (n, kind))
        elif o == 'sub': yield ('%s sub %s %s' % (n, a, b), C(lambda r, p, q: K.same(r, E.sub(p, q)), p, q), '%s sub %s' % (n, kind))
        else: yield ('%s eq %s %s' % (n, a, b), b01(p == q) * 2, '%s eq %s' % (n, kind))
def c06_one(K, p, kind, rng, lit):
    E, n = K.E, K.name
    a = K.rep(p, rng, lit)
    yield ('%s dbl %s' % (n, a), C(lambda r, p: K.same(r, E.dbl(p)), p), '%s dbl %s' % (n, kind))
    yield ('%s neg %s' % (n, a), C(lambda r, p: K.same(r, E.neg(p)), p), '%s neg %s' % (n, kind))
    yield ('%s affine %s' % (n, a), C(lambda r, p: exact_or_inf(K, r, p), p), '%s affine %s' % (n, kind))
    z = K.uj(a)[2]
    yield ('%s pred %s' % (n, a), b01(p is None) + b01(z == K.F.one) + '1', '%s predicates %s' % (n, kind))
def c06_kit(ctx, K):
    rng, lit = ctx.rng, ctx.lit
    E = K.E
    m = 2 if K.n == 1 else 1
    pool = K.pool(rng, 60 if not ctx.thorough else 400)
    w = {3: OMEGA}
    for p, kind in pool:
        for _ in range(2 * m): yield from c06_one(K, p, kind, rng, lit)
        # the pairs with special treatment
        for q, k2 in ((p, 'equal'), (E.neg(p), 'opposite'), (None, 'infinity right'), (E.dbl(p), 'double'), (E.neg(E.dbl(p)), 'minus double')):
            for _ in range(2): yield from c06_pair(K, p, q, k2, rng, lit)
        yield from c06_pair(K, None, p, 'infinity left', rng, lit)
        if p is not None:     # same y, other x
            o = (p[0] * OMEGA % P, p[1]) if K.n == 1 else (ref.f2smul(p[0], OMEGA), p[1])
            yield from c06_pair(K, p, o, 'same y', rng, lit)
            yield from c06_pair(K, p, E.neg(o), 'opposite y', rng, lit)
            yield from c06_pair(K, o, E.neg(p), 'opposite y', rng, lit)
    for _ in range(20): yield from c06_pair(K, None, None, 'infinity both', rng, lit)
    for _ in range(ctx.n(3200 * m, 90000 * m)):
        (p, k1), (q, k2) = rng.choice(pool), rng.choice(pool)
        yield from c06_pair(K, p, q, 'general', rng, lit, (rng.choice(('add', 'sub', 'eq')),))
    for q in (3, 11) if K.n == 1 else (13, 23):        # complete addition tables of small subgroups
        t = K.tors[q][0]; l = [E.mul(t, i) for i in range(q)]
        for i, j in ctx.mine((i, j) for i in range(q) for j in range(q)):
            yield from c06_pair(K, l[i], l[j], 'order %d table' % q, rng, lit, ('add', 'eq'))
def c06(ctx):
    for K in KITS: yield from c06_kit(ctx, K)     # one scope per curve: expectations are evaluated late
reg(Check('C06', 'Points: generator multiples, curve points outside the subgroup, every small order dividing the cofactor, mixed orders, special x; every representation class (Z=1, random, structured and adversarial Z making raw coordinates coincide, many forms of infinity); equal, opposite, doubled, same-y pairs; full addition tables of small subgroups. Against affine textbook formulas over Python integers. Distinct = distinct request and class.',
          jobs=lambda tier: [Job('law', c06, batch=3000)]))

# ------------------------------------------------------------------ C07
class Known:
    """points with known decomposition a*G + sum of torsion points, so that multiples are cheap"""
    def __init__(self, K, rng):
        self.K = K; self.rng = rng
    def draw(self):
        """(affine point, multiple function, kind)"""
        K, rng, E = self.K, self.rng, self.K.E
        t = rng.random()
        a = 0; ts = []; kind = ''
        if t < .05: kind = 'infinity'
        elif t < .6: a = rng.choice((1, R - 1, 2, rng.randrange(R), rng.randrange(R))); kind = 'subgroup'
        else:
            if t > .75: a = rng.randrange(R)
            kind = 'torsion' if not a else 'mixed'
            for _ in range(rng.choice((1, 1, 2))):
                q = rng.choice([q for q in K.tors if q < 10**9])
                ts.append((q, E.mul(rng.choice(K.tors[q]), rng.randrange(1, min(q, 1000)))))
        def mul(k, a=a, ts=ts):
            p = E.gmul(a * k) if a else None
            for q, x in ts: p = E.add(p, E.mul(x, k % q))
            return p
        return mul(1), mul, kind
def scalN(rng, n, lit):
    t = rng.random()
    if t < .4: v = scal(rng, lit)
    elif t < .5: v = rng.choice((R, 2 * R, R * R, R * rng.getrandbits(64), H1, H2, E1.order, E2.order)) + rng.choice((-1, 0, 0, 1))
    elif t < .6: v = (1 << 64 * n) - 1 - rng.getrandbits(rng.randrange(1, 64))
    else: v = wide(rng, n, lit)
    return abs(v) % (1 << 64 * n)
def c07_kit(ctx, K):
    rng, lit = ctx.rng, ctx.lit
    E, n = K.E, K.name
    src = Known(K, rng)
    def one(k, w, kind=None):
        p, mul, kd = src.draw()
        return ('%s scale %s %s' % (n, K.rep(p, rng, lit), W(k, w)), C(lambda r, mul, k: K.same(r, mul(k)), mul, k), '%s scale %s %s' % (n, kd, kind or '%d words' % w))
    m = 1 if K.n == 1 else 2
    for e in ctx.mine(SC_EDGES):
        for w in range(max(1, (e.bit_length() + 63) // 64), 9):
            yield one(e, w, 'edge scalar')
        p, mul, kd = src.draw()
    for b in ctx.mine(range(512)):       # single bits, runs and their neighbours, every position
        w = b // 64 + 1
        yield one(1 << b, max(w, rng.randrange(w, 9)), 'single bit')
        yield one((1 << b) - 1 if b else 0, rng.randrange(w, 9), 'run of ones')
    for _ in range(ctx.n(2400 // m, 70000 // m)):
        w = rng.randrange(1, 9)
        yield one(scalN(rng, w, lit), w)
    for _ in range(ctx.n(64 // m, 2400 // m)):   # random curve points and structured scalars, multiplied bit by bit
        p = ref.random_point(E, rng); w = rng.randrange(1, 5); k = scalN(rng, w, lit)
        yield ('%s scale %s %s' % (n, K.rep(p, rng, lit), W(k, w)), C(lambda r, p, k: K.same(r, E.mul(p, k)), p, k), '%s scale curve point' % n)
    pool = K.pool(rng, 24 if not ctx.thorough else 200)
    for p, kind in pool:
        a = K.rep(p, rng, lit)
        if K.n == 1:
            yield ('g1 glv ' + a, C(lambda r, p: K.same(r, None if p is None else (p[0] * OMEGA % P, p[1])), p), 'g1 endomorphism ' + kind)
            yield ('g1 clear ' + a, C(lambda r, p: K.same(r, E.mul(p, ref.HEFF1)), p), 'g1 clear ' + kind)
        else:
            yield ('g2 psi ' + a, C(lambda r, p: K.same(r, ref.psi(p)), p), 'g2 psi ' + kind)
            for k in [0, 1, 2, 3, rng.choice((-1, -2)), rng.choice((4, 5, 6, 7, 11, 12, 13)), rng.choice((1 << 40, 1 << 62, (1 << 63) - 1, (1 << 63) - rng.randrange(1, 40), rng.getrandbits(63), -(1 << 63), -rng.getrandbits(62), 12 * rng.getrandbits(59), (1 << 32) + rng.randrange(24), (1 << 31) + rng.randrange(24)))] + ([rng.choice(lit.newsmall)] if lit.newsmall else []):
                yield ('g2 frob %s %d' % (a, k), C(lambda r, p, k: K.same(r, ref.psi(p, max(k, 0) % 24) if p is not None else None), p, k), 'g2 frobenius ' + kind)
            if rng.random() < .5 or 'tors' in kind: yield ('g2 clear ' + a, C(lambda r, p: K.same(r, ref.clear2(p)), p), 'g2 clear ' + kind)
def c07(ctx):
    for K in KITS: yield from c07_kit(ctx, K)     # one scope per curve: expectations are evaluated late
reg(Check('C07', 'Scalars of every width 1..8 words: edges around 0, r, multiples of r, curve orders and 2^k, each single bit and run of ones, structured words; points infinity, subgroup, small-order, mixed and random curve points in every representation class; endomorphism, Frobenius powers and cofactor clearing on the same points. Expected multiple from known discrete logarithms and, for a part, double-and-add over Python integers. Distinct = distinct request and class.',
          jobs=lambda tier: [Job('mul', c07, batch=1500)]))

# ------------------------------------------------------------------ C08
def wsum_case(K, n, ns, rng, lit, mode, style=None):
    """np points with known logarithms, ns scalars"""
    E = K.E
    style = style or rng.choice(('mixed', 'mixed', 'same', 'opposite', 'few', 'torsion', 'jac', 'digits', 'identical'))
    pts = []; log = []
    a = rng.randrange(R); d = rng.randrange(R); p = E.gmul(a); D = E.gmul(d)
    tors = [(q, l[0]) for q, l in K.tors.items() if q < 10**6]
    for i in range(n):
        t = rng.random()
        if style == 'same' or (style == 'few' and i >= 3) or (style == 'mixed' and pts and t < .08):
            j = rng.randrange(len(pts)) if pts else -1
            if j >= 0: pts.append(pts[j]); log.append(log[j]); continue
        if style == 'identical' and pts: pts.append(pts[0]); log.append(log[0]); continue
        if (style == 'opposite' and pts and t < .5) or (style == 'mixed' and pts and t < .14):
            j = rng.randrange(len(pts)); pts.append(E.neg(pts[j])); log.append((-log[j][0] % R, [(q, E.neg(x)) for q, x in log[j][1]])); continue
        if t < .17 and t >= .14 and style != 'jac': pts.append(None); log.append((0, [])); continue
        x = p; ts = []
        if style == 'torsion' or t > .95:
            ts = [rng.choice(tors)]; x = E.add(p, ts[0][1])
            if rng.random() < .3: pts.append(ts[0][1]); log.append((0, ts)); p = E.add(p, D); a = (a + d) % R; continue
        pts.append(x); log.append((a, ts))
        p = E.add(p, D); a = (a + d) % R
    sc = []
    for i in range(ns):
        t = rng.random()
        if style == 'digits': s = rng.choice((0, 1, 2, (1 << 256) - 1, 1 << 255, rng.getrandbits(8), rng.getrandbits(8) << rng.randrange(248), (1 << rng.randrange(257)) - 1))
        elif style == 'identical': s = sc[0] if sc else scal(rng, lit)
        elif style == 'opposite' and sc and t < .6: s = rng.choice(sc)
        else: s = scal(rng, lit)
        sc.append(s)
    m = min(n, ns)
    k = 0; tsum = {}
    for (a, ts), s in zip(log[:m], sc[:m]):
        k = (k + a * s) % R
        for q, x in ts: tsum[(q, x)] = (tsum.get((q, x), 0) + s) % q
    affine = rng.random() < .4 and style != 'jac'
    # few representations only: building text is the cost
    txt = [K.aff(x) if affine or (n > 60 and rng.random() < .8) else K.rep(x, rng) for x in pts]
    req = '%s wsum %d %d %d %s' % (K.name, mode, n, ns, ' '.join(txt + [W(s, 4) for s in sc]))
    def want():
        r = E.gmul(k)
        for (q, x), c in tsum.items(): r = E.add(r, E.mul(x, c))
        return r
    return (req, C(lambda rep, w: K.same(rep.split(' ')[0], w()), want), '%s n%s %s' % (K.name, sizeclass(m) + ('' if n == ns else ' unequal'), style))
def sizeclass(m):
    for b in (0, 1, 2, 8, 31, 32, 63, 127, 255, 256, 511, 1023, 2047, 1 << 20):
        if m <= b: return '<=%d' % b
SIZES = list(range(0, 36)) + [47, 62, 63, 64, 65, 100, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300, 384, 385]
BIG = [511, 512, 513, 600, 767, 768, 1023, 1024, 1025]
HUGE = [1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193]
def c08_kit(ctx, K):
    rng, lit = ctx.rng, ctx.lit
    small = [s for s in lit.sizes(700)]
    for n in ctx.mine(SIZES + small): yield wsum_case(K, n, n, rng, lit, rng.choice((0, 1, 2)))
    for n in ctx.mine(SIZES): yield wsum_case(K, n, n, rng, lit, 1 if rng.random() < .6 else 0)
    for n in ctx.mine(BIG * (1 if K.n == 1 else 1) + [x for x in lit.sizes(3000) if x > 700]): yield wsum_case(K, n, n, rng, lit, rng.choice((0, 1)))
    for _ in range(ctx.n(480 if K.n == 1 else 240, 16000)):
        n = rng.choice((rng.randrange(0, 12), rng.randrange(0, 40), rng.randrange(20, 70), rng.randrange(0, 140)))
        ns = n if rng.random() < .7 else max(0, n + rng.choice((-3, -1, 1, 2, 5, -n)))
        yield wsum_case(K, n, ns, rng, lit, rng.choice((0, 1, 2)))
    for st in ctx.mine(('same', 'identical', 'opposite', 'digits', 'torsion', 'jac', 'few', 'mixed') * 2):
        for n in (1, 2, 3, 33, 70): yield wsum_case(K, n, n, rng, lit, rng.choice((0, 1)), st)
    for _ in range(ctx.n(80, 3000)):          # a callback that gives up
        n = rng.choice((rng.randrange(1, 12), rng.randrange(20, 70), rng.randrange(1, 140)))
        q, c, cls = wsum_case(K, n, n, rng, lit, 1); f = q.split(' ')
        f[1] = 'wsumstop'; f[2] = str(rng.choice((0, 1, 2, rng.randrange(60), rng.randrange(600))))
        yield (' '.join(f), C(lambda r, c: None if r.startswith('stopped ') else c(r), c), cls + ' callback gives up')
    if ctx.thorough:
        for n in ctx.mine(HUGE): yield wsum_case(K, n, n, rng, lit, rng.choice((0, 1)))
def c08(ctx):
    for K in KITS: yield from c08_kit(ctx, K)     # one scope per curve: expectations are evaluated late
reg(Check('C08', 'Lists of every length 0..35, around powers of two and the window-size and callback strides up to 1025 (thorough 8193), equal and unequal list lengths; points repeated, opposite, infinite, of small and mixed order, any representation; scalars zero, maximal, unreduced, equal, sparse; with, without and with an empty callback. Expected sum from known discrete logarithms and torsion components. Distinct = distinct request and class.',
          jobs=lambda tier: [Job('wsum', c08, batch=60)]))

# ------------------------------------------------------------------ C09
def torsion_pool(K, rng, full):
    """(point of small or mixed order, class)"""
    E = K.E
    qs = [q for q in K.tors]
    for q in qs:
        l = K.tors[q]
        small = q <= 23
        if small:
            t = l[0]; u = next((x for x in l[1:] if all(E.mul(t, i) != x for i in range(q))), None)
            for i in range(q):
                for j in range(q if u is not None else 1):
                    if i or j: yield E.add(E.mul(t, i), E.mul(u, j) if u is not None else None), 'order %d (all)' % q
        else:
            for x in l:
                yield x, 'order %s' % (q if q < 10**9 else 'big'); yield E.neg(x), 'order %s' % (q if q < 10**9 else 'big')
            for _ in range(8 if q < 10**9 else 1):
                x = None
                for y in l: x = E.add(x, E.mul(y, rng.randrange(q)))
                if x is not None: yield x, 'order %s' % (q if q < 10**9 else 'big')
    for _ in range(40 if not full else 400):      # composite orders
        x = None
        for q in rng.sample(qs, rng.randrange(2, 4)): x = E.add(x, E.mul(rng.choice(K.tors[q]), rng.randrange(1, min(q, 2000))))
        if x is not None: yield x, 'composite order'
def twist_points(K, rng, n):
    """points of y^2 = x^3 + b' for other b' (same x as a curve point or arbitrary), given as if on the curve"""
    F, E = K.F, K.E
    for _ in range(n):
        x = K.rf(rng)
        t = rng.random()
        if t < .5:
            y = K.rf(rng)                              # almost surely another curve
        else:
            c = rng.randrange(1, 8)
            v = F.add(F.mul(F.sqr(x), x), F.smul(E.b, rng.choice((2, 3, P - 1, 0)))) if t < .8 else F.smul(E.rhs(x), rng.choice((P - 1, 2, 3, c)))
            y = F.sqrt(v)
            if y is None: y = F.sqrt(F.neg(v)) or F.one
        yield (x, y)
def c09_kit(ctx, K):
    rng, lit = ctx.rng, ctx.lit
    E, F, n = K.E, K.F, K.name
    def oncurve(tri, cls):
        x, y, z = tri
        if z == F.zero: ok = True
        else:
            z2 = F.sqr(z); z6 = F.mul(F.sqr(z2), z2)
            ok = F.sqr(y) == F.add(F.mul(F.sqr(x), x), F.mul(E.b, z6))
        return ('%s pred %s' % (n, K.J(tri)), C(lambda r, ok, zz, zo: None if r == b01(zz) + b01(zo) + b01(ok) else 'on curve: %s' % ok, ok, z == F.zero, z == F.one), '%s on-curve %s %s' % (n, cls, 'yes' if ok else 'no'))
    def sub(p, ok, kind): return ('%s insub %s' % (n, K.rep(p, rng, lit)), b01(ok), '%s subgroup %s %s' % (n, kind, 'yes' if ok else 'no'))
    pts = []
    for p, kind in ctx.mine(list(torsion_pool(K, random.Random(ctx.seed * 7 + K.n), ctx.thorough))):
        yield sub(p, False, kind); pts.append(p)
        s = E.gmul(rng.randrange(R))
        yield sub(E.add(p, s), False, 'mixed ' + kind)
    g = E.gen
    for k in ctx.mine([1, 2, 3, 5, R - 1, R - 2, -ref.X, ref.X**2, ref.X**2 - 1, ref.X % R, (R + 1) // 2] + [3**i % R for i in range(60)]):
        yield sub(E.gmul(k), True, 'multiples of the generator')
    for _ in range(20): yield sub(None, True, 'infinity')
    for _ in range(ctx.n(600, 20000)):
        p = E.gmul(rng.randrange(R)); yield sub(p, True, 'subgroup')
        pts.append(p)
    p = ref.random_point(E, rng); d = ref.random_point(E, rng)
    for _ in range(ctx.n(600, 20000)):
        yield sub(p, False, 'curve point'); pts.append(p); p = E.add(p, d)
    for p in ctx.mine(K.small_x()):
        yield sub(p, E.insub(p), 'special x'); pts.append(p)
    # coordinates
    for _ in range(ctx.n(6000, 120000)):
        t = rng.random()
        if t < .3:
            tri = K.uj(K.rep(rng.choice(pts), rng, lit)); cls = 'valid'
        elif t < .75:
            p = rng.choice(pts); tri = list(E.jac(p, K.rz(rng, lit)))
            i = rng.randrange(3)
            u = rng.random()
            if u < .3: tri[i] = F.add(tri[i], F.one)
            elif u < .5: tri[i] = F.neg(tri[i])
            elif u < .6: tri[i] = K.rf(rng, lit)
            elif u < .8:
                c = tri[i] if K.n == 2 else (tri[i],)
                c = list(c); j = rng.randrange(len(c)); c[j] = (c[j] + (1 << rng.randrange(380))) % P
                tri[i] = tuple(c) if K.n == 2 else c[0]
            else:
                w = rng.choice((OMEGA, OMEGA * OMEGA % P, P - 1))     # some of these stay on the curve
                tri[i] = F.smul(tri[i], w)
            tri = tuple(tri); cls = 'perturbed'
        elif t < .9:
            x, y = next(twist_points(K, rng, 1)); z = K.rz(rng, lit); tri = (F.mul(x, F.sqr(z)), F.mul(y, F.mul(F.sqr(z), z)), z); cls = 'other curve'
        else:
            tri = (K.rf(rng, lit), K.rf(rng, lit), rng.choice((F.zero, F.one, K.rf(rng, lit)))); cls = 'arbitrary'
        yield oncurve(tri, cls)
def c09(ctx):
    for K in KITS: yield from c09_kit(ctx, K)     # one scope per curve: expectations are evaluated late
reg(Check('C09', 'Subgroup test: all points of the smallest subgroups (both generators where the torsion is not cyclic), points of every prime order dividing the cofactor including the largest, composite and mixed orders, random curve points, subgroup points, infinity, special x, in every representation class; on-curve test: valid triples, single-coordinate perturbations of every kind, points of other curves and twists, arbitrary and infinite triples. Expected answers from construction (known orders) or the defining equation over Python integers. Distinct = distinct request and class.',
          jobs=lambda tier: [Job('member', c09, batch=2000)]))

# ------------------------------------------------------------------ C10
def cbrt2(a):
    """cube root in Fp2 or None"""
    n = P * P - 1; s = 0
    while n % 3 == 0: n //= 3; s += 1
    if ref.f2pow(a, (P * P - 1) // 3) != ref.F2O: return None
    global _g3
    if '_g3' not in globals():
        x = (2, 1)
        while ref.f2pow(x, (P * P - 1) // 3) == ref.F2O: x = (x[0] + 1, 1)
        _g3 = ref.f2pow(x, n)
    r = ref.f2pow(a, pow(3, -1, n)) if True else None
    # a = a_t * a_3; r^3 = a * (3-part), fix up inside the Sylow 3-subgroup
    e = ref.F2O
    for _ in range(3 ** s):
        c = ref.f2mul(r, e)
        if ref.f2mul(ref.f2sqr(c), c) == a: return c
        e = ref.f2mul(e, _g3)
    return None
def real_y_points(rng, n):
    """G2 points whose y lies in Fp or is purely imaginary: ties of the sign rule"""
    out = []
    while len(out) < n:
        k = rng.choice((rng.randrange(P), rng.randrange(1, 200), P - rng.randrange(1, 200), (P - 1) // 2 + rng.randrange(-50, 50)))
        y = (k, 0) if rng.random() < .5 else (0, k)
        x = cbrt2(ref.f2sub(ref.f2sqr(y), (4, 4)))
        if x is not None:
            assert E2.on((x, y)); out.append((x, y)); out.append((x, ref.f2neg(y)))
    return out
def want_decomp(K, reply, b):
    w = ref.decomp(K.E, b)
    if w is False: return None if reply == 'none' else 'not an encoding, must be rejected'
    if reply == 'none': return 'valid encoding rejected'
    return K.same(reply, w)
def c10_kit(ctx, K):
    rng, lit = ctx.rng, ctx.lit
    E, n, w = K.E, K.name, K.w
    def dec(b, cls): return ('%s decomp %s' % (n, HB(bytes(b))), C(lambda r, b: want_decomp(K, r, b), bytes(b)), '%s decompress %s' % (n, cls))
    def enc(p, cls): return ('%s comp %s' % (n, K.rep(p, rng, lit)), V(lambda p: HB(K.comp(p)), p), '%s compress %s' % (n, cls))
    pts = [(p, k) for p, k in K.pool(rng, 60)]
    pts += [(p, 'special x') for p in K.small_x()]
    if K.n == 2: pts += [(p, 'y real or imaginary') for p in real_y_points(rng, 12 if not ctx.thorough else 200)]
    base = list(pts)
    for p, kind in base:
        kind = kind.split('tors')[0] if kind.startswith('tors') else kind
        yield enc(p, kind); yield enc(E.neg(p), kind)
        b = bytearray(K.comp(p))
        yield dec(b, 'encoding of ' + kind)
        b[0] ^= 0x20; yield dec(b, 'sign flipped')
        for f in range(8):
            c = bytearray(b); c[0] = c[0] & 0x1f | f << 5; yield dec(c, 'all flag combinations')
    for i in ctx.mine(range(w * 8)):                       # stray bits with the infinity flag
        for first in (0xc0, 0xe0, 0x40, 0x80):
            c = bytearray(w); c[0] = first; c[i // 8] ^= 1 << (i % 8); yield dec(c, 'infinity with one stray bit')
    for first in range(256):
        c = bytearray(w); c[0] = first; yield dec(c, 'first byte only')
        c = bytearray(w); c[0] = first; c[-1] = 1; yield dec(c, 'first and last byte')
        c = bytearray(b'\xff' * w); c[0] = first; yield dec(c, 'all ones after first byte')
    for _ in range(ctx.n(400, 8000)):                      # x and x+p both fit
        top = (1 << 381) - P
        x = rng.choice((rng.randrange(64), rng.randrange(top), top - 1 - rng.randrange(64)))
        f = rng.choice((0x80, 0xa0))
        if K.n == 1:
            for v in (x, x + P):
                c = bytearray(v.to_bytes(48, 'big')); c[0] |= f; yield dec(c, 'x and x+p')
        else:
            y = rng.randrange(top)
            for a, d in ((x, y), (x + P, y), (x, y + P), (x + P, y + P)):
                c = bytearray(a.to_bytes(48, 'big') + d.to_bytes(48, 'big')); c[0] |= f; yield dec(c, 'x and x+p')
            c = bytearray(rng.randrange(P).to_bytes(48, 'big') + (P + rng.randrange(top)).to_bytes(48, 'big')); c[0] |= f; yield dec(c, 'x and x+p')
    for _ in range(ctx.n(800, 30000)):
        x = [fpv(rng, lit) for _ in range(K.n)]
        if rng.random() < .15: x[rng.randrange(K.n)] = P + rng.randrange(-2, 3)
        if rng.random() < .1: x[rng.randrange(K.n)] = rng.getrandbits(384)
        if K.n == 2 and rng.random() < .2: x[1] |= 1 << rng.randrange(381, 384)
        c = bytearray(b''.join(v.to_bytes(48, 'big') for v in x)); c[0] = c[0] & 0x1f | rng.choice((4, 5, 4, 5, 4, 5, 0, 1, 6, 7)) << 5
        yield dec(c, 'structured x')
    for _ in range(ctx.n(1600, 60000)):
        b = bytearray(K.comp(rng.choice(base)[0]))
        for _ in range(rng.choice((1, 1, 1, 2, 3))):
            i = rng.randrange(w * 8); b[i // 8] ^= 1 << (i % 8)
        yield dec(b, 'bits of an encoding flipped')
    for _ in range(ctx.n(400, 20000)): yield dec(rng.randbytes(w), 'random bytes')
def c10(ctx):
    for K in KITS: yield from c10_kit(ctx, K)     # one scope per curve: expectations are evaluated late
reg(Check('C10', 'Encoding: points of all kinds and representations incl. infinity, special x, y real/imaginary (G2 sign ties). Decoding: those encodings, all flag combinations, every single stray bit with the infinity flag, every first byte, x and x+p, out-of-range and structured x, bit flips, random bytes; against a model of the ZCash format over Python integers. Distinct = distinct request and class.',
          jobs=lambda tier: [Job('compress', c10, batch=2000)]))

# ------------------------------------------------------------------ C11
def fbytes(vals, be):
    """coefficients in ascending order to bytes"""
    if be: return b''.join(v.to_bytes(48, 'big') for v in reversed(vals))
    return b''.join(v.to_bytes(48, 'little') for v in vals)
def c11_field(n, vals, be, mont, cls):
    """vals: raw limbs in storage order"""
    o = 'be' if be else 'le'
    out = [v * RINV % P if mont else v for v in vals]
    b = fbytes(out, be)
    txt = ''.join('%096x' % v for v in vals)
    yield ('enc %d %s %d %s' % (n, o, mont, txt), HB(b), 'field %d encode %s' % (n, cls))
    for check in (1, 0): yield ('dec %d %s %d %d %s' % (n, o, check, mont, HB(b)), txt, 'field %d decode %s' % (n, cls))
def c11_range(n, rng, lit, big=True):
    """one or more coefficients out of range; stored order values as read from the bytes"""
    vals = [fpv(rng, lit) for _ in range(n)]
    k = rng.choice((1, 1, 1, 2, n))
    for i in rng.sample(range(n), min(k, n)):
        vals[i] = rng.choice((P, P + 1, P - 1, (1 << 384) - 1, 2 * P, P + (1 << rng.randrange(384)) if P + (1 << 383) < 1 << 384 else P, P | rng.getrandbits(380), (PL[5] << 320) | rng.getrandbits(320), rng.getrandbits(384), P & ~((1 << 64 * rng.randrange(1, 6)) - 1), P >> 64 << 64 | rng.getrandbits(64))) % (1 << 384)
    be = rng.random() < .5; mont = rng.randrange(2)
    ok = all(v < P for v in vals)
    want = ''.join('%096x' % (v * MONT % P if mont else v) for v in vals) if ok else 'none'
    return ('dec %d %s 1 %d %s' % (n, 'be' if be else 'le', mont, HB(fbytes(vals, be))), want, 'field %d range %s' % (n, 'ok' if ok else 'rejected'))
def ptcoords(K, tri):
    """storage-order plain values of a list of coordinates"""
    return [v for c in tri for v in ((c,) if K.n == 1 else c)]
def pbytes(K, coords, be):
    """coords: list of per-coordinate coefficient lists"""
    return b''.join(fbytes(c, be) for c in coords)
def lst(K, c): return [c] if K.n == 1 else list(c)
def c11_point(K, p, rng, lit, cls):
    E, F, n = K.E, K.F, K.name
    s = K.rep(p, rng, lit); tri = K.uj(s)
    for be in (0, 1):
        o = 'be' if be else 'le'
        mont = rng.randrange(2)
        conv = (lambda c: lst(K, c)) if mont else (lambda c: [v * MONT % P for v in lst(K, c)])
        ja = pbytes(K, [conv(c) for c in tri], be)
        af = bytes(2 * K.w) if p is None else pbytes(K, [conv(c) for c in p], be)
        yield ('%s enc jac %s %d %s' % (n, o, mont, s), HB(ja), '%s encode jac %s' % (n, cls))
        yield ('%s enc aff %s %d %s' % (n, o, mont, s), HB(af), '%s encode aff %s' % (n, cls))
        for check in (0, 1):
            yield ('%s dec jac %s %d %d %s' % (n, o, check, mont, HB(ja)), s, '%s decode jac %s' % (n, cls))
            yield ('%s dec aff %s %d %d %s' % (n, o, check, mont, HB(af)), C(lambda r, p: 'rejected' if r == 'none' else exact_or_inf(K, r, p), p), '%s decode aff %s' % (n, cls))
def c11_pointbad(K, rng, lit, pts):
    """mutated encodings: expectation from the definition"""
    E, F, n = K.E, K.F, K.name
    p = rng.choice(pts)
    aff = rng.random() < .5
    if p is None: tri = K.uj(K.rep(None, rng))
    else: tri = E.jac(p, F.one if aff else K.rz(rng, lit))
    co = [lst(K, c) for c in tri][:2 if aff else 3]
    mont = rng.randrange(2)
    if not mont: co = [[v * MONT % P for v in c] for c in co]
    t = rng.random(); i = rng.randrange(len(co)); j = rng.randrange(K.n)
    if t < .3: co[i][j] = rng.choice((P, P + 1, (1 << 384) - 1, co[i][j] + P, rng.getrandbits(384)))
    elif t < .6: co[i][j] = (co[i][j] + rng.choice((1, P - 1, 1 << rng.randrange(380)))) % P
    elif t < .75: co[i] = [(-v) % P for v in co[i]]
    elif t < .85: co[i] = [0] * K.n
    elif t < .95: co[i], co[(i + 1) % len(co)] = co[(i + 1) % len(co)], co[i]
    else: co = [[fpv(rng, lit) for _ in c] for c in co]
    be = rng.randrange(2); check = rng.random() < .7
    b = pbytes(K, co, be)
    if any(v >= P for c in co for v in c): want = 'none'; cls = 'out of range'
    else:
        raw = [[v * MONT % P if mont else v for v in c] for c in co]
        val = [(c[0] * RINV % P) if K.n == 1 else tuple(v * RINV % P for v in c) for c in raw]
        if aff:
            inf = all(v == 0 for c in co for v in c)
            ok = inf or F.sqr(val[1]) == E.rhs(val[0])
            txt = ''.join('%096x' % v for c in raw for v in c) + (F1(1) if K.n == 1 else F2((1, 0)))
        else:
            x, y, z = val; z2 = F.sqr(z); inf = False
            ok = z == F.zero or F.sqr(y) == F.add(F.mul(F.sqr(x), x), F.mul(E.b, F.mul(F.sqr(z2), z2)))
            txt = ''.join('%096x' % v for c in raw for v in c)
        cls = 'on curve' if ok else 'off curve'
        if check and not ok: want = 'none'
        elif inf: want = C(lambda r: 'rejected' if r == 'none' else K.same(r, None))
        else: want = txt
    return ('%s dec %s %s %d %d %s' % (n, 'aff' if aff else 'jac', 'be' if be else 'le', check, mont, HB(b)), want, '%s decode mutated %s %s' % (n, cls, 'checked' if check else 'unchecked'))
def c11(ctx):
    rng, lit = ctx.rng, ctx.lit
    for n in (1, 2, 6, 12):
        for _ in range(ctx.n(1200 if n < 6 else 500, 30000)):
            yield from c11_field(n, [fpv(rng, lit) for _ in range(n)], rng.randrange(2), rng.randrange(2), 'structured')
            yield c11_range(n, rng, lit)
        for i in ctx.mine(range(n)):          # one coefficient at every boundary, in every position
            for v in (P - 1, P, P + 1, P - 2, (1 << 384) - 1, 1 << 383, 1 << 381, P + (1 << 64), P - (1 << 64), P + (1 << 320), P - (1 << 320)):
                for be in (0, 1):
                    for mont in (0, 1):
                        vals = [rng.choice((0, P - 1, fpv(rng, lit))) for _ in range(n)]; vals[i] = v
                        want = ''.join('%096x' % (x * MONT % P if mont else x) for x in vals) if v < P else 'none'
                        yield ('dec %d %s 1 %d %s' % (n, 'be' if be else 'le', mont, HB(fbytes(vals, be))), want, 'field %d coefficient boundary' % n)
        for i in ctx.mine(range(48 * n)):     # each byte position distinguishable
            vals = [0] * n; vals[i // 48] = (rng.randrange(1, 26)) << (8 * (i % 48)); vals[i // 48] %= P
            yield from c11_field(n, vals, rng.randrange(2), rng.randrange(2), 'one byte set')
    for K in KITS:
        pool = K.pool(rng, 60 if not ctx.thorough else 300) + [(p, 'special x') for p in K.small_x()[:40]]
        for p, kind in pool:
            yield from c11_point(K, p, rng, lit, 'tors' if kind.startswith('tors') else 'mixed' if kind.startswith('mixed') else kind)
        pts = [p for p, _ in pool]
        for _ in range(ctx.n(4000, 100000)): yield c11_pointbad(K, rng, lit, pts)
reg(Check('C11', 'All field sizes, both byte orders, both Montgomery options, validation on and off: structured elements, each byte position, each coefficient at and around p and 2^384 in every position; points of every kind in Jacobian and affine form, and mutated encodings (range, curve equation, swapped, negated, zeroed coordinates). Expected bytes and verdicts from the definitions over Python integers. Distinct = distinct request and class.',
          jobs=lambda tier: [Job('codec', c11, batch=4000)]))

# ------------------------------------------------------------------ C12
class GT:
    """powers of E = e(G1, G2)^3 (the library's pairing is the cube of the reduced ate pairing)"""
    def __init__(self):
        self.e = ref.f12pow(ref.ate(E1.gen, E2.gen), 3)
        self.t = []; b = self.e
        for _ in range(64):
            row = [ref.F12O, b]
            for j in range(2, 16): row.append(ref.f12mul(row[-1], b))
            self.t.append(row); b = ref.f12mul(row[-1], b)
    def pow(self, k):
        k %= R; r = ref.F12O
        for i in range(64):
            d = k >> (4 * i) & 15
            if d: r = ref.f12mul(r, self.t[i][d])
        return r
_gt = None
def gt():
    global _gt
    if _gt is None: _gt = GT()
    return _gt
class Walk:
    """subgroup points with known logarithms, cheap to enumerate"""
    def __init__(self, E, rng):
        self.E, self.rng = E, rng
        self.a = rng.randrange(R); self.p = E.gmul(self.a)
        self.steps = []
        for k in (1, rng.randrange(R), rng.randrange(R)): self.steps.append((k, E.gmul(k)))
    def __call__(self):
        t = self.rng.random()
        if t < .06: k = self.rng.choice((1, R - 1, 2, 3, R - 2)); return k, self.E.gmul(k)
        k, s = self.rng.choice(self.steps)
        self.a = (self.a + k) % R; self.p = self.E.add(self.p, s)
        if t < .12: return -self.a % R, self.E.neg(self.p)
        return self.a, self.p
def c12_reply(reply, k, n):
    f = reply.split(' ')
    want = gt().pow(k)
    try: got = u12(f[0])
    except Bad as e: return str(e)
    if got != want: return 'want E^%d = %s' % (k, F12(want))
    if f[1] != '1': return 'the value is refused by the target group test'
def pairing_case(n, w1, w2, rng, lit, mode, style):
    k = 0; txt = []
    prev = None
    for i in range(n):
        a, p = w1(); b, q = w2()
        t = rng.random()
        if style in ('full', 'affine') and p is not None and q is not None: pass      # nothing is filtered out: the list has exactly this size
        elif style == 'inf' and t < .4 or t < .06:
            if rng.random() < .5: a, p = 0, None
            else: b, q = 0, None
        elif style == 'cancel' and prev and t < .6:
            a, p, b, q = prev
            if rng.random() < .5: a, p = -a % R, E1.neg(p)
            else: b, q = -b % R, E2.neg(q)
        elif style == 'repeat' and prev and t < .7: a, p, b, q = prev
        elif style == 'shareP' and prev: a, p = prev[0], prev[1]
        elif style == 'shareQ' and prev: b, q = prev[2], prev[3]
        if p is not None and q is not None: prev = (a, p, b, q)
        k = (k + a * b) % R
        if style == 'affine': txt += [K1.aff(p), K2.aff(q)]
        else: txt += [K1.rep(p, rng, lit), K2.rep(q, rng, lit)]
    return ('pairing %d %d%s' % (mode, n, ''.join(' ' + x for x in txt)), C(c12_reply, k, n), 'product n=%s %s%s' % (n if n < 6 else sizeclass(n), style, ' callback' if mode else ''))
def small_cyclotomic(rng):
    """elements of small prime order in the cyclotomic subgroup: factors of (p^4-p^2+1)/r"""
    n = (P**4 - P**2 + 1) // R
    out = []
    for q in range(2, 100000):
        while n % q == 0:
            if q not in out: out.append(q)
            n //= q
    return out
def c12(ctx):
    rng, lit = ctx.rng, ctx.lit
    w1, w2 = Walk(E1, rng), Walk(E2, rng)
    styles = ('mixed', 'inf', 'cancel', 'repeat', 'shareP', 'shareQ', 'affine')
    if ctx.shard == 0:
        yield ('millerempty x', F12(ref.F12O), 'empty')
    for n in ctx.mine(list(range(0, 26)) + [31, 32, 33, 40, 63, 64, 65, 96, 100, 127, 128, 129, 192, 193, 255, 256, 257] + lit.sizes(600)):
        if n < 130: yield pairing_case(n, w1, w2, rng, lit, rng.randrange(2), rng.choice(styles))
        yield pairing_case(n, w1, w2, rng, lit, rng.randrange(2), 'full')
    for _ in range(ctx.n(24, 400)):          # a callback that gives up
        n = rng.choice((rng.randrange(1, 8), rng.randrange(18, 26), rng.randrange(18, 40)))
        q, c, cls = pairing_case(n, w1, w2, rng, lit, 1, 'full'); f = q.split(' ')
        f[0] = 'pairstop'; f[1] = str(rng.choice((0, 0, 0, 1, 2, 5)))
        def give(r, k, _):
            if r.startswith('stopped '): return None
            return None if r.split(' ')[0] == F12(gt().pow(k)) else 'wrong product'
        yield (' '.join(f), C(give, c.a[0], None), cls + ' gives up')
    for _ in range(ctx.n(420, 14000)):
        yield pairing_case(rng.choice((1, 1, 2, 2, 3, 4, 5, 8)), w1, w2, rng, lit, rng.randrange(2), rng.choice(styles))
    if ctx.thorough:
        for n in ctx.mine((300, 500, 511, 512, 513, 1000, 1025)): yield pairing_case(n, w1, w2, rng, lit, rng.randrange(2), 'mixed')
    for _ in range(ctx.n(8, 400)):            # order of the list, representation, bilinearity: same product again
        pairs = [(w1(), w2()) for _ in range(rng.randrange(2, 7))]
        k = sum(a * b for (a, _), (b, _) in pairs) % R
        for _ in range(3):
            rng.shuffle(pairs)
            yield ('pairing 0 %d %s' % (len(pairs), ' '.join(K1.rep(p, rng) + ' ' + K2.rep(q, rng) for (_, p), (_, q) in pairs)), C(c12_reply, k, len(pairs)), 'permuted')
        (a, p), (b, q) = pairs[0]
        s, t = rng.randrange(R), rng.randrange(R)
        yield ('pairing 0 1 %s %s' % (K1.rep(E1.mul(p, s), rng), K2.rep(E2.mul(q, t), rng)), C(c12_reply, a * b * s * t % R, 1), 'bilinear')
    for _ in range(ctx.n(60, 2000)):
        (a, p), (b, q) = w1(), w2()
        def stages(r, k):
            w = F12(gt().pow(k)); return None if r == w else 'want %s' % w
        yield ('millerfe %s %s' % (K1.rep(p, rng), K2.rep(q, rng)), C(stages, a * b % R), 'miller loop then final exponentiation')
    for _ in range(ctx.n(8, 400)):            # independent full evaluation of the pairing
        p, q = E1.gmul(rng.randrange(R)), E2.gmul(rng.randrange(R))
        yield ('pairing 0 1 %s %s' % (K1.rep(p, rng), K2.rep(q, rng)),
               C(lambda r, p, q: None if u12(r.split(' ')[0]) == ref.f12pow(ref.ate(p, q), 3) else 'differs from the cubed ate pairing', p, q), 'full model')
    for _ in range(ctx.n(8, 300)):
        f = f12m(rng, lit)
        if all(c == (0, 0) for c in f): continue
        yield ('finalexp ' + F12(f), V(lambda f: F12(ref.f12pow(ref.final_exp(f), 3)), f), 'final exponentiation')
    # target group membership
    def gtv(f, ok, cls): return ('gtvalid ' + F12(f), b01(ok), 'target group %s %s' % (cls, 'yes' if ok else 'no'))
    if ctx.shard == 0:
        yield gtv(ref.F12O, True, 'one'); yield gtv(ref.F12Z, False, 'zero')
        yield gtv(ref.f12neg(ref.F12O), False, 'minus one')
        for x in (2, OMEGA, P - 2): yield gtv(((x, 0),) + ((0, 0),) * 5, False, 'base field')
    cyc = []
    for i in range(ctx.n(24, 200)):
        f = tuple((rng.randrange(P), rng.randrange(P)) for _ in range(6))
        c = ref.easy(f); cyc.append(c)
        yield gtv(c, False, 'cyclotomic'); yield gtv(f, False, 'random')
        yield gtv(ref.f12mul(c, ref.f12inv(ref.f12conj(c))), False, 'cyclotomic square')
        e = gt().pow(rng.randrange(R))
        yield gtv(e, True, 'powers of the pairing'); yield gtv(ref.f12mul(e, c), False, 'member times cyclotomic')
        yield gtv(ref.f12conj(e), True, 'inverses')
        yield gtv(ref.f12neg(e), False, 'negated member')
        yield gtv(ref.f12mul(e, ((rng.randrange(2, P), 0),) + ((0, 0),) * 5), False, 'member times base field')
        yield gtv(ref.f12mul(e, ((rng.randrange(P), rng.randrange(1, P)),) + ((0, 0),) * 5), False, 'member times Fp2')
        yield gtv(ref.f12mul(e, ((OMEGA, 0),) + ((0, 0),) * 5), False, 'member times cube root of unity')
        w = rng.randrange(6)
        yield gtv(tuple(ref.f2add(c, (1, 0)) if j == w else c for j, c in enumerate(e)), False, 'member with one coefficient changed')
        # unitary: order divides p^6+1, not cyclotomic
        u = ref.f12mul(ref.f12conj(f), ref.f12inv(f)); yield gtv(u, False, 'unitary')
        s6 = tuple(x if j % 2 == 0 else (0, 0) for j, x in enumerate(f)); yield gtv(s6, False, 'Fp6')
    for i, q in enumerate(ctx.mine(SMALLCYC)):
        z = ref.f12pow(ref.easy(tuple((rng.randrange(P), rng.randrange(P)) for _ in range(6))), (P**4 - P**2 + 1) // q)
        if z != ref.F12O:
            yield gtv(z, False, 'order %d' % q); yield gtv(ref.f12mul(z, gt().pow(rng.randrange(R))), False, 'member times order %d' % q)
    for _ in range(ctx.n(300, 6000)): yield gtv(gt().pow(rng.randrange(R)), True, 'powers of the pairing')
# -- the steps the Miller loop is made of (homogeneous coordinates: x = X/Z, y = Y/Z)
def line_fault(co, lam, p):
    """the line c0 + c1 x + c2 y is the one of slope lam through p, up to a non-zero factor"""
    F = ref.Fp2
    c0, c1, c2 = co
    if c2 == F.zero: return 'the coefficient of y is zero'
    if c1 != F.neg(F.mul(lam, c2)): return 'wrong slope'
    if F.add(c0, F.add(F.mul(c1, p[0]), F.mul(c2, p[1]))) != F.zero: return 'the line does not pass through the point'
def step_line(p, q=None):
    F = ref.Fp2
    if q is None: return F.mul(F.smul(F.sqr(p[0]), 3), F.inv(F.smul(p[1], 2)))
    return F.mul(F.sub(q[1], p[1]), F.inv(F.sub(q[0], p[0])))
def step_reply(r, p, q):
    F = ref.Fp2
    try:
        a, b = r.split(' ')[:2]; x, y, z = uj2(a); co = uj2(b)
    except (Bad, ValueError) as e: return str(e)
    w = E2.add(p, q) if q is not None else E2.dbl(p)
    if z == F.zero: return 'the point is infinity'
    if x != F.mul(w[0], z) or y != F.mul(w[1], z): return 'wrong point'
    return line_fault(co, step_line(p, q), p)
LOOP = 0xd201000000010000
def precomp_reply(r, t):
    rows = r.split(',')
    if len(rows) != 68: return 'wrong number of lines'
    k = 0; p = t
    for i in range(62, -1, -1):
        for q in [None] + ([t] if LOOP >> i & 1 else []):
            try: f = line_fault(uj2(rows[k]), step_line(p, q), p)
            except Bad as e: f = str(e)
            if f: return 'line %d (bit %d): %s' % (k, i, f)
            p = E2.dbl(p) if q is None else E2.add(p, q); k += 1
def c12_steps(ctx):
    rng, lit = ctx.rng, ctx.lit
    F = ref.Fp2; w2 = Walk(E2, rng)
    pts = [p for p, _ in K2.pool(rng, 40) if p is not None]
    hom = lambda p, z: K2.J((F.mul(p[0], z), F.mul(p[1], z), z))
    for _ in range(ctx.n(700, 20000)):
        p, q = (w2()[1] if rng.random() < .6 else rng.choice(pts) for _ in range(2))
        z = F.one if rng.random() < .15 else K2.rz(rng)
        yield ('dblstep ' + hom(p, z), C(step_reply, p, None), 'doubling step')
        t = rng.random()
        if t < .1: q = (ref.f2smul(p[0], rng.choice((OMEGA, OMEGA * OMEGA % P))), p[1])      # equal or opposite y
        elif t < .2: q = (ref.f2smul(p[0], rng.choice((OMEGA, OMEGA * OMEGA % P))), F.neg(p[1]))
        if p[0] != q[0]: yield ('addstep %s %s' % (hom(p, z), K2.aff(q)), C(step_reply, p, q), 'addition step')
        d = E2.dbl(p)
        if d is not None and d[0] != p[0] and rng.random() < .2: yield ('addstep %s %s' % (hom(d, z), K2.aff(p)), C(step_reply, d, p), 'addition step')
    for _ in range(ctx.n(30, 1500)):
        t = w2()[1]
        yield ('precomp ' + K2.aff(t), C(precomp_reply, t), 'line table')
SMALLCYC = small_cyclotomic(None)
reg(Check('C12', 'Doubling and addition steps in homogeneous coordinates and the whole line table against the affine group law and the line through the points; lists of 0..25 and up to 129 pairs (thorough 1000) with known logarithms: shared, repeated, cancelling, infinite (either side, many forms) entries, any representation, permuted, with and without callback; a part against a full textbook ate pairing; final exponentiation on arbitrary elements; membership test on members, cyclotomic, unitary, subfield, small-order and perturbed elements. Distinct = distinct request and class.',
          jobs=lambda tier: [Job('pairing', c12, batch=200), Job('steps', c12_steps, batch=200)]))

# ------------------------------------------------------------------ C14
def preimages(F, A, B, Z, swu, x0):
    """all u whose simplified SWU image has the given x"""
    half = F.inv(F.smul(F.one, 2))
    def roots(b, c):                  # t^2 + b t + c = 0
        d = F.sub(F.sqr(b), F.smul(c, 4)); s = F.sqrt(d)
        return [] if s is None else [F.mul(F.sub(s, b), half), F.mul(F.sub(F.neg(s), b), half)]
    nba = F.mul(F.neg(B), F.inv(A)); r = F.mul(x0, F.inv(nba))
    tv = []
    k = F.sub(r, F.one)
    if k != F.zero: tv += roots(F.one, F.neg(F.inv(k)))              # x1 = x0
    tv += roots(F.sub(F.one, r), F.sub(F.one, r))                    # x2 = x0
    out = []
    for t in tv:
        u = F.sqrt(F.mul(t, F.inv(Z)))
        if u is not None:
            for v in (u, F.neg(u)):
                if swu(v)[0] == x0: out.append(v)
    return out
def c14(ctx):
    rng, lit = ctx.rng, ctx.lit
    def m1(u, cls): return ('g1 map ' + F1(u), C(lambda r, u: K1.same(r, ref.map_g1(u)), u), 'g1 ' + cls)
    def m2(u, cls): return ('g2 map ' + F2(u), C(lambda r, u: K2.same(r, ref.map_g2(u)), u), 'g2 ' + cls)
    from refconst import K11
    ex = []
    for x in K11: ex += [(u, 'isogeny kernel') for u in preimages(ref.Fp1, ref.A1, ref.B1, ref.Z1, ref.swu1, x)]
    s = ref.sqrt(-ref.inv(11) % P)
    if s is not None: ex += [(s, 'vanishing denominator'), (-s % P, 'vanishing denominator')]
    ex += [(0, 'zero')]
    for x in range(12): ex += [(u, 'special x') for u in preimages(ref.Fp1, ref.A1, ref.B1, ref.Z1, ref.swu1, x)]
    for u, c in ctx.mine(ex, keep=True): yield m1(u, c)
    ex = [((0, 0), 'zero')]
    s = ref.f2sqrt(ref.f2inv(ref.f2neg(ref.Z2)))
    if s is not None: ex += [(s, 'vanishing denominator'), (ref.f2neg(s), 'vanishing denominator')]
    ex += [(u, 'isogeny kernel') for u in preimages(ref.Fp2, ref.A2, ref.B2, ref.Z2, ref.swu2, (P - 6, 6))]
    for x in [(i, j) for i in range(-2, 3) for j in range(-2, 3)]:
        ex += [(u, 'special x') for u in preimages(ref.Fp2, ref.A2, ref.B2, ref.Z2, ref.swu2, (x[0] % P, x[1] % P))]
    for u, c in ctx.mine(ex, keep=True): yield m2(u, c)
    for e in ctx.mine(FP_EDGES):
        yield m1(e, 'edge'); yield m1(e * RINV % P, 'edge (Montgomery)'); yield m1(-e % P, 'edge')
        for z in ((e, 0), (0, e), (e, e), (e, -e % P)): yield m2(z, 'edge')
    for _ in range(ctx.n(5000, 150000)):
        u = fpm(rng, lit); yield m1(u, 'structured')
        if rng.random() < .2: yield m1(-u % P, 'structured, negated')
    for _ in range(ctx.n(1600, 50000)):
        u = f2m(rng, lit) if rng.random() < .7 else (rng.randrange(P), rng.randrange(P)); yield m2(u, 'structured')
        if rng.random() < .2: yield m2(ref.f2neg(u), 'structured, negated')
reg(Check('C14', 'Zero, inputs where a denominator vanishes, every preimage of the isogeny kernel (G1), preimages of special x-coordinates, edge residues plain and as raw limbs, structured elements and their negatives; against the standard map (straight-line SSWU, isogeny recomputed by Velu formulas, literal cofactor multiple). Distinct = distinct request and class.',
          jobs=lambda tier: [Job('map', c14, batch=1500)]))
