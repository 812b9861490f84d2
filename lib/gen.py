"""Value generators and text encodings shared by the checks."""
import glob, os, re, random
import ref
from ref import P, R, MONT, RINV, E1, E2
import build

M64 = (1 << 64) - 1
M384 = (1 << 384) - 1

# ------------------------------------------------------------------ literals of the code under test
_num = re.compile(r"(?<![\w.])(?:0[xX][0-9a-fA-F']+|0[bB][01']+|\d[\d']*)(?=[uUlLzZ]*\b)")
_str = re.compile(r'"((?:[^"\\\n]|\\.)*)"')
_lit = r"(?:0[xX][0-9a-fA-F']+|\d[\d']*)[uUlLzZ]*"
_expr = re.compile(r"(?<![\w.])%s(?:\s*(?:<<|[*+-])\s*%s)+(?!\w)" % (_lit, _lit))
def number(m):
    m = m.replace("'", '').rstrip('uUlLzZ')
    try: return int(m, 0) if not re.match(r'0\d', m) else int(m, 8)
    except ValueError: return None
def harvest():
    """Integer literals (with the number of times each occurs), values of simple constant expressions and
    string literals in the current sources. Those not in the recorded baseline, or used more often than there,
    are returned separately: inputs are steered towards them, verdicts never depend on them."""
    ints, strs = {}, set()
    fs = glob.glob(os.path.join(build.REPO, 'src', '*')) + glob.glob(os.path.join(build.REPO, 'include', 'bls12-381', '*'))
    for f in fs:
        try: t = open(f, errors='replace').read()
        except OSError: continue
        t = re.sub(r'//[^\n]*|/\*.*?\*/', ' ', t, flags=re.S)
        strs |= set(_str.findall(t))
        t = _str.sub(' ', t)
        for m in _num.findall(t):
            v = number(m)
            if v is not None and v < 1 << 64: ints[v] = ints.get(v, 0) + 1
        for m in _expr.findall(t):
            e = re.sub(_lit, lambda x: str(number(x.group(0))), m)
            if 'None' in e or len(e) > 80: continue
            if any(int(x) > 64 for x in re.findall(r'<<\s*(\d+)', e)): continue
            v = eval(e) if re.fullmatch(r'[\d\s<*+-]+', e) else -1
            if 0 <= v < 1 << 64: ints[v] = ints.get(v, 0) + 1
    return ints, strs
class Lit:
    def __init__(self):
        ints, strs = harvest()
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'literals.txt')
        bi, bs = {}, set()
        if os.path.exists(p):
            for l in open(p):
                l = l.rstrip('\n')
                if l.startswith('i '):
                    v, n = l[2:].split(); bi[int(v, 16)] = int(n)
                elif l.startswith('s '): bs.add(l[2:])
        self.words = sorted(v for v in ints if v > 0xffff)
        self.new = sorted(v for v in ints if v not in bi or v > 3 and ints[v] > bi[v])
        self.newstr = sorted(strs - bs)
        self.newwords = [v for v in self.new if v > 255]
        self.newsmall = [v for v in self.new if v <= 1 << 17]
    def save(self):
        ints, strs = harvest()
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'literals.txt'), 'w') as f:
            for v in sorted(ints): f.write('i %x %d\n' % (v, ints[v]))
            for s in sorted(strs): f.write('s %s\n' % s)
    def sizes(self, limit):
        """lengths/counts suggested by new literals, with neighbours"""
        s = set()
        for v in self.newsmall:
            for d in (-1, 0, 1, 2):
                if 0 <= v + d <= limit: s.add(v + d)
            for k in (2, 3):
                if v * k <= limit and v > 1: s.add(v * k); s.add(v * k + 1)
        return sorted(s)

# ------------------------------------------------------------------ limbs
def limbs(n, k): return [n >> (64 * i) & M64 for i in range(k)]
def unlimbs(l): return sum(x << (64 * i) for i, x in enumerate(l))
PL = limbs(P, 6); RL = limbs(R, 4)
WORDS = [0, 1, 2, 3, M64, M64 - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, 1 << 32, (1 << 32) - 1, M64 << 32 & M64, 0xaaaaaaaaaaaaaaaa, 0x5555555555555555]
def word(rng, lit=None):
    t = rng.random()
    if t < .38: return rng.getrandbits(64)
    if t < .72: return rng.choice(WORDS)
    if t < .80: return (rng.choice(PL + RL) + rng.choice((-1, 0, 1))) & M64
    if t < .86: return (1 << rng.randrange(64)) + rng.choice((-1, 0, 1)) & M64
    if lit:
        if lit.newwords and rng.random() < .7: return (rng.choice(lit.newwords) + rng.choice((0, 0, 0, -1, 1))) & M64
        if lit.words: return rng.choice(lit.words)
    return rng.getrandbits(rng.randrange(1, 65))
def wide(rng, k, lit=None):
    """k-limb integer with structured limbs"""
    t = rng.random()
    if t < .12: return rng.getrandbits(64 * k)
    if t < .2: return rng.getrandbits(rng.randrange(1, 64 * k + 1))
    if t < .26: return ((1 << rng.randrange(64 * k)) + rng.choice((-1, 0, 1))) % (1 << 64 * k)
    if t < .32:   # run of ones
        a = rng.randrange(64 * k); b = rng.randrange(64 * k)
        return ((1 << max(a, b)) - (1 << min(a, b)))
    if t < .36: return (1 << (64 * k)) - 1 - rng.getrandbits(rng.randrange(1, 65))
    if t < .46: # most words zero (or all ones), so that carries, skips and scans pass over whole words
        f = rng.choice((0, 0, M64))
        return unlimbs([word(rng, lit) if rng.random() < .4 else f for _ in range(k)])
    return unlimbs([word(rng, lit) for _ in range(k)])
def sparse_exp(rng, k):
    """k-word exponent with runs of zero words and the set bits at word edges"""
    v = 0
    for i in range(k):
        if rng.random() < .5: v |= rng.choice((1, 1 << 63, M64, 1 << rng.randrange(64), 1 << 63 | 1)) << 64 * i
    return v
_S3 = ref.omega_candidates()
FP_EDGES = sorted({x % P for x in [0, 1, 2, 3, 4, 5, 7, P - 1, P - 2, P - 3, (P - 1) // 2, (P + 1) // 2, (P - 3) // 4, (P + 1) // 4, MONT, -MONT, MONT * MONT, RINV, -RINV,
    2 * MONT, MONT // 2, ref.inv(2), ref.inv(3), -2, -3, 11, 1012, 240, R, -R, 1 << 64, 1 << 128, 1 << 192, 1 << 256, 1 << 320, 1 << 380, (1 << 64) - 1, (1 << 128) - 1, (1 << 320) - 1,
    P - (1 << 64), P - (1 << 320), P - (1 << 380), P >> 1, P >> 64, _S3[0], _S3[1], ref.sqrt(2) or 2, ref.sqrt(-3 % P), E1.gen[0], E1.gen[1], ref.E2.gen[0][0]]})
def fpv(rng, lit=None):
    """a canonical residue (used as plain value or as raw limbs)"""
    t = rng.random()
    if t < .25: return rng.choice(FP_EDGES)
    if t < .4: return rng.randrange(P)
    if t < .47: return (P - 1 - rng.getrandbits(rng.randrange(1, 130))) % P
    if t < .54: return ((rng.getrandbits(rng.randrange(1, 130))) << (64 * rng.randrange(0, 5))) % P
    if t < .60: return (P + (rng.choice((-1, 1)) << rng.randrange(381))) % P
    v = wide(rng, 6, lit)
    if v >= P:
        t = rng.random()
        if t < .5:
            v &= (1 << 320) - 1
            v |= rng.choice((0, 1, PL[5], PL[5] - 1, rng.randrange(PL[5] + 1))) << 320
            if v >= P: v = v & ((1 << 256) - 1) | (P >> 256 << 256)
        if v >= P: v %= P
    return v
def fpm(rng, lit=None):
    """a plain value; half the time structured in its Montgomery representation"""
    v = fpv(rng, lit)
    return v if rng.random() < .5 else v * RINV % P
def f2m(rng, lit=None):
    t = rng.random()
    if t < .12: return (fpm(rng, lit), 0)
    if t < .24: return (0, fpm(rng, lit))
    if t < .30: a = fpm(rng, lit); return (a, a)
    if t < .36: a = fpm(rng, lit); return (a, -a % P)
    if t < .42: a = fpm(rng, lit); return (a, ref.inv(a))
    return (fpm(rng, lit), fpm(rng, lit))
def f6m(rng, lit=None):
    l = [f2m(rng, lit) for _ in range(3)]
    if rng.random() < .35:
        for i in range(3):
            if rng.random() < .5: l[i] = rng.choice(((0, 0), (1, 0), (0, 1), (P - 1, 0), (P - 1, P - 1)))
    return tuple(l)
def f12m(rng, lit=None):
    """as powers of w"""
    l = [f2m(rng, lit) for _ in range(6)]
    t = rng.random()
    if t < .3:
        for i in range(6):
            if rng.random() < .55: l[i] = rng.choice(((0, 0), (0, 0), (1, 0), (P - 1, P - 1)))
    elif t < .36: l = [l[0]] + [(0, 0)] * 5
    elif t < .42: l = [l[0], (0, 0), l[2], (0, 0), l[4], (0, 0)]
    elif t < .48: l = [(0, 0), l[1], (0, 0), l[3], (0, 0), l[5]]
    elif t < .56:      # any pattern of zero coefficients, with or without zero real or imaginary parts
        m, a, b = rng.randrange(64), rng.choice((0, 63, 63, rng.randrange(64))), rng.choice((0, 63, 63, rng.randrange(64)))
        l = [(x[0] * (a >> i & 1), x[1] * (b >> i & 1)) if m >> i & 1 else (0, 0) for i, x in enumerate(l)]
    return tuple(l)

# ------------------------------------------------------------------ text
def h96(n): return '%096x' % n
def F1(x): return '%096x' % (x * MONT % P)
def F2(a): return F1(a[0]) + F1(a[1])
def F6(t): return ''.join(F2(c) for c in t)
def F12(f): return ''.join(F2(c) for c in ref.tower12(f))
def W(n, k): return '%0*x' % (16 * k, n)
def HB(b): return b.hex() if len(b) else '-'
class Bad(Exception): pass
def u1(s):
    v = int(s, 16)
    if v >= P: raise Bad('coefficient not below p')
    return v * RINV % P
def u2(s): return (u1(s[:96]), u1(s[96:192]))
def u6(s): return tuple(u2(s[192 * i:192 * i + 192]) for i in range(3))
def u12(s): return ref.from_tower12(tuple(u2(s[192 * i:192 * i + 192]) for i in range(6)))
def J1(t): return F1(t[0]) + F1(t[1]) + F1(t[2])
def J2(t): return F2(t[0]) + F2(t[1]) + F2(t[2])
def uj1(s):
    if len(s) != 288: raise Bad('length')
    return (u1(s[:96]), u1(s[96:192]), u1(s[192:288]))
def uj2(s):
    if len(s) != 576: raise Bad('length')
    return (u2(s[:192]), u2(s[192:384]), u2(s[384:576]))

class CurveKit:
    """curve with text encodings and point workloads"""
    def __init__(self, E, n):
        self.E, self.n, self.F = E, n, E.F
        self.name = 'g%d' % n
        self.J = J1 if n == 1 else J2
        self.uj = uj1 if n == 1 else uj2
        self.primes = ref.PRIMES1 if n == 1 else ref.PRIMES2
        self._tors = None
        self.comp = ref.comp1 if n == 1 else ref.comp2
        self.w = 48 * n
    def rf(self, rng, lit=None): return fpm(rng, lit) if self.n == 1 else f2m(rng, lit)
    def rz(self, rng, lit=None):
        t = rng.random()
        if t < .25: return self.F.one
        if t < .40: return rng.choice(self.unitz())
        while True:
            z = self.rf(rng, lit)
            if z != self.F.zero: return z
    def unitz(self):
        """roots of unity and other small or special values of Z"""
        OMEGA = pow(2, (P - 1) // 3, P)
        if not getattr(self, '_unitz', None):
            l = [P - 1, OMEGA, P - OMEGA, OMEGA * OMEGA % P, P - OMEGA * OMEGA % P, 2, P - 2, (P + 1) // 2, 3, MONT % P, RINV]
            self._unitz = l if self.n == 1 else [(x, 0) for x in l[:7]] + [(0, 1), (0, P - 1), (1, 1), (1, P - 1), (P - 1, 1), (0, 2), (0, OMEGA)]
        return self._unitz
    def inf(self, rng):
        t = rng.random()
        F = self.F
        if t < .25: return (F.zero, F.zero, F.zero)
        if t < .4: return (F.one, F.one, F.zero)
        if t < .5: return (F.zero, F.one, F.zero)
        if t < .62:
            p = self.E.gen; return (p[0], p[1], F.zero)
        if t < .7: return (F.one, F.zero, F.zero)
        if t < .78: return (self.rf(rng), F.zero, F.zero)
        if t < .86: return (F.zero, self.rf(rng), F.zero)
        if t < .92:
            c = self.rf(rng); return (F.sqr(c), F.mul(c, F.sqr(c)), F.zero)
        return (self.rf(rng), self.rf(rng), F.zero)
    def cbrt(self, a, rng):
        """a cube root or None; the group of units has 9 m elements, m not divisible by 3"""
        F = self.F
        if not getattr(self, '_ninth', None):
            m = (P ** self.n - 1) // 9
            assert m % 3 and (P ** self.n - 1) % 9 == 0
            g = random.Random(5)
            while True:
                c = F.pow(self.rf(g), m)
                if F.mul(F.sqr(c), c) != F.one: break
            l = [F.one]
            while len(l) < 9: l.append(F.mul(l[-1], c))
            self._ninth = (pow(3, -1, m), l)
        e, roots = self._ninth
        w = F.pow(a, e)
        r = [x for x in (F.mul(w, i) for i in roots) if F.mul(F.sqr(x), x) == a]
        return rng.choice(r) if r else None
    def zto(self, p, rng, xt=None, yt=None):
        """Z with which the raw X (or Y) is the given value, or None"""
        F = self.F
        if xt is not None: return F.sqrt(F.mul(xt, F.inv(p[0]))) if p[0] != F.zero and xt != F.zero else None
        return self.cbrt(F.mul(yt, F.inv(p[1])), rng) if p[1] != F.zero and yt != F.zero else None
    def zspecial(self, p, rng, lit=None):
        """Z with which a coordinate is a special or structured value or coincides with another one, or None"""
        F = self.F; t = rng.randrange(8)
        if p[0] == F.zero or p[1] == F.zero: return None
        v = rng.choice((F.one, F.one, F.neg(F.one), self.rf(rng, lit), self.rf(rng, lit)))
        if t < 3: z = self.zto(p, rng, xt=v)
        elif t < 5: z = self.zto(p, rng, yt=v)
        elif t == 5: z = F.mul(p[0], F.inv(p[1]))                   # X = Y (or -Y)
        elif t == 6: z = F.inv(p[0])                                # X = Z
        else: z = F.sqrt(F.inv(p[1]))                               # Y = Z
        if z is None or z == F.zero: return None
        return F.neg(z) if rng.random() < .5 else z
    def zfor(self, p, rng, lit=None):
        if rng.random() < .08:
            z = self.zspecial(p, rng, lit)
            if z: return z
        return self.rz(rng, lit)
    def rep(self, p, rng, lit=None):
        """text of some Jacobian representation of the affine point"""
        if p is None: return self.J(self.inf(rng))
        return self.J(self.E.jac(p, self.zfor(p, rng, lit)))
    def aff(self, p): return self.J((p[0], p[1], self.F.one)) if p is not None else self.J((self.F.zero, self.F.zero, self.F.zero))
    def point(self, s):
        """parse a reply: affine point, coefficients must be canonical"""
        return self.E.from_jac(self.uj(s))
    def same(self, reply, want):
        """checker: the reply represents the point"""
        if callable(want): want = want()
        try: t = self.uj(reply)
        except (Bad, ValueError) as e: return 'not a canonical point: %s' % e
        F = self.F
        if want is None:
            return None if t[2] == F.zero else 'want infinity'
        if t[2] == F.zero: return 'got infinity, want %s' % (want,)
        z2 = F.sqr(t[2])
        if t[0] == F.mul(want[0], z2) and t[1] == F.mul(want[1], F.mul(z2, t[2])): return None
        return 'want affine %s' % self.aff(want)
    @property
    def tors(self):
        if self._tors is None:
            rng = random.Random(1234 + self.n)
            self._tors = {}
            for q in self.primes:
                self._tors[q] = [ref.torsion_point(self.E, q, rng) for _ in range(3 if q < 20000 else 1)]
        return self._tors
    def small_x(self):
        """points with special x: 0, small values, and (G1) cube-root images"""
        out = []
        E = self.E
        for x in range(0, 40):
            for xx in ([x, P - x] if self.n == 1 else [(x, 0), (0, x), (x, x), (P - 1 - x, 1)]):
                if self.n == 1: xx %= P
                else: xx = (xx[0] % P, xx[1] % P)
                p = E.lift(xx)
                if p is not None: out.append(p); out.append(E.neg(p))
        return out
    def pool(self, rng, n=40):
        """(affine point, kind) workload: subgroup, curve, torsion, mixed-order, special points"""
        E = self.E
        out = [(None, 'inf')]
        g = E.gen
        out += [(g, 'gen'), (E.neg(g), '-gen'), (E.dbl(g), '2gen')]
        b = E.gmul(rng.randrange(R)); c = E.gmul(rng.randrange(R))
        x = b
        for _ in range(n // 3): out.append((x, 'sub')); x = E.add(x, c)
        r = ref.random_point(E, rng)
        x = r
        for _ in range(n // 4): out.append((x, 'curve')); x = E.add(x, c)
        for q, l in self.tors.items():
            t = rng.choice(l)
            k = rng.randrange(1, min(q, 50))
            out.append((E.mul(t, k), 'tors%s' % (q if q < 10**9 else 'big')))
            out.append((E.add(t, rng.choice((b, c, g))), 'mixed%s' % (q if q < 10**9 else 'big')))
        sx = self.small_x()
        for _ in range(n // 6): out.append((rng.choice(sx), 'smallx'))
        return out
K1 = CurveKit(E1, 1)
K2 = CurveKit(E2, 2)
KITS = (K1, K2)

# scalars
SC_EDGES = sorted({0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 255, 256, 257, R - 1, R, R + 1, R - 2, R + 2, 2 * R, 2 * R - 1, 2 * R + 1, (R - 1) // 2, (R + 1) // 2, -ref.X, ref.X * ref.X, ref.X**2 - 1, ref.X**2 + 1,
    (1 << 64) - 1, 1 << 64, (1 << 128) - 1, 1 << 128, (1 << 192) - 1, 1 << 192, 1 << 254, (1 << 255) - 1, 1 << 255, (1 << 255) + 1, (1 << 256) - 1, (1 << 256) - 2, ref.H1, ref.HEFF1, 3, 11, 13, 23, 2713, 10177})
def scal(rng, lit=None, bits=256):
    t = rng.random()
    if t < .25: v = rng.choice(SC_EDGES)
    elif t < .45: v = rng.randrange(R)
    elif t < .55: v = rng.getrandbits(rng.randrange(1, bits + 1))
    elif t < .62: v = rng.choice((1, 2, 3)) * R + rng.randrange(-3, 4)
    else: v = wide(rng, bits // 64, lit)
    return v & ((1 << bits) - 1)
def skv(rng, lit=None):
    """secret key below the order"""
    t = rng.random()
    if t < .15: return rng.choice([x for x in SC_EDGES if x < R])
    if t < .5: return rng.randrange(R)
    v = wide(rng, 4, lit)
    return v if v < R else v % R
def msg(rng, lit=None, maxlen=300):
    t = rng.random()
    if lit and lit.newstr and t < .15:
        s = rng.choice(lit.newstr).encode()
        return s + rng.randbytes(rng.choice((0, 0, 1, 5)))
    if lit and t < .3:
        z = lit.sizes(1 << 16)
        if z: return rng.randbytes(rng.choice(z))
    if t < .5:
        n = rng.choice((0, 1, 2, 8, 16, 20, 31, 32, 32, 33, 47, 48, 54, 55, 56, 57, 62, 63, 64, 65, 95, 96, 97, 118, 119, 120, 127, 128, 129, 144, 183, 184, 191, 192, 193, 255, 256, 257, 288))
        b = bytearray(rng.randbytes(n))
        if n and rng.random() < .4:        # a run at one of the ends
            k = min(n, rng.choice((1, 2, 3, 4, 8, 16, 32, n))); c = rng.choice((0, 0, 0, 255, 128, 0x30, 0x20))
            if rng.random() < .5: b[:k] = bytes([c]) * k
            else: b[n - k:] = bytes([c]) * k
        return bytes(b)
    b = bytearray(rng.randbytes(rng.randrange(maxlen)))
    if b and t < .7:
        i = rng.randrange(len(b)); c = rng.choice((0, 255, 128, 1))
        for j in range(i, len(b)): b[j] = c
    return bytes(b)
