"""Independent executable model of BLS12-381: plain Python integers, textbook definitions.

Nothing here is taken from the implementation under test.  Curve constants come from the
published specification (draft-irtf-cfrg-pairing-friendly-curves, RFC 9380, EIP-2333); derived
constants (Frobenius images, endomorphisms, isogenies, torsion) are recomputed from definitions.
"""
import hashlib, hmac as _hmac

X = -0xd201000000010000
P = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
R = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
assert R == X**4 - X**2 + 1 and P == (X - 1)**2 // 3 * R + X
MONT = 1 << 384
RINV = pow(MONT, -1, P)
H1 = (X - 1)**2 // 3
H2 = (X**8 - 4*X**7 + 5*X**6 - 4*X**4 + 6*X**3 - 4*X**2 - 4*X + 13) // 9
N1 = H1 * R
N2 = H2 * R
G1X = 0x17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb
G1Y = 0x08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1
G2X = (0x024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8,
       0x13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e)
G2Y = (0x0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801,
       0x0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be)

# ---------------------------------------------------------------- Fp
def inv(a): return pow(a, -1, P) if a % P else 0
def legendre(a): return pow(a, (P - 1) // 2, P)
def is_square(a): return a % P == 0 or legendre(a) == 1
def sqrt(a):
    r = pow(a, (P + 1) // 4, P)
    return r if r * r % P == a % P else None

# ---------------------------------------------------------------- Fp2 = Fp[u]/(u^2+1)
F2Z = (0, 0); F2O = (1, 0)
def f2add(a, b): return ((a[0] + b[0]) % P, (a[1] + b[1]) % P)
def f2sub(a, b): return ((a[0] - b[0]) % P, (a[1] - b[1]) % P)
def f2neg(a): return (-a[0] % P, -a[1] % P)
def f2mul(a, b):
    a0, a1 = a; b0, b1 = b
    return ((a0 * b0 - a1 * b1) % P, (a0 * b1 + a1 * b0) % P)
def f2sqr(a):
    a0, a1 = a
    return ((a0 + a1) * (a0 - a1) % P, 2 * a0 * a1 % P)
def f2smul(a, k): return (a[0] * k % P, a[1] * k % P)
def f2conj(a): return (a[0], -a[1] % P)
def f2norm(a): return (a[0] * a[0] + a[1] * a[1]) % P
def f2inv(a):
    n = inv(f2norm(a))
    return (a[0] * n % P, -a[1] * n % P)
def f2pow(a, e):
    r = F2O
    for bit in bin(e)[2:]:
        r = f2sqr(r)
        if bit == '1': r = f2mul(r, a)
    return r
def f2is_square(a): return is_square(f2norm(a))
def f2sqrt(a):
    """Square root by the norm method (the code under test uses exponentiation)."""
    a0, a1 = a
    if a1 == 0:
        r = sqrt(a0)
        if r is not None: return (r, 0)
        r = sqrt(-a0 % P)
        return (0, r)
    n = sqrt(f2norm(a))
    if n is None: return None
    half = inv(2)
    d = (a0 + n) * half % P
    if not is_square(d): d = (a0 - n) * half % P
    x = sqrt(d)
    y = a1 * inv(2 * x) % P
    r = (x, y)
    assert f2sqr(r) == a
    return r
XI = (1, 1)

# ---------------------------------------------------------------- Fp12 = Fp2[w]/(w^6-(1+u))
# Elements are 6-tuples of Fp2 coefficients of w^0..w^5.  Since u = w^6-1, Fp12 is also
# Fp[w]/(w^12-2w^6+2); multiplication packs the twelve Fp coefficients into one integer.
_SLOT = 100            # bytes per coefficient when packed
def _flat(f):
    # a + b u at w^i  ->  (a-b) w^i + b w^(i+6)
    return [(c[0] - c[1]) % P for c in f] + [c[1] for c in f]
def _unflat(v): return tuple(((v[i] + v[i + 6]) % P, v[i + 6] % P) for i in range(6))
def _pack(v): return int.from_bytes(b''.join(x.to_bytes(_SLOT, 'little') for x in v), 'little')
def _red(prod):
    b = prod.to_bytes(_SLOT * 23, 'little')
    c = [int.from_bytes(b[i * _SLOT:(i + 1) * _SLOT], 'little') for i in range(23)]
    # w^12 = 2w^6 - 2
    for i in range(22, 11, -1):
        t = c[i]
        if t:
            c[i - 6] += 2 * t
            c[i - 12] -= 2 * t
    return _unflat([x % P for x in c[:12]])
F12O = (F2O,) + (F2Z,) * 5
F12Z = (F2Z,) * 6
def f12mul(a, b): return _red(_pack(_flat(a)) * _pack(_flat(b)))
def f12sqr(a):
    x = _pack(_flat(a))
    return _red(x * x)
def f12add(a, b): return tuple(f2add(x, y) for x, y in zip(a, b))
def f12sub(a, b): return tuple(f2sub(x, y) for x, y in zip(a, b))
def f12neg(a): return tuple(f2neg(x) for x in a)
def f12pow(a, e):
    if e < 0: return f12pow(f12inv(a), -e)
    r = F12O
    for bit in bin(e)[2:]:
        r = f12sqr(r)
        if bit == '1': r = f12mul(r, a)
    return r
def f12conj(a): return tuple(x if i % 2 == 0 else f2neg(x) for i, x in enumerate(a))   # a^(p^6)
def f12inv(a):
    """via the norm to Fp6 and to Fp2 (schoolbook), checked by multiplication"""
    if all(c == F2Z for c in a): return F12Z
    n = f12mul(a, f12conj(a))          # even powers of w only: element of Fp6
    c0, c1, c2 = n[0], n[2], n[4]
    t0 = f2sub(f2sqr(c0), f2mul(XI, f2mul(c1, c2)))
    t1 = f2sub(f2mul(XI, f2sqr(c2)), f2mul(c0, c1))
    t2 = f2sub(f2sqr(c1), f2mul(c0, c2))
    d = f2add(f2mul(c0, t0), f2mul(XI, f2add(f2mul(c2, t1), f2mul(c1, t2))))
    d = f2inv(d)
    ni = (f2mul(t0, d), F2Z, f2mul(t1, d), F2Z, f2mul(t2, d), F2Z)
    r = f12mul(f12conj(a), ni)
    return r
_frob = {}
def _frobw(k):
    """(w^i)^(p^k) for i<6, by exponentiation"""
    k %= 12
    if k not in _frob:
        w = (F2Z, F2O, F2Z, F2Z, F2Z, F2Z)
        wp = f12pow(w, P**k % (P**12 - 1) if k else 1)
        l = [F12O]
        for _ in range(5): l.append(f12mul(l[-1], wp))
        for x in l: assert sum(c != F2Z for c in x) == 1
        _frob[k] = l
    return _frob[k]
def f12frob(a, k):
    k %= 12
    r = F12Z
    for i, m in enumerate(_frobw(k)):
        c = a[i] if k % 2 == 0 else f2conj(a[i])
        if c != F2Z:
            j = next(t for t in range(6) if m[t] != F2Z)
            r = r[:j] + (f2add(r[j], f2mul(c, m[j])),) + r[j + 1:]
    return r
# conversion to the tower order of the library: ((c00,c01,c02),(c10,c11,c12)), w^2=v
def tower12(f): return (f[0], f[2], f[4], f[1], f[3], f[5])
def from_tower12(t): return (t[0], t[3], t[1], t[4], t[2], t[5])
# Fp6 elements are 3-tuples (powers of v = w^2)
def to6(t): return (t[0], F2Z, t[1], F2Z, t[2], F2Z)
def from6(f):
    assert f[1] == f[3] == f[5] == F2Z
    return (f[0], f[2], f[4])
def f6mul(a, b): return from6(f12mul(to6(a), to6(b)))
def f6inv(a): return from6(f12inv(to6(a)))
def f6pow(a, e): return from6(f12pow(to6(a), e))
def f6frob(a, k): return from6(f12frob(to6(a), k))
HARD = (P**4 - P**2 + 1) // R
def easy(f):
    f = f12mul(f12conj(f), f12inv(f))
    return f12mul(f12frob(f, 2), f)
def final_exp(f): return f12pow(easy(f), HARD)
def is_cyclotomic(f): return f12mul(f12frob(f, 4), f) == f12frob(f, 2)

# ---------------------------------------------------------------- curves (a = 0)
class Fp1:
    zero = 0; one = 1
    add = staticmethod(lambda a, b: (a + b) % P)
    sub = staticmethod(lambda a, b: (a - b) % P)
    mul = staticmethod(lambda a, b: a * b % P)
    sqr = staticmethod(lambda a: a * a % P)
    neg = staticmethod(lambda a: -a % P)
    inv = staticmethod(inv)
    sqrt = staticmethod(sqrt)
    smul = staticmethod(lambda a, k: a * k % P)
    pow = staticmethod(lambda a, e: pow(a, e, P))
class Fp2:
    zero = F2Z; one = F2O
    add = staticmethod(f2add); sub = staticmethod(f2sub); mul = staticmethod(f2mul); sqr = staticmethod(f2sqr)
    neg = staticmethod(f2neg); inv = staticmethod(f2inv); sqrt = staticmethod(f2sqrt); smul = staticmethod(f2smul)
    pow = staticmethod(f2pow)

class Curve:
    """y^2 = x^3 + b; affine points are (x, y), infinity is None."""
    def __init__(self, F, b, gen, order, cof):
        self.F, self.b, self.gen, self.order, self.cof = F, b, gen, order, cof
        self._tab = None
    def rhs(self, x): F = self.F; return F.add(F.mul(F.sqr(x), x), self.b)
    def on(self, p): return p is None or self.F.sqr(p[1]) == self.rhs(p[0])
    def neg(self, p): return None if p is None else (p[0], self.F.neg(p[1]))
    def add(self, p, q):
        F = self.F
        if p is None: return q
        if q is None: return p
        if p[0] == q[0]:
            if F.add(p[1], q[1]) == F.zero: return None
            l = F.mul(F.smul(F.sqr(p[0]), 3), F.inv(F.smul(p[1], 2)))
        else:
            l = F.mul(F.sub(q[1], p[1]), F.inv(F.sub(q[0], p[0])))
        x = F.sub(F.sub(F.sqr(l), p[0]), q[0])
        return (x, F.sub(F.mul(l, F.sub(p[0], x)), p[1]))
    def sub(self, p, q): return self.add(p, self.neg(q))
    def dbl(self, p): return self.add(p, p)
    # Jacobian helpers, used only to make multiples fast
    def _jd(self, P1):
        if P1 is None: return None
        F = self.F; x, y, z = P1
        if y == F.zero: return None
        a = F.sqr(x); b = F.sqr(y); c = F.sqr(b)
        d = F.smul(F.sub(F.sub(F.sqr(F.add(x, b)), a), c), 2)
        e = F.smul(a, 3)
        x3 = F.sub(F.sqr(e), F.smul(d, 2))
        return (x3, F.sub(F.mul(e, F.sub(d, x3)), F.smul(c, 8)), F.smul(F.mul(y, z), 2))
    def _jadd(self, P1, q):
        """Jacobian + affine"""
        F = self.F
        if q is None: return P1
        if P1 is None: return (q[0], q[1], F.one)
        x, y, z = P1
        zz = F.sqr(z); u2 = F.mul(q[0], zz); s2 = F.mul(q[1], F.mul(z, zz))
        h = F.sub(u2, x); r = F.sub(s2, y)
        if h == F.zero:
            return self._jd(P1) if r == F.zero else None
        hh = F.sqr(h); hhh = F.mul(h, hh); v = F.mul(x, hh)
        x3 = F.sub(F.sub(F.sqr(r), hhh), F.smul(v, 2))
        return (x3, F.sub(F.mul(r, F.sub(v, x3)), F.mul(y, hhh)), F.mul(z, h))
    def aff(self, J):
        if J is None: return None
        F = self.F; zi = F.inv(J[2]); z2 = F.sqr(zi)
        return (F.mul(J[0], z2), F.mul(J[1], F.mul(z2, zi)))
    def mul(self, p, k):
        if k < 0: return self.mul(self.neg(p), -k)
        J = None
        for bit in bin(k)[2:]:
            J = self._jd(J)
            if bit == '1': J = self._jadd(J, p)
        return self.aff(J)
    def gmul(self, k):
        """multiple of the generator, k taken mod r"""
        k %= R
        if self._tab is None:
            t = []; b = self.gen
            for _ in range(64):
                row = [None]; a = None
                for j in range(15):
                    a = self.add(a, b); row.append(a)
                t.append(row)
                b = self.add(a, b)
            self._tab = t
        J = None
        for i in range(64):
            J = self._jadd(J, self._tab[i][k >> (4 * i) & 15])
        return self.aff(J)
    def jac(self, p, z):
        """Jacobian representation with the given Z"""
        F = self.F
        z2 = F.sqr(z)
        return (F.mul(p[0], z2), F.mul(p[1], F.mul(z2, z)), z)
    def from_jac(self, t):
        if t[2] == self.F.zero: return None
        return self.aff(t)
    def lift(self, x):
        y = self.F.sqrt(self.rhs(x))
        return None if y is None else (x, y)
    def insub(self, p): return self.mul(p, R) is None

E1 = Curve(Fp1, 4, (G1X, G1Y), N1, H1)
E2 = Curve(Fp2, (4, 4), (G2X, G2Y), N2, H2)

PRIMES1 = {3: 1, 11: 2, 10177: 2, 859267: 2, 52437899: 2}
_BIG2 = 402096035359507321594726366720466575392706800671181159425656785868777272553337714697862511267018014931937703598282857976535744623203249
PRIMES2 = {13: 2, 23: 2, 2713: 1, 11953: 1, 262069: 1, _BIG2: 1}
def _chk():
    n = 1
    for q, e in PRIMES1.items(): n *= q**e
    assert n == H1, 'H1'
    n = 1
    for q, e in PRIMES2.items(): n *= q**e
    assert n == H2, 'H2'
_chk()

def random_point(E, rng):
    while True:
        x = rng.randrange(P) if E is E1 else (rng.randrange(P), rng.randrange(P))
        p = E.lift(x)
        if p is not None: return p if rng.random() < .5 else E.neg(p)
def torsion_point(E, q, rng):
    """a point of exact prime order q dividing the cofactor"""
    primes = PRIMES1 if E is E1 else PRIMES2
    n = E.order
    k = n
    while k % q == 0: k //= q
    for _ in range(200):
        p = E.mul(random_point(E, rng), k)
        if p is None: continue
        while True:
            t = E.mul(p, q)
            if t is None: return p
            p = t
    raise RuntimeError('no torsion point')

# ---------------------------------------------------------------- endomorphisms, by definition
def twist(p):
    """E'(Fp2) -> E(Fp12): (x, y) -> (x/w^2, y/w^3)"""
    wi = f12inv((F2Z, F2O, F2Z, F2Z, F2Z, F2Z))
    w2 = f12mul(wi, wi); w3 = f12mul(w2, wi)
    l = lambda c: (c,) + (F2Z,) * 5
    return (f12mul(l(p[0]), w2), f12mul(l(p[1]), w3))
def untwist(q):
    w = (F2Z, F2O, F2Z, F2Z, F2Z, F2Z)
    w2 = f12mul(w, w); w3 = f12mul(w2, w)
    x = f12mul(q[0], w2); y = f12mul(q[1], w3)
    assert all(c == F2Z for c in x[1:] + y[1:])
    return (x[0], y[0])
_psic = None
def psi(p, k=1):
    """untwist o Frobenius o twist; coefficients recovered from that definition"""
    global _psic
    if p is None: return None
    if _psic is None:
        t = twist(E2.gen)
        q = untwist((f12frob(t[0], 1), f12frob(t[1], 1)))
        _psic = (f2mul(q[0], f2inv(f2conj(E2.gen[0]))), f2mul(q[1], f2inv(f2conj(E2.gen[1]))))
    for _ in range(k):
        p = (f2mul(f2conj(p[0]), _psic[0]), f2mul(f2conj(p[1]), _psic[1]))
    return p
def omega_candidates():
    # primitive cube roots of unity mod p
    s = sqrt(-3 % P)
    h = inv(2)
    return ((-1 + s) * h % P, (-1 - s) * h % P)

# ---------------------------------------------------------------- pairing
def _line(T, Q, p):
    """line through twisted points T, Q (tangent if equal) evaluated at p in E(Fp), times w^3"""
    if T[0] == Q[0] and T[1] == Q[1]:
        l = f2mul(f2smul(f2sqr(T[0]), 3), f2inv(f2smul(T[1], 2)))
    elif T[0] == Q[0]:
        return (f2neg(T[0]), F2Z, (p[0], 0), F2Z, F2Z, F2Z)   # vertical: xP - xT/w^2, times w^2
    else:
        l = f2mul(f2sub(Q[1], T[1]), f2inv(f2sub(Q[0], T[0])))
    return (f2sub(f2mul(l, T[0]), T[1]), F2Z, f2neg(f2smul(l, p[0])), (p[1], 0), F2Z, F2Z)
def miller(p, q):
    if p is None or q is None: return F12O
    f = F12O; T = q
    for bit in bin(-X)[3:]:
        f = f12mul(f12sqr(f), _line(T, T, p))
        T = E2.add(T, T)
        if bit == '1':
            f = f12mul(f, _line(T, q, p))
            T = E2.add(T, q)
    return f12conj(f)
def ate(p, q):
    """reduced optimal ate pairing f_{x,Q}(P)^((p^12-1)/r)"""
    return final_exp(miller(p, q))

# ---------------------------------------------------------------- hashing (RFC 9380)
def sha(b): return hashlib.sha256(b).digest()
def xmd(msg, dst, n):
    if n > 255 * 32 or len(dst) > 255 or n > 65535: return None
    ell = (n + 31) // 32
    dp = dst + bytes([len(dst)])
    b0 = sha(bytes(64) + msg + n.to_bytes(2, 'big') + b'\0' + dp)
    out = b''; prev = bytes(32)
    for i in range(1, ell + 1):
        prev = sha(bytes(x ^ y for x, y in zip(b0, prev)) + bytes([i]) + dp)
        out += prev
    return out[:n]
def long_dst(dst): return sha(b'H2C-OVERSIZE-DST-' + dst) if len(dst) > 255 else dst
def hash_to_field2(msg, dst):
    u = xmd(msg, long_dst(dst), 256)
    e = [int.from_bytes(u[i:i + 64], 'big') % P for i in range(0, 256, 64)]
    return (e[0], e[1]), (e[2], e[3])
def sgn0_1(a): return a & 1
def sgn0_2(a): return (a[0] & 1) | ((a[0] == 0) & (a[1] & 1))
def sswu(F, A, B, Z, sgn, issq, u):
    tv = F.mul(Z, F.sqr(u))
    d = F.add(F.sqr(tv), tv)
    nba = F.mul(F.neg(B), F.inv(A))
    if d == F.zero: x1 = F.mul(B, F.inv(F.mul(Z, A)))
    else: x1 = F.mul(nba, F.add(F.one, F.inv(d)))
    g = lambda x: F.add(F.add(F.mul(F.sqr(x), x), F.mul(A, x)), B)
    x, y = x1, None
    if issq(g(x1)): y = F.sqrt(g(x1))
    else:
        x = F.mul(tv, x1)
        y = F.sqrt(g(x))
    if sgn(u) != sgn(y): y = F.neg(y)
    return (x, y)
A1 = 0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d
B1 = 0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0
Z1 = 11
A2 = (0, 240); B2 = (1012, 1012); Z2 = (P - 2, P - 1)
def swu1(u): return sswu(Fp1, A1, B1, Z1, sgn0_1, is_square, u)
def swu2(u): return sswu(Fp2, A2, B2, Z2, sgn0_2, f2is_square, u)

class Velu:
    """Normalised isogeny with the given kernel x-coordinates followed by (x,y)->(s2 x, s3 y)."""
    def __init__(self, F, A, B, kernel, s2, s3, ap, bp):
        self.F, self.A, self.B, self.k, self.s2, self.s3 = F, A, B, [], s2, s3
        v = F.zero; w = F.zero
        for x in kernel:
            gx = F.add(F.smul(F.sqr(x), 3), A)
            vq = F.smul(gx, 2)
            uq = F.smul(F.add(F.add(F.mul(F.sqr(x), x), F.mul(A, x)), B), 4)
            self.k.append((x, vq, uq, gx))
            v = F.add(v, vq); w = F.add(w, F.add(uq, F.mul(x, vq)))
        a2 = F.sub(A, F.smul(v, 5)); b2 = F.sub(B, F.smul(w, 7))
        assert F.mul(a2, F.sqr(s2)) == ap and F.mul(b2, F.sqr(s3)) == bp and F.mul(F.sqr(s2), s2) == F.sqr(s3)
    def __call__(self, p):
        if p is None: return None
        F = self.F; x, y = p
        X_ = x; Y = y
        # y * d/dx of the x-map
        dx = F.one
        for (q, v, u, gx) in self.k:
            d = F.sub(x, q)
            if d == F.zero: return None
            i = F.inv(d); i2 = F.sqr(i); i3 = F.mul(i, i2)
            X_ = F.add(X_, F.add(F.mul(v, i), F.mul(u, i2)))
            dx = F.sub(dx, F.add(F.mul(v, i2), F.mul(F.smul(u, 2), i3)))
        return (F.mul(self.s2, X_), F.mul(self.s3, F.mul(y, dx)))
# kernel of the 11-isogeny E1' -> E1: the five roots found by factoring the 11-division polynomial
K11 = None
def _iso1():
    from refconst import K11 as k
    return Velu(Fp1, A1, B1, k, 0x6e08c248e260e70bd1e962381edee3d31d79d7e22c837bc23c0bf1bc24c6b68c24b1b80b64d391fa9c8ba2e8ba2d229,
                0x15e6be4e990f03ce4ea50b3b42df2eb5cb181d8f84965a3957add4fa95af01b2b665027efec01c7704b456be69c8b604, 0, 4)
def _iso2():
    return Velu(Fp2, A2, B2, [(P - 6, 6)], (0x171d6541fa38ccfaed6dea691f5fb614cb14b4e7f4e810aa22d6108f142b85757098e38d0f671c7188e2aaaaaaaa5ed1, 0),
                (0x124c9ad43b6cf79bfbf7043de3811ad0761b0f37a1e26286b0e977c69aa274524e79097a56dc4bd9e1b371c71c718b10, 0), F2Z, (4, 4))
_iso = {}
def iso1(p):
    if 1 not in _iso: _iso[1] = _iso1()
    return _iso[1](p)
def iso2(p):
    if 2 not in _iso: _iso[2] = _iso2()
    return _iso[2](p)
HEFF1 = 0xd201000000010001
HEFF2 = 0xbc69f08f2ee75b3584c6a0ea91b352888e2a8e9145ad7689986ff031508ffe1329c2f178731db956d82bf015d1212b02ec0ec69d7477c1ae954cbc06689f6a359894c0adebbf6b4e8020005aaa95551
def clear2_slow(p): return E2.mul(p, HEFF2)
def clear2(p):
    """[h_eff]P through the endomorphism (checked against the literal multiple by selftest)"""
    if p is None: return None
    xp = E2.mul(p, X)
    x2p = E2.mul(xp, X)
    t = E2.sub(E2.sub(x2p, xp), p)
    t = E2.add(t, psi(E2.sub(xp, p)))
    return E2.add(t, psi(E2.dbl(p), 2))
def map_g1(u): return E1.mul(iso1(swu1(u)), HEFF1)
def map_g2(u): return clear2(iso2(swu2(u)))
def hash_g2(msg, dst):
    u0, u1 = hash_to_field2(msg, dst)
    return clear2(E2.add(iso2(swu2(u0)), iso2(swu2(u1))))
DST_SIG = b"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_"
DST_POP = b"BLS_POP_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_"

# ---------------------------------------------------------------- encodings
def lexlarge1(y): return y > (P - 1) // 2
def lexlarge2(y): return y[1] > (P - 1) // 2 or (y[1] == 0 and y[0] > (P - 1) // 2)
def i2b(a): return a.to_bytes(48, 'big')
def comp1(p):
    if p is None: return bytes([0xc0]) + bytes(47)
    b = bytearray(i2b(p[0])); b[0] |= 0x80 | (0x20 if lexlarge1(p[1]) else 0)
    return bytes(b)
def comp2(p):
    if p is None: return bytes([0xc0]) + bytes(95)
    b = bytearray(i2b(p[0][1]) + i2b(p[0][0])); b[0] |= 0x80 | (0x20 if lexlarge2(p[1]) else 0)
    return bytes(b)
def decomp(E, b):
    """point, None for infinity, False when rejected"""
    c, i, s = b[0] >> 7, b[0] >> 6 & 1, b[0] >> 5 & 1
    if not c: return False
    if i: return None if b[0] == 0xc0 and not any(b[1:]) else False
    n = bytes([b[0] & 0x1f]) + b[1:]
    if E is E1:
        x = int.from_bytes(n, 'big')
        if x >= P: return False
        y = sqrt(E.rhs(x)); big = lexlarge1
    else:
        x = (int.from_bytes(n[48:], 'big'), int.from_bytes(n[:48], 'big'))
        if x[0] >= P or x[1] >= P: return False
        y = f2sqrt(E.rhs(x)); big = lexlarge2
    if y is None: return False
    if big(y) != bool(s): y = E.F.neg(y)
    if big(y) != bool(s): return False
    return (x, y)

# ---------------------------------------------------------------- keys
def hmac(k, m): return _hmac.new(k, m, hashlib.sha256).digest()
def hkdf_expand(prk, info, n):
    out = b''; t = b''; i = 1
    while len(out) < n:
        t = hmac(prk, t + info + bytes([i])); out += t; i += 1
    return out[:n]
def keygen(seed):
    if len(seed) < 32: return 0
    salt = b"BLS-SIG-KEYGEN-SALT-"
    while True:
        okm = hkdf_expand(hmac(salt, seed + b'\0'), b'\0\x30', 48)
        sk = int.from_bytes(okm, 'big') % R
        if sk: return sk
        salt = sha(salt)
def lamport_sk(ikm, salt): return hkdf_expand(hmac(salt, ikm), b'', 255 * 32)
def lamport_pk(sk, index):
    salt = index.to_bytes(4, 'big'); ikm = sk.to_bytes(32, 'big')
    out = b''
    for k in (ikm, bytes(b ^ 255 for b in ikm)):
        l = lamport_sk(k, salt)
        out += b''.join(sha(l[i:i + 32]) for i in range(0, 255 * 32, 32))
    return sha(out)
def hardened(sk, index): return keygen(lamport_pk(sk, index))
def unh_nonce(enc, index): return int.from_bytes(sha(enc + index.to_bytes(4, 'big')), 'big') % R
def pop_msg(p):
    """the library's message for a proof of possession: affine little-endian public key"""
    if p is None: return bytes(96)
    return p[0].to_bytes(48, 'little') + p[1].to_bytes(48, 'little')

def selftest():
    import random
    rng = random.Random(5)
    a = tuple((rng.randrange(P), rng.randrange(P)) for _ in range(6))
    b = tuple((rng.randrange(P), rng.randrange(P)) for _ in range(6))
    # packed multiplication against schoolbook
    c = [F2Z] * 11
    for i in range(6):
        for j in range(6): c[i + j] = f2add(c[i + j], f2mul(a[i], b[j]))
    for i in range(10, 5, -1): c[i - 6] = f2add(c[i - 6], f2mul(XI, c[i]))
    assert tuple(c[:6]) == f12mul(a, b)
    assert f12mul(a, f12inv(a)) == F12O
    assert f12frob(a, 1) == f12pow(a, P)
    assert f12frob(a, 6) == f12conj(a)
    assert E1.on(E1.gen) and E2.on(E2.gen) and E1.insub(E1.gen) and E2.insub(E2.gen)
    for E in (E1, E2):
        p = random_point(E, rng)
        assert E.mul(p, E.order) is None and not E.insub(p)
        assert E.mul(p, 12345) == E.add(E.mul(p, 12000), E.mul(p, 345))
        assert E.gmul(98765432123456789) == E.mul(E.gen, 98765432123456789)
    p = random_point(E2, rng)
    assert clear2(p) == clear2_slow(p)
    q = hash_g2(b"", b"QUUX-V01-CS02-with-BLS12381G2_XMD:SHA-256_SSWU_RO_")
    assert q[0] == (0x0141ebfbdca40eb85b87142e130ab689c673cf60f1a3e98d69335266f30d9b8d4ac44c1038e9dcdd5393faf5c41fb78a,
                    0x05cb8437535e20ecffaef7752baddf98034139c38452458baeefab379ba13dff5bf5dd71b72418717047f5b0f37da03d)
    e = ate(E1.gen, E2.gen)
    assert e != F12O and f12pow(e, R) == F12O
    assert ate(E1.gmul(5), E2.gmul(7)) == f12pow(e, 35)
    return True
