"""C13, C15-C21, C27: hashing to G2, signatures, aggregation, proofs of possession, key derivation, hex."""
import random
import ref
from ref import P, R, E1, E2, DST_SIG, DST_POP
from gen import *
from harness import Job, Check, V, C

CHECKS = {}
def reg(c): CHECKS[c.id] = c
def b01(x): return '1' if x else '0'
def SK(k): return W(k, 4)
def g1aff(reply, p):
    if p is None: return K1.same(reply, None)
    return None if reply == K1.aff(p) else K1.same(reply, p) or 'not in affine form'

# ------------------------------------------------------------------ C13
EDGE_LEN = [0, 1, 2, 31, 32, 33, 54, 55, 56, 57, 62, 63, 64, 65, 118, 119, 120, 127, 128, 129, 183, 184, 191, 192, 255, 256, 257, 1023, 1024, 4095, 4096, 65535, 65536]
def synth(n, seed):
    """the same bytes as the driver's z:<len>:<seed>"""
    M = (1 << 64) - 1; x = (seed * 0x9E3779B97F4A7C15 + 1) & M; out = bytearray(n)
    for i in range(n):
        x ^= x << 13 & M; x ^= x >> 7; x ^= x << 17 & M; out[i] = x >> 32 & 255
    return bytes(out)
def h2(m, d, cls):
    return ('h2g2 %s %s' % (HB(m), HB(d)), C(lambda r, m, d: K2.same(r, ref.hash_g2(m, d)), m, d), cls)
def rdst(rng, lit):
    t = rng.random()
    if t < .2: return DST_SIG
    if t < .3: return DST_POP
    if t < .35: return b'QUUX-V01-CS02-with-BLS12381G2_XMD:SHA-256_SSWU_RO_'
    if lit.newstr and t < .5: return rng.choice(lit.newstr).encode()
    z = lit.sizes(2000)
    if z and t < .6: return rng.randbytes(rng.choice(z))
    return rng.randbytes(rng.choice((0, 1, 16, 31, 32, 43, 63, 64, 127, 128, 200, 253, 254, 255, 256, 257, 300, 511, 512, 1000)))
def c13(ctx):
    rng, lit = ctx.rng, ctx.lit
    for n in ctx.mine(list(range(0, 300 if not ctx.thorough else 1100, 1 if ctx.thorough else 3)) + EDGE_LEN + [b + k for b in [64 * i for i in range(1, 33)] + [1 << i for i in range(11, 18)] + [3000, 5000, 10000, 20000, 40000, 100000] for k in (-1, 0, 1, rng.randrange(2, 63))] + lit.sizes(1 << 16)[:40]):
        yield h2(rng.randbytes(n), rng.choice((DST_SIG, DST_SIG, rdst(rng, lit))), 'message length sweep')
    for n in ctx.mine(list(range(0, 256, 5 if not ctx.thorough else 1)) + [1, 43, 254, 255, 256, 257, 258, 287, 288, 300, 510, 511, 512, 513, 767, 768, 1000, 4096, 65535, 65536, 65537] + lit.sizes(70000)[:40]):
        yield h2(msg(rng, lit), rng.randbytes(n), 'tag longer than 255' if n > 255 else 'tag length sweep')
    for _ in range(ctx.n(500, 30000)): yield h2(msg(rng, lit), rdst(rng, lit), 'random message and tag')
    for n in ctx.mine((1 << 16, 100000) if not ctx.thorough else (1 << 16, 1 << 20, 3000001)):
        yield ('h2g2 z:%d:%d %s' % (n, n % 97, HB(DST_SIG)), C(lambda r, n: K2.same(r, ref.hash_g2(synth(n, n % 97), DST_SIG)), n), 'long message')
    # tags that contain zero bytes, look like text, or are prefixes of each other
    m = msg(rng, lit)
    for d in ctx.mine([b'\0', b'\0\0', b'a\0b', b'\xff' * 255, b'\xff' * 256, b'\0' * 255, b'\0' * 256, b'H2C-OVERSIZE-DST-', b'big', DST_SIG[:-1], DST_SIG + b'_', DST_SIG + b'\0']):
        yield h2(m, d, 'special tag')
def c13_big(ctx):
    for n in ctx.mine([1 << 29, (1 << 31) + 5] + ([(1 << 32) + 3] if ctx.thorough else [])):
        yield ('bigmsg h2g2 %d' % n, C(lambda r, n: None if r == 'nomem' else K2.same(r, BIGH[n]), n), 'message of %d bytes' % n)
from bighash import BIGH
reg(Check('C13', 'Messages of every length in a sweep (0..300 and SHA-256 block edges), long ones up to beyond 2^31 bytes; tags of every length class 0..255, longer than 255 (hashed first), with zero bytes; random and structured contents. Exact point expected from an independent RFC 9380 implementation (expand_message_xmd with hashlib, simplified SWU, Velu-computed isogeny, literal effective cofactor validated against psi form). Distinct = distinct request.',
          jobs=lambda tier: [Job('hash', c13, batch=60), Job('huge', c13_big, shards=3, batch=1)]))

# ------------------------------------------------------------------ keys, messages and signatures with known logarithms
def ownmsgs(pk, rng, more=()):
    """messages that are encodings of the key they are signed with (or of several)"""
    if pk is None: return [bytes(96), b'\xc0' + bytes(47)]
    x, y = (c.to_bytes(48, 'big') for c in pk)
    l = [K1.comp(pk), x, x[::-1], x + y, x[::-1] + y[::-1], y + x, x + y + bytes(47) + b'\1', x[::-1] + y[::-1] + b'\1' + bytes(47), K1.comp(pk) + rng.randbytes(rng.choice((0, 1, 4, 32)))]
    l.append(b''.join(K1.comp(q) for q in (pk,) + tuple(more) if q)); l.append(K1.comp(pk).hex().encode())
    return l
class Sigs:
    def __init__(self, rng, lit, nm=6, nk=16, msgs=None):
        self.rng, self.lit = rng, lit
        self.a0, self.d = rng.randrange(1, R), rng.choice((1, rng.randrange(1, R)))
        self.nk = nk
        self.a = [(self.a0 + k * self.d) % R for k in range(nk)]
        p, s = E1.gmul(self.a0), E1.gmul(self.d)
        self.A = []
        for _ in range(nk): self.A.append(p); p = E1.add(p, s)
        self.m = msgs or self.messages(nm)
        self.H = []; self.S = []
        for m in self.m:
            h = ref.hash_g2(m, DST_SIG); self.H.append(h)
            q, t = E2.mul(h, self.a0), E2.mul(h, self.d)
            row = []
            for _ in range(nk): row.append(q); q = E2.add(q, t)
            self.S.append(row)
    def messages(self, nm):
        rng = self.rng
        l = [rng.choice((b'', b'\0', rng.randbytes(32)))]
        while len(l) < nm:
            b = rng.choice(l); t = rng.random()
            if t < .35: m = msg(rng, self.lit)
            elif t > .88: m = rng.choice(ownmsgs(rng.choice(self.A), rng, (rng.choice(self.A),)))
            elif t < .5: m = b + rng.choice((b'\0', b'\1', rng.randbytes(rng.choice((1, 2, 32, 33)))))      # a prefix of another
            elif t < .6: m = b[:-1]
            elif b:
                c = bytearray(b); c[rng.choice((0, -1, rng.randrange(len(c))))] ^= 1 << rng.randrange(8); m = bytes(c)
            else: m = rng.randbytes(rng.randrange(100))
            if m not in l: l.append(m)
        rng.shuffle(l)
        return l
    def sum(self, terms):
        """sum over (key, message) of a_k H_m"""
        q = None
        for k, j in terms: q = E2.add(q, self.S[j][k])
        return q
def offcurve(K, rng, p, lit=None):
    """(text, kind): a triple that is no representation of a curve point"""
    F, E = K.F, K.E
    while True:
        t = rng.randrange(9)
        z = rng.choice((F.one, F.one, K.rz(rng, lit)))
        small = lambda: rng.choice((F.zero, F.one, F.neg(F.one), p[0], p[1], K.rf(rng)))
        if t == 0:
            u = K.rf(rng); u2 = F.sqr(u); c = (F.mul(p[0], u2), F.mul(p[1], F.mul(u2, u))); kind = 'isomorphic curve'
        elif t == 1: c = (small(), F.zero); kind = 'y zero'
        elif t == 2: c = (F.zero, F.zero); kind = 'x and y zero'
        elif t == 3: c = (F.zero, small()); kind = 'x zero'
        elif t == 4: c = (p[0], F.add(p[1], F.one)); kind = 'y off by one'
        elif t == 5: c = (F.add(p[0], F.one), p[1]); kind = 'x off by one'
        elif t == 6: c = (p[1], p[0]); kind = 'swapped'
        elif t == 7: c = (p[0], small()); kind = 'y replaced'
        else: c = (small(), p[1]); kind = 'x replaced'
        if E.on(c): continue
        return K.J(E.jac(c, z)), kind
def torsioned(K, p, rng):
    q = rng.choice(list(K.tors)); t = rng.choice(K.tors[q])
    if q < 10**9 and rng.random() < .5: t = K.E.mul(t, rng.randrange(1, q))
    if rng.random() < .25:
        q2 = rng.choice(list(K.tors)); t = K.E.add(t, rng.choice(K.tors[q2]))
        if t is None: t = K.tors[q][0]
    return K.E.add(p, t), t

def c15(ctx):
    rng, lit = ctx.rng, ctx.lit
    E, G = E2, E1
    def vf(pktxt, m, sigtxt, ok, cls): return ('verify %s %s %s' % (pktxt, HB(m), sigtxt), b01(ok), cls)
    for rnd in range(ctx.rounds(2, 40)):
        S = Sigs(rng, lit, 6, 14)
        # signing
        for _ in range(10):
            j, k = rng.randrange(6), rng.randrange(14)
            yield ('sign %s %s' % (SK(S.a[k]), HB(S.m[j])), C(lambda r, p: K2.same(r, p), S.S[j][k]), 'sign')
        for e in [rng.choice(SC_EDGES)] + [scal(rng, lit) for _ in range(2)]:
            j = rng.randrange(6)
            yield ('sign %s %s' % (SK(e % (1 << 256)), HB(S.m[j])), C(lambda r, h, e: K2.same(r, E2.mul(h, e)), S.H[j], e % (1 << 256)), 'sign edge key')
        for _ in range(110):
            j, k = rng.randrange(6), rng.randrange(14)
            pk, s, m = S.A[k], S.S[j][k], S.m[j]
            r1 = lambda p: K1.rep(p, rng, lit)
            r2 = lambda p: K2.rep(p, rng, lit)
            t = rng.randrange(20)
            if t < 4: yield vf(r1(pk), m, r2(s), True, 'genuine')
            elif t == 4: yield vf(r1(G.neg(pk)), m, r2(E.neg(s)), True, 'genuine, key and signature negated')
            elif t == 5:
                if rng.random() < .5: yield vf(r1(G.neg(pk)), m, r2(s), False, 'negated key')
                else: yield vf(r1(pk), m, r2(E.neg(s)), False, 'negated signature')
            elif t == 6:
                k2 = rng.choice([x for x in range(14) if x != k])
                yield vf(r1(S.A[k2]), m, r2(s), S.a[k] == S.a[k2], 'other key')
            elif t == 7:
                j2 = rng.choice([x for x in range(6) if x != j])
                yield vf(r1(pk), S.m[j2], r2(s), False, 'other message')
            elif t == 8:
                d = rng.choice((E2.gen, S.H[j], E2.neg(S.H[j]), S.S[rng.randrange(6)][rng.randrange(14)], s))
                q = E.add(s, d); yield vf(r1(pk), m, r2(q), q == s, 'perturbed signature')
            elif t in (9, 10):
                q, _ = torsioned(K2, s, rng); yield vf(r1(pk), m, r2(q), False, 'signature plus small-order point')
            elif t in (11, 12):
                q, _ = torsioned(K1, pk, rng); yield vf(r1(q), m, r2(s), False, 'key plus small-order point')
            elif t == 13:
                q, x = torsioned(K1, None, rng); y = rng.choice((None, s, torsioned(K2, None, rng)[0]))
                yield vf(r1(q), m, r2(y), False, 'small-order key')
            elif t == 14:
                y, x = torsioned(K2, None, rng); q = rng.choice((None, pk))
                yield vf(r1(q), m, r2(y), False, 'small-order signature')
            elif t == 15:
                o, kd = offcurve(K1, rng, pk, lit); yield vf(o, m, r2(rng.choice((s, s, None))), False, 'off-curve key: ' + kd)
            elif t == 16:
                o, kd = offcurve(K2, rng, s, lit); yield vf(r1(rng.choice((pk, pk, None))), m, o, False, 'off-curve signature: ' + kd)
            elif t == 17:
                o, kd = offcurve(K1, rng, pk, lit); o2, kd2 = offcurve(K2, rng, s, lit); yield vf(o, m, o2, False, 'both off-curve')
            elif t == 18:
                c = rng.randrange(3)
                if c == 0: yield vf(r1(None), m, r2(None), True, 'infinity key and signature')
                elif c == 1: yield vf(r1(None), m, r2(s), False, 'infinity key')
                else: yield vf(r1(pk), m, r2(None), False, 'infinity signature')
            else:
                c = rng.randrange(8)
                if c > 3:     # signatures and keys that coincide with the other points of the equation
                    e, h = S.a[k], S.H[j]
                    if c == 4: yield vf(r1(pk), m, r2(h), e == 1, 'signature equals the hash point')
                    elif c == 5: yield vf(r1(pk), m, r2(E2.neg(h)), e == R - 1, 'signature equals the negated hash point')
                    elif c == 6: g = rng.choice((1, -1)); yield vf(r1(E1.gmul(g % R)), m, r2(h if g > 0 else E2.neg(h)), True, 'key is the generator')
                    else: g = rng.choice((1, R - 1)); yield vf(r1(E1.gmul(g)), m, r2(rng.choice((s, E2.neg(h) if g == 1 else h, S.H[(j + 1) % 6]))), False, 'key is the generator, other signature')
                elif c == 0: yield vf(r1(pk), m, r2(E2.gmul(rng.choice((1, S.a[k], 2)))), False, 'multiple of the generator')
                elif c == 1: yield vf(r1(ref.E1.mul(pk, rng.choice((2, 3, R - 2)))), m, r2(s), False, 'multiple of the key')
                elif c == 2: yield vf(r1(pk), m, r2(ref.psi(s, rng.choice((1, 2, 3)))), False, 'endomorphic image of the signature')
                else: yield vf(r1((pk[0] * ref.omega_candidates()[rng.randrange(2)] % P, pk[1])), m, r2(s), False, 'endomorphic image of the key')
        # every degenerate coordinate pattern with an otherwise neutral partner
        z1, z2 = K1.F, K2.F
    v1 = [0, 1, P - 1, E1.gen[0], E1.gen[1], 4]; v2 = [(0, 0), (1, 0), (0, 1), E2.gen[0], E2.gen[1], (4, 4)]
    m = S.m[0]
    for x, y in ctx.mine((x, y) for x in range(6) for y in range(6)):
        for nz in (0, 1):
            if not E1.on((v1[x], v1[y])):
                z = K1.rz(rng) if nz else 1
                for sg in (None, S.S[0][0]): yield vf(K1.J(E1.jac((v1[x], v1[y]), z)), m, K2.rep(sg, rng, lit), False, 'degenerate key coordinates')
            if not E2.on((v2[x], v2[y])):
                z = K2.rz(rng) if nz else (1, 0)
                for p in (None, S.A[0]): yield vf(K1.rep(p, rng, lit), m, K2.J(E2.jac((v2[x], v2[y]), z)), False, 'degenerate signature coordinates')
    for K, pts in ((K1, S.A), (K2, S.S[0])):
        for q in ctx.mine(K.tors):
            for t in K.tors[q]:
                if K is K1: yield vf(K1.rep(E1.add(S.A[0], t), rng, lit), m, K2.rep(S.S[0][0], rng, lit), False, 'key shifted by order %s' % (q if q < 10**9 else 'big'))
                else: yield vf(K1.rep(S.A[0], rng, lit), m, K2.rep(E2.add(S.S[0][0], t), rng, lit), False, 'signature shifted by order %s' % (q if q < 10**9 else 'big'))
                if K is K1: yield vf(K1.rep(t, rng, lit), m, K2.rep(None, rng, lit), False, 'key of order %s' % (q if q < 10**9 else 'big'))
                else: yield vf(K1.rep(None, rng, lit), m, K2.rep(t, rng, lit), False, 'signature of order %s' % (q if q < 10**9 else 'big'))
reg(Check('C15', 'Signing against the reference multiple of the reference hash point; verification of (key, message, signature) triples built from known logarithms, so that the right verdict is computed and not assumed: genuine, other key, other message (incl. prefixes, single-bit changes, empty), negated, perturbed, shifted by points of every small order, small-order, off-curve (isomorphic curves, degenerate coordinates in every combination), infinity in either place, endomorphic images; in every projective representation. Distinct = distinct request and class.',
          jobs=lambda tier: [Job('sigs', c15, batch=400)]))

# ------------------------------------------------------------------ C16
def c16_agg(ctx, K):
    rng, lit = ctx.rng, ctx.lit
    E = K.E
    op = 'aggpk' if K.n == 1 else 'aggsig'
    pool = [p for p, _ in K.pool(rng, 40)]
    def req(pts, mask, cls):
        s = None
        for p, c in zip(pts, mask):
            if c == '1': s = E.add(s, p)
        n = len(pts)
        return ('%s %s%s' % (op, mask or '-', ''.join(' ' + K.rep(p, rng, lit) for p in pts)), C(lambda r, s: K.same(r, s), s), '%s %s' % (op, cls))
    yield req([], '', 'empty')
    for _ in range(ctx.n(220 if K.n == 1 else 130, 9000)):
        n = rng.choice((1, 2, 2, 3, 3, 4, 5, 8, 13, 20, 33)) if rng.random() < .97 or not lit.newsmall else rng.choice(lit.sizes(300) or [1])
        t = rng.random()
        if t < .15: p = rng.choice(pool); pts = [p] * n; cls = 'equal entries'
        elif t < .3:
            p = rng.choice(pool); pts = [p if i % 2 else E.neg(p) for i in range(n)]; cls = 'cancelling entries'
        elif t < .36: pts = [None] * n; cls = 'all infinity'
        elif t < .46: pts = [rng.choice(pool)] + [None] * (n - 1); rng.shuffle(pts); cls = 'mostly infinity'
        else: pts = [rng.choice(pool) for _ in range(n)]; cls = 'mixed'
        u = rng.random()
        if u < .4: mask = '1' * n
        elif u < .5: mask = '0' * n; cls += ', none selected'
        elif u < .6: mask = '0' * (n - 1) + '1'
        elif u < .7: mask = '1' + '0' * (n - 1)
        elif u < .8: mask = ('01' * n)[:n]
        else: mask = ''.join(rng.choice('01') for _ in range(n))
        yield req(pts, mask, cls)
        if rng.random() < .3 and n > 1:      # the same set in another order
            o = list(range(n)); rng.shuffle(o)
            yield req([pts[i] for i in o], ''.join(mask[i] for i in o), cls + ', reordered')
    for n in ctx.mine((65, 257, 300) if not ctx.thorough else (65, 257, 300, 1000, 4097)):
        yield req([rng.choice(pool) for _ in range(n)], ''.join(rng.choice('01') for _ in range(n)) if rng.random() < .5 else '1' * n, 'long list')
def c16_verify(ctx):
    rng, lit = ctx.rng, ctx.lit
    def av(dup, pks, msgs, sig, ok, cls):
        r1 = [p if isinstance(p, str) else K1.rep(p, rng, lit) for p in pks]
        s = sig if isinstance(sig, str) else K2.rep(sig, rng, lit)
        return ('aggverify %d %d %d%s%s %s' % (dup, len(pks), len(msgs), ''.join(' ' + x for x in r1), ''.join(' ' + HB(m) for m in msgs), s), b01(ok), cls)
    for rnd in range(ctx.rounds(2, 60)):
        NM, NK = 7, 12
        S = Sigs(rng, lit, NM, NK)
        for _ in range(95):
            t = rng.randrange(21)
            n = rng.choice((1, 2, 2, 3, 3, 4, 5, 6, 7))
            js = rng.sample(range(NM), n); ks = [rng.randrange(NK) for _ in range(n)]
            if rng.random() < .2: ks = [ks[0]] * n
            dup = rng.randrange(2)
            pks = [S.A[k] for k in ks]; ms = [S.m[j] for j in js]
            sig = S.sum(zip(ks, js))
            if t < 3: yield av(dup, pks, ms, sig, True, 'genuine')
            elif t == 3:    # repeated messages
                js2 = [rng.choice(js[: max(1, n // 2)]) for _ in range(n)]; sig = S.sum(zip(ks, js2))
                distinct = len(set(js2)) == n
                yield av(dup, pks, [S.m[j] for j in js2], sig, not dup or distinct, 'repeated messages, checked' if dup else 'repeated messages')
            elif t == 4 and n > 1:   # exactly one repetition, anywhere
                i, l = rng.sample(range(n), 2); js2 = list(js); js2[i] = js2[l]; sig = S.sum(zip(ks, js2))
                yield av(dup, pks, [S.m[j] for j in js2], sig, not dup, 'one repeated message, checked' if dup else 'one repeated message')
            elif t == 5:
                o = list(range(n)); rng.shuffle(o); sig2 = S.sum(zip(ks, [js[i] for i in o]))
                yield av(dup, pks, ms, sig2, sig2 == sig, 'messages permuted against keys')
            elif t == 6:
                i = rng.randrange(n); yield av(dup, pks, ms, E2.sub(sig, S.S[js[i]][ks[i]]), S.a[ks[i]] == 0, 'one signature missing')
            elif t == 7:
                i = rng.randrange(n); k2 = rng.randrange(NK)
                yield av(dup, pks[:i] + [S.A[k2]] + pks[i + 1:], ms, sig, S.a[k2] == S.a[ks[i]], 'one key replaced')
            elif t == 8:
                c = rng.randrange(4)
                if c == 0: yield av(dup, pks, ms[:-1], S.sum(zip(ks[:-1], js[:-1])), False, 'more keys than messages')
                elif c == 1: yield av(dup, pks[:-1], ms, S.sum(zip(ks[:-1], js[:-1])), False, 'more messages than keys')
                elif c == 2: yield av(dup, pks + [None], ms, sig, False, 'extra infinity key')
                else: yield av(dup, pks, ms + [rng.choice(ms)], sig, False, 'extra repeated message')
            elif t == 9:
                c = rng.randrange(5)
                if c == 0: yield av(dup, [], [], None, True, 'no keys, infinity signature')
                elif c == 1: yield av(dup, [], [], sig, sig is None, 'no keys')
                elif c == 2: yield av(dup, [], ms, None, False, 'messages without keys')
                elif c == 3: yield av(dup, pks, [], None, False, 'keys without messages')
                else: yield av(dup, [], [], torsioned(K2, None, rng)[0], False, 'no keys, small-order signature')
            elif t == 10:
                q, _ = torsioned(K2, sig, rng); yield av(dup, pks, ms, q, False, 'signature plus small-order point')
            elif t == 11:
                i = rng.randrange(n); q, _ = torsioned(K1, pks[i], rng)
                yield av(dup, pks[:i] + [q] + pks[i + 1:], ms, sig, False, 'key plus small-order point')
            elif t == 12 and n > 1:     # two bad keys whose defects cancel
                i, l = sorted(rng.sample(range(n), 2)); q, tt = torsioned(K1, pks[i], rng)
                p2 = list(pks); p2[i] = q; p2[l] = E1.sub(pks[l], tt)
                if rng.random() < .5:
                    js2 = list(js); js2[l] = js2[i]; yield av(0, p2, [S.m[j] for j in js2], S.sum(zip(ks, js2)), False, 'cancelling small-order parts')
                else: yield av(dup, p2, ms, sig, False, 'cancelling small-order parts')
            elif t == 13:
                i = rng.randrange(n); o, kd = offcurve(K1, rng, pks[i], lit)
                yield av(dup, pks[:i] + [o] + pks[i + 1:], ms, rng.choice((sig, E2.sub(sig, S.S[js[i]][ks[i]]))), False, 'off-curve key')
            elif t == 14:
                o, kd = offcurve(K2, rng, S.S[0][0], lit); yield av(dup, pks if rng.random() < .7 else [], ms, o, False, 'off-curve signature')
            elif t == 15:      # infinity keys contribute nothing
                i = rng.randrange(n)
                yield av(dup, pks[:i] + [None] + pks[i + 1:], ms, E2.sub(sig, S.S[js[i]][ks[i]]), True, 'one infinity key')
            elif t > 16:      # runs of infinity, equal and opposite keys anywhere, with at most one defect anywhere
                n = rng.randrange(2, NM + 1); js = rng.sample(range(NM), n); dup = rng.randrange(2)
                p2 = []; comp = []
                for i in range(n):
                    u = rng.random(); k = rng.randrange(NK)
                    if u < .4: p2.append(None); comp.append(None); continue
                    if u < .6 and p2: p2.append(p2[-1]); comp.append(comp[-1] and (comp[-1][0], comp[-1][1])); continue
                    if u < .75 and p2 and p2[-1]: p2.append(E1.neg(p2[-1])); comp.append((comp[-1][0], -comp[-1][1])); continue
                    p2.append(S.A[k]); comp.append((k, 1))
                sg = None; ms = [S.m[j] for j in js]
                for c, j in zip(comp, js):
                    if c: sg = E2.add(sg, S.S[j][c[0]] if c[1] > 0 else E2.neg(S.S[j][c[0]]))
                d = rng.randrange(4); i = rng.randrange(n)
                if rng.random() < .5: i = n - 1
                if d == 0: yield av(dup, p2, ms, sg, True, 'infinity, equal and opposite keys')
                elif d == 1:
                    k = rng.randrange(NK); old = p2[i]; p2[i] = S.A[k]
                    yield av(dup, p2, ms, sg, old == p2[i], 'infinity, equal and opposite keys, one replaced')
                elif d == 2:
                    q, _ = torsioned(K1, p2[i], rng); p2[i] = q
                    yield av(dup, p2, ms, sg, False, 'infinity, equal and opposite keys, one with a small-order point')
                else:
                    k = rng.randrange(NK)
                    yield av(dup, p2, ms, E2.add(sg, S.S[js[i]][k]), False, 'infinity, equal and opposite keys, one signature too many')
            elif rng.random() < .5:     # a sum of key and hash pairs whose signature coincides with a hash point or key images
                i = rng.randrange(n); h = S.H[js[i]]
                yield av(dup, pks, ms, h, sig == h, 'signature equals a hash point')
                yield av(dup, pks + [E1.gen], ms + [b'']if b'' not in ms else ms + [bytes(77)], E2.add(sig, ref.hash_g2(b'' if b'' not in ms else bytes(77), DST_SIG)), True, 'with the generator as key')
            else:             # keys cancelling on one message
                k = rng.randrange(NK); j = rng.randrange(NM)
                yield av(dup, [S.A[k], E1.neg(S.A[k])], [S.m[j]] * 2, None, not dup, 'opposite keys on one message')
    # long lists: beyond every batching threshold
    for n in ctx.mine((19, 20, 21, 25, 33) if not ctx.thorough else list(range(16, 70, 3)) + [150]):
        S2 = Sigs(rng, lit, 1, 12); base = [rng.randbytes(5) + bytes([i]) for i in range(4)]
        S3 = Sigs(rng, lit, 4, 12, base)
        kj = [(rng.randrange(12), rng.randrange(4)) for _ in range(n)]; sig = S3.sum(kj)
        pks = [S3.A[k] for k, _ in kj]; ms = [S3.m[j] for _, j in kj]
        yield av(0, pks, ms, sig, True, 'long list')
        yield av(1, pks, ms, sig, False, 'long list with repetitions')
        i = rng.choice((0, n - 1, rng.randrange(n)))
        yield av(0, pks[:i] + [S3.A[(kj[i][0] + 1) % 12]] + pks[i + 1:], ms, sig, False, 'long list, one key replaced')
        yield av(0, pks[:-1] + [torsioned(K1, pks[-1], rng)[0]], ms, sig, False, 'long list, last key shifted')
def c16(ctx):
    yield from c16_verify(ctx)
    for K in KITS: yield from c16_agg(ctx, K)
reg(Check('C16', 'Aggregation through the list, accessor and predicate forms (which entries are consulted is recorded) over lists up to hundreds of points with equal, opposite, infinity and small-order entries in any order and representation. Aggregate verification over lists with known logarithms: genuine, permuted, missing, replaced, repeated messages (adjacent or not, prefixes), different list lengths, empty lists, infinity keys, keys or signatures shifted by small-order points (also cancelling ones), off-curve; lists beyond 20 pairs. Verdict computed from the logarithms. Distinct = distinct request and class.',
          jobs=lambda tier: [Job('agg', c16, batch=150)]))

# ------------------------------------------------------------------ C17
def c17(ctx):
    rng, lit = ctx.rng, ctx.lit
    def pv(pk, s, ok, cls): return ('popverify %s %s' % (pk if isinstance(pk, str) else K1.rep(pk, rng, lit), s if isinstance(s, str) else K2.rep(s, rng, lit)), b01(ok), cls)
    def vf(pk, m, s, ok, cls): return ('verify %s %s %s' % (K1.rep(pk, rng, lit), HB(m), K2.rep(s, rng, lit)), b01(ok), cls)
    prev = None
    for i in range(ctx.n(100, 3500)):
        a = skv(rng, lit) if i else rng.randrange(R)
        if i and rng.random() < .1: a = rng.choice((0, 1, 2, R - 1))
        pk = E1.gmul(a); m = ref.pop_msg(pk); h = ref.hash_g2(m, DST_POP); s = E2.mul(h, a)
        yield ('popprove ' + SK(a), C(lambda r, s: K2.same(r, s), s), 'prove')
        yield pv(pk, s, True, 'genuine'); yield pv(pk, s, True, 'genuine')
        if prev and prev[0] != a:
            yield pv(pk, prev[2], False, 'proof of another key'); yield pv(prev[1], s, False, 'proof of another key')
        if a:
            yield pv(E1.neg(pk), E2.neg(s), False, 'negated key and proof'); yield pv(pk, E2.neg(s), False, 'negated proof')
            hs = ref.hash_g2(m, DST_SIG); sg = E2.mul(hs, a)
            yield pv(pk, sg, False, 'ordinary signature on the key bytes')
            yield vf(pk, m, s, False, 'proof as ordinary signature')
            yield vf(pk, m, sg, True, 'ordinary signature on the key bytes verifies as such')
            if rng.random() < .4:
                for mm in rng.sample((K1.comp(pk), m[:48], pk[0].to_bytes(48, 'big') + pk[1].to_bytes(48, 'big'), b''), 2):
                    yield pv(pk, E2.mul(ref.hash_g2(mm, DST_POP), a), False, 'proof over other bytes')
            yield pv(pk, torsioned(K2, s, rng)[0], False, 'proof plus small-order point')
            q, _ = torsioned(K1, pk, rng); yield pv(q, s, False, 'key plus small-order point')
            if rng.random() < .3: yield pv(q, E2.mul(ref.hash_g2(ref.pop_msg(q), DST_POP), a), False, 'key plus small-order point, its own bytes signed')
            yield pv(pk, None, False, 'infinity proof'); yield pv(None, s, False, 'infinity key')
            yield pv(offcurve(K1, rng, pk, lit)[0], rng.choice((s, None)), False, 'off-curve key')
            yield pv(rng.choice((pk, None)), offcurve(K2, rng, s, lit)[0], False, 'off-curve proof')
            q, _ = torsioned(K1, None, rng); yield pv(q, None, False, 'small-order key, infinity proof')
            yield pv(None, torsioned(K2, None, rng)[0], False, 'infinity key, small-order proof')
            x = E2.add(s, rng.choice((h, E2.gen, E2.neg(s)))); yield pv(pk, x, False, 'perturbed proof')
            yield pv(pk, h, a == 1, 'proof equals the hash point')
            yield pv(pk, E2.neg(h), a == R - 1, 'proof equals the negated hash point')
            prev = (a, pk, s)
    # fast aggregate verification
    def pf(pks, m, s, ok, cls):
        return ('popfast %d%s %s %s' % (len(pks), ''.join(' ' + K1.rep(p, rng, lit) for p in pks), HB(m), s if isinstance(s, str) else K2.rep(s, rng, lit)), b01(ok), 'fast: ' + cls)
    for rnd in range(ctx.rounds(1, 40)):
        NM, NK = 5, 14
        S = Sigs(rng, lit, NM, NK)
        for _ in range(90):
            n = rng.choice((1, 1, 2, 2, 3, 4, 6, 9, 14)); j = rng.randrange(NM); m = S.m[j]
            ks = [rng.randrange(NK) for _ in range(n)]
            if rng.random() < .15: ks = [ks[0]] * n
            pks = [S.A[k] for k in ks]; sig = S.sum([(k, j) for k in ks])
            t = rng.randrange(16)
            if t >= 13:       # keys cancelling inside a longer list, anywhere; the sum may equal one of the keys
                p2 = list(pks)
                for _ in range(rng.choice((1, 1, 2))):
                    c = S.A[rng.randrange(NK)]
                    p2.insert(rng.randrange(len(p2) + 1), c); p2.insert(rng.randrange(len(p2) + 1), E1.neg(c))
                if t == 13: yield pf(p2, m, sig, True, 'genuine, cancelling keys added')
                elif t == 14: yield pf(p2, m, E2.add(sig, S.S[j][rng.randrange(NK)]), False, 'cancelling keys added, signature of one more key')
                else:         # the sum is written as one more key
                    t0 = None
                    for p in pks: t0 = E1.add(t0, p)
                    if t0: yield pf(p2 + [t0], m, E2.add(sig, sig), True, 'the sum of the others is a key')
                    if t0: yield pf(p2 + [E1.neg(t0)], m, sig, sig is None, 'the negated sum of the others is a key')
            elif t < 3: yield pf(pks, m, sig, True, 'genuine')
            elif t == 3: yield pf([], m, rng.choice((None, sig, E2.gen)), False, 'no keys')
            elif t == 4: yield pf(pks, S.m[(j + 1 + rng.randrange(NM - 1)) % NM], sig, False, 'other message')
            elif t == 5: i = rng.randrange(n); yield pf(pks, m, E2.sub(sig, S.S[j][ks[i]]), False, 'one signature missing')
            elif t == 6: yield pf(pks + [S.A[rng.randrange(NK)]], m, sig, False, 'one key too many')
            elif t == 7: yield pf(pks + [E1.neg(p) for p in pks], m, None, True, 'keys cancel, infinity signature')
            elif t == 8: yield pf(pks + [E1.neg(p) for p in pks], m, sig, False, 'keys cancel')
            elif t == 9: yield pf(pks + [None], m, sig, True, 'with an infinity key')
            elif t == 10:
                q, x = torsioned(K1, pks[0], rng)
                if n > 1: yield pf([q, E1.sub(pks[1], x)] + pks[2:], m, sig, True, 'small-order parts cancel in the sum')
                yield pf([q] + pks[1:], m, sig, False, 'small-order part remains')
            elif t == 11: yield pf(pks, m, torsioned(K2, sig, rng)[0], False, 'signature plus small-order point')
            else: yield pf(pks, m, offcurve(K2, rng, sig or E2.gen, lit)[0], False, 'off-curve signature')
            if rng.random() < .2:
                pks2 = list(pks); rng.shuffle(pks2); yield pf(pks2, m, sig, True, 'genuine, reordered')
    # messages that are encodings of the keys; proofs of possession offered as signatures
    for _ in range(ctx.n(24, 600)):
        a = skv(rng, lit); n = rng.choice((1, 1, 2, 3)); ks = [a] + [rng.randrange(1, R) for _ in range(n - 1)]
        pks = [E1.gmul(k) for k in ks]; tot = sum(ks) % R; pt = E1.gmul(tot); who = rng.choice((pks[0], pt))
        m = rng.choice(ownmsgs(who, rng, tuple(pks[1:]))) if rng.random() < .6 else ref.pop_msg(who)
        sg = E2.mul(ref.hash_g2(m, DST_SIG), tot)
        yield pf(pks, m, sg, True, 'genuine, message is an encoding of a key')
        pr = E2.mul(ref.hash_g2(ref.pop_msg(pt), DST_POP), tot)
        yield pf(pks, m, pr, sg == pr, 'proof of the sum as signature')
        yield pf(pks, ref.pop_msg(pt), pr, tot == 0, 'proof of the sum as signature on the key bytes')
        pr = E2.mul(ref.hash_g2(m, DST_POP), tot)
        yield pf(pks, m, pr, sg == pr, 'hashed under the proof tag')
        yield vf(pt, m, pr, sg == pr, 'hashed under the proof tag')
        yield pv(pt, sg, False if tot else True, 'ordinary signature on an encoding of the key')
reg(Check('C17', 'Proofs of random and edge keys against the reference (secret times the hash of the affine little-endian key under the proof tag); verification of genuine proofs and of proofs of other keys, negated, perturbed, infinity, small-order-shifted, off-curve, over other byte strings, ordinary signatures used as proofs and proofs used as ordinary signatures; fast aggregate verification with known logarithms, cancelling keys, empty list. Distinct = distinct request and class.',
          jobs=lambda tier: [Job('pop', c17, batch=300)]))

# ------------------------------------------------------------------ C18
def hk(L, prk, info): return HB(ref.hkdf_expand(prk, info, L))
def c18(ctx):
    rng, lit = ctx.rng, ctx.lit
    def hm(i, k, cls): return ('hmac %s %s' % (HB(i), HB(k)), V(lambda i, k: HB(ref.hmac(k, i)), i, k), 'hmac ' + cls)
    def ex(s, i, cls): return ('extract %s %s' % (HB(s), HB(i)), V(lambda s, i: HB(ref.hmac(s, i)), s, i), 'extract ' + cls)
    def xp(L, p, i, cls): return ('expand %d %s %s' % (L, HB(p), HB(i)), V(hk, L, p, i) if 1 <= L <= 8160 else 'rc=-1', 'expand ' + cls)
    def xx(L, k, s, i, cls): return ('extexp %d %s %s %s' % (L, HB(k), HB(s), HB(i)), V(lambda L, k, s, i: hk(L, ref.hmac(s, k), i), L, k, s, i) if 1 <= L <= 8160 else 'rc=-1', 'extract-expand ' + cls)
    def xm(L, m, d, cls):
        ok = 0 <= L <= 8160 and len(d) <= 255
        return ('xmd %d %s %s' % (L, HB(m), HB(d)), V(lambda L, m, d: HB(ref.xmd(m, d, L)) if L else '-', L, m, d) if ok else 'rc=-1', 'xmd ' + cls)
    step = 1
    for n in ctx.mine(range(0, 330 if not ctx.thorough else 2100)):      # every input length against every key length class
        for k in (0, 1, 32, 63, 64, 65, 128, n, rng.randrange(300)):
            yield hm(rng.randbytes(n), rng.randbytes(k), 'length sweep')
        yield hm(rng.randbytes(rng.randrange(200)), rng.randbytes(n), 'key length sweep')
        yield ex(rng.randbytes(rng.choice((0, 4, 20, 32, 64, 65, 100))), rng.randbytes(n), 'length sweep')
        yield xp(rng.randrange(1, 200), rng.randbytes(32), rng.randbytes(n), 'info length sweep')
        yield xm(rng.choice((1, 32, 33, 256, 255)), rng.randbytes(n), rng.randbytes(rng.choice((0, 1, 43, 64, 255))), 'message length sweep')
    for L in ctx.mine([x for x in range(0, 8200) if x < 420 or x % (13 if not ctx.thorough else 1) == 0 or x % 32 in ((0, 1, 31) if ctx.thorough else (rng.randrange(32),)) or x > 8120]):
        yield xp(L, rng.randbytes(32), rng.randbytes(rng.choice((0, 1, 10, 64, 100))), 'output length sweep')
        if L < 400 or L > 8100 or ctx.thorough or L % 5 == 0: yield xm(L, msg(rng, lit), rng.randbytes(rng.choice((0, 1, 43, 255, rng.randrange(256)))), 'output length sweep')
        if L < 200 or L > 8150 or L % 11 == 0: yield xx(L, rng.randbytes(rng.randrange(80)), rng.randbytes(rng.randrange(80)), rng.randbytes(rng.randrange(80)), 'output length sweep')
    for d in ctx.mine(range(0, 300)): yield xm(rng.choice((1, 31, 32, 33, 64, 128, 256, 8160)), msg(rng, lit), rng.randbytes(d), 'tag length sweep' if d <= 255 else 'tag too long')
    for L in ctx.mine([8159, 8160, 8161, 8162, 8191, 8192, 8193, 10000, 65535, 65536, 65537, -1, -2, -31, -32, -33, -2147483648, -2147483640] + lit.sizes(70000)):
        yield xm(L, b'abc', rng.choice((b'', b'tag', rng.randbytes(255))), 'length limits')
        if L >= 0: yield xp(L, rng.randbytes(32), b'i', 'length limits'); yield xx(L, b'k', b's', b'i', 'length limits')
    for L, d in ctx.mine([(2**31 - 1, 5), (2**31 - 32, 5), (2**31 - 31, 0), (1 << 20, 5), (8161, 5), (64, 256), (64, 257), (64, 1 << 20), (64, -1), (64, -2147483648), (64, 2**31 - 1), (-5, -5), (-1, 3), (0, 256), (0, -1)]):
        yield ('xmdbig %d %d' % (L, d), 'rc=-1', 'xmd beyond the limits')
    for L in ctx.mine([8161, 8192, 65536, 2**31, 2**32, 2**32 + 1, 2**32 + 32, 2**63, 2**64 - 1, 2**64 - 31, 2**64 - 32, 0, 256 * 32, 1 << 40]):
        for o in ('expand', 'extexp'): yield ('expbig %s %d' % (o, L), 'rc=-1', o + ' beyond the limits')
    for _ in range(ctx.n(1600, 60000)):
        t = rng.randrange(5)
        if t == 0: yield hm(msg(rng, lit), msg(rng, lit), 'random')
        elif t == 1: yield ex(msg(rng, lit), msg(rng, lit), 'random')
        elif t == 2: yield xp(rng.choice((rng.randrange(1, 600), rng.randrange(1, 8161))), rng.randbytes(32), msg(rng, lit), 'random')
        elif t == 3: yield xx(rng.randrange(1, 300), msg(rng, lit), msg(rng, lit), msg(rng, lit), 'random')
        else: yield xm(rng.choice((rng.randrange(0, 600), rng.randrange(0, 8161), 32 * rng.randrange(256))), msg(rng, lit), msg(rng, lit)[:255], 'random')
    for n in ctx.mine((4095, 4096, 65535, 65536, 65537, 100001, 300000)):
        s = n % 101
        yield ('hmac z:%d:%d %s' % (n, s, HB(b'key')), V(lambda n, s: HB(ref.hmac(b'key', synth(n, s))), n, s), 'hmac long input')
        yield ('hmac %s z:%d:%d' % (HB(b'in'), n, s), V(lambda n, s: HB(ref.hmac(synth(n, s), b'in')), n, s), 'hmac long key')
        yield ('expand 77 %s z:%d:%d' % ('11' * 32, n, s), V(lambda n, s: hk(77, b'\x11' * 32, synth(n, s)), n, s), 'expand long info')
        yield ('xmd 77 z:%d:%d %s' % (n, s, HB(b'tag')), V(lambda n, s: HB(ref.xmd(synth(n, s), b'tag', 77)), n, s), 'xmd long message')
    if ctx.shard == 0:
        yield ('nullargs hmac', HB(ref.hmac(b'', b'')), 'null pointers'); yield ('nullargs extract', HB(ref.hmac(b'', b'')), 'null pointers')
        k = b'\1' + bytes(31)
        yield ('nullargs expand', hk(42, k, b''), 'null pointers'); yield ('nullargs expand-long', hk(100, k, b''), 'null pointers')
        yield ('nullargs xmd', HB(ref.xmd(b'', b'', 64)), 'null pointers')
class Zeros:
    """n zero bytes fed to hashlib piece by piece"""
    def __init__(self, n): self.n = n
    def feed(self, h):
        z = bytes(1 << 24); n = self.n
        while n: k = min(n, len(z)); h.update(z[:k] if k < len(z) else z); n -= k
        return h
def big_hmac(key, parts):
    import hashlib
    if isinstance(key, Zeros): key = key.feed(hashlib.sha256()).digest()
    key = key + bytes(64 - len(key))
    h = hashlib.sha256(bytes(x ^ 0x36 for x in key))
    for p in parts: p.feed(h) if isinstance(p, Zeros) else h.update(p)
    return hashlib.sha256(bytes(x ^ 0x5c for x in key) + h.digest()).digest()
def big_want(w, n):
    import hashlib
    z = Zeros(n); k = b'\7' + bytes(31)
    if w == 'hmackey' or w == 'extract': return HB(big_hmac(z, [k]))
    if w == 'hmacin': return HB(big_hmac(k, [z]))
    if w == 'expand': t = big_hmac(k, [z, b'\1']); return HB((t + big_hmac(k, [t, z, b'\2']))[:33])
    if w == 'xmd':
        d = k[:9] + b'\x09'
        h = hashlib.sha256(bytes(64)); z.feed(h); h.update(b'\0\x28\0' + d); b0 = h.digest()
        b1 = hashlib.sha256(b0 + b'\1' + d).digest(); b2 = hashlib.sha256(bytes(x ^ y for x, y in zip(b0, b1)) + b'\2' + d).digest()
        return HB((b1 + b2)[:40])
    if w == 'keygen':
        prk = big_hmac(b'BLS-SIG-KEYGEN-SALT-', [z, b'\0'])
        return SK(int.from_bytes(ref.hkdf_expand(prk, b'\0\x30', 48), 'big') % R)
def big(w, n): return ('bigmsg %s %d' % (w, n), V(lambda w, n: big_want(w, n), w, n), '%s, argument of 2^%d bytes or more' % (w, n.bit_length() - 1))
BIGN = (1 << 29, (1 << 29) - 65, (1 << 31) + 1, (1 << 32) + 7)
def c18_big(ctx):
    l = [('hmackey', BIGN[ctx.rng.randrange(2)]), ('hmacin', 1 << 29), ('xmd', 1 << 29), ('extract', (1 << 32) + 7)]
    if ctx.thorough: l += [(w, n) for w in ('hmackey', 'extract', 'hmacin', 'expand', 'xmd') for n in BIGN]
    for w, n in ctx.mine(l): yield big(w, n)
reg(Check('C18', 'HMAC, extract, expand, extract-then-expand and expand_message_xmd against hashlib-based definitions: every input, key, info, tag and output length in sweeps covering all block boundaries and the whole legal output range, lengths beyond the limits (also huge and negative ones, with a small buffer behind guard pages), long inputs, arguments of 2^29 to 2^32 bytes (SHA-256 length field), null pointers for empty arguments; output written twice, between canaries and against a guard page. SHA-256 itself is observed through them. Distinct = distinct request and class.',
          jobs=lambda tier: [Job('kdf', c18, batch=800), Job('huge', c18_big, shards=4, batch=1)]))

# ------------------------------------------------------------------ C19
def IDX(rng, lit=None):
    t = rng.random()
    if lit and lit.new and t < .15: return rng.choice(lit.new) & 0xffffffff
    if t < .5: return rng.choice((0, 1, 2, 255, 256, 257, 65535, 65536, 1 << 24, (1 << 24) - 1, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, (1 << 32) - 2, 0x01020304, 0x80000001, 12381, 3600))
    return rng.getrandbits(32)
def c19(ctx):
    rng, lit = ctx.rng, ctx.lit
    def kg(s, cls): return ('keygen %s' % HB(s), V(lambda s: SK(ref.keygen(s)), s), 'keygen ' + cls)
    for n in ctx.mine(list(range(0, 200)) + [255, 256, 257, 1000, 4096, 65536] + lit.sizes(70000)):
        yield kg(rng.randbytes(n), 'short seed' if n < 32 else 'length sweep')
        yield kg(rng.choice((b'\0', b'\xff', b'\1')) * n, 'constant seed')
    for _ in range(ctx.n(1500, 60000)): yield kg(rng.randbytes(rng.choice((32, 32, 33, 48, 64, rng.randrange(32, 150)))), 'random')
    for n in ctx.mine((4095, 65536, 300000)): yield ('keygen z:%d:3' % n, V(lambda n: SK(ref.keygen(synth(n, 3))), n), 'keygen long seed')
    if ctx.shard == 0: yield ('nullargs keygen', SK(0), 'keygen null')
    for _ in range(ctx.n(420, 16000)):
        k = skv(rng, lit); i = IDX(rng, lit)
        yield ('hardened %s %d' % (SK(k), i), V(lambda k, i: SK(ref.hardened(k, i)), k, i), 'hardened child')
    for _ in range(ctx.n(80, 2000)):      # any 256-bit parent (leading zero bytes, all ones)
        k = scal(rng, lit); i = IDX(rng, lit)
        yield ('hardened %s %d' % (SK(k), i), V(lambda k, i: SK(ref.hardened(k, i)), k, i), 'hardened child, wide parent')
    for _ in range(ctx.n(160, 5000)):
        k = skv(rng, lit) if rng.random() < .8 else scal(rng, lit); i = IDX(rng, lit)
        yield ('lamportpk %s %d' % (SK(k), i), V(lambda k, i: HB(ref.lamport_pk(k, i)), k, i), 'lamport public key')
    for _ in range(ctx.n(160, 4000)):
        ikm, s = rng.choice((rng.randbytes(32), msg(rng, lit))), rng.choice((rng.randbytes(4), msg(rng, lit)))
        yield ('lamport %s %s' % (HB(ikm), HB(s)), V(lambda a, b: HB(ref.lamport_sk(a, b)), ikm, s), 'lamport secret')
    for _ in range(ctx.n(16, 400)):        # paths
        k = ref.keygen(rng.randbytes(32))
        for i in ([12381, 3600, rng.randrange(5), 0] if rng.random() < .5 else [IDX(rng, lit) for _ in range(4)]):
            yield ('hardened %s %d' % (SK(k), i), V(lambda k, i: SK(ref.hardened(k, i)), k, i), 'hardened path'); k = ref.hardened(k, i)
def c19_big(ctx):
    for n in ctx.mine([1 << 29] + ([(1 << 31) + 1, (1 << 32) + 31] if ctx.thorough else [])): yield big('keygen', n)
reg(Check('C19', 'Key generation for every seed length 0..199 and longer (below 32 bytes the zero key), constant and random seeds; hardened children, Lamport secrets and Lamport public keys for edge and random parents, every class of 32-bit index (all byte positions), derivation paths. Values from an independent implementation of EIP-2333 over hashlib with the key generation the library documents. Distinct = distinct request and class.',
          jobs=lambda tier: [Job('keys', c19, batch=400), Job('huge', c19_big, shards=3, batch=1)]))

# ------------------------------------------------------------------ C20
def c20(ctx):
    rng, lit = ctx.rng, ctx.lit
    for _ in range(ctx.n(200, 8000)):
        a = skv(rng, lit)
        if rng.random() < .1: a = rng.choice((0, 1, 2, R - 1, R - 2, (R + 1) // 2))
        p = E1.gmul(a); q = E2.gmul(a)
        for depth in range(rng.choice((1, 1, 2, 4))):
            i = IDX(rng, lit)
            n1 = ref.unh_nonce(ref.comp1(p), i); c = (a + n1) % R; pc = E1.add(p, E1.gmul(n1))
            assert pc == E1.gmul(c)
            yield ('unhsk %s %d' % (SK(a), i), SK(c), 'secret child')
            for _ in range(2): yield ('unhg1 %s %d' % (K1.rep(p, rng, lit), i), C(lambda r, p: K1.same(r, p), pc), 'public child, G1')
            if rng.random() < .5: yield ('pubkey ' + SK(c), C(g1aff, pc), 'public key of the child')
            n2 = ref.unh_nonce(ref.comp2(q), i); qc = E2.add(q, E2.gmul(n2))
            for _ in range(2): yield ('unhg2 %s %d' % (K2.rep(q, rng, lit), i), C(lambda r, p: K2.same(r, p), qc), 'public child, G2')
            a, p, q = c, pc, qc
    for K in KITS:     # any curve point as parent
        pool = [p for p, _ in K.pool(rng, 12)]
        def child(p, i, K=K): return K.E.add(p, K.E.gmul(ref.unh_nonce(K.comp(p), i)))
        for p in ctx.mine(pool):
            i = IDX(rng, lit)
            yield ('unhg%d %s %d' % (K.n, K.rep(p, rng, lit), i), C(lambda r, p, i, K, child: K.same(r, child(p, i)), p, i, K, child), 'any parent point')
reg(Check('C20', 'Paths of unhardened derivations from edge and random secrets with indices of every class: secret child, public child in G1 in several projective representations, public key of the child, and the G2 derivation, each against the definition (SHA-256 of the compressed key and index, modulo the order); any curve point as parent. Distinct = distinct request and class.',
          jobs=lambda tier: [Job('paths', c20, batch=300)]))

# ------------------------------------------------------------------ C21
def c21(ctx):
    rng, lit = ctx.rng, ctx.lit
    def imp(v):
        b = v.to_bytes(32, 'big')
        yield ('skfrom 0 ' + b.hex(), SK(v if v < R else 0), 'import below order' if v < R else 'import not below order')
        yield ('skfrom 1 ' + b.hex(), SK(v % R), 'import reduced')
        yield ('skto ' + SK(v), b.hex(), 'export')
    M = 1 << 256
    edges = sorted({x % M for e in SC_EDGES for x in (e, e + 1, e - 1)} | {(R + d * (1 << (8 * i))) % M for i in range(32) for d in (-1, 1)} | {k * R + d for k in (1, 2) for d in range(-3, 4)} | {255 << 8 * i for i in range(32)})
    for v in ctx.mine(edges): yield from imp(v)
    for _ in range(ctx.n(6000, 300000)):
        t = rng.random()
        if t < .3: v = scal(rng, lit)
        elif t < .5: v = rng.getrandbits(256)
        elif t < .8:      # equal to the order in the leading limbs
            k = rng.randrange(1, 4); v = (R >> 64 * k << 64 * k) + wide(rng, k, lit)
        else: v = wide(rng, 4, lit)
        yield from imp(v % M)
    for n in ctx.mine([0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 64, 100, 255, 256, 257, 1000] * 3 + lit.sizes(3000)):
        for kind in ('random', 'maximal', 'structured'):
            l = [(R - 1 - rng.randrange(3)) if kind == 'maximal' else rng.randrange(R) if kind == 'random' else skv(rng, lit) for _ in range(n)]
            yield ('aggsk %d%s' % (n, ''.join(' ' + SK(x) for x in l)), SK(sum(l) % R), 'aggregate ' + kind)
    for _ in range(ctx.n(3000, 100000)):
        n = rng.choice((1, 2, 2, 2, 3, 4, 6))
        l = [skv(rng, lit) for _ in range(n)]
        t = rng.random()
        if t < .2: l.append(-sum(l) % R)         # cancels
        elif t < .3: l.append((1 - sum(l)) % R)
        elif t < .4: l.append((-1 - sum(l)) % R)
        elif t < .55: l = l[:1] + [(R + rng.randrange(-2, 3) - l[0]) % R]
        yield ('aggsk %d%s' % (len(l), ''.join(' ' + SK(x) for x in l)), SK(sum(l) % R), 'aggregate short')
    for _ in range(ctx.n(400, 20000)):
        a = skv(rng, lit)
        yield ('pubkey ' + SK(a), C(lambda r, a: g1aff(r, E1.gmul(a)), a), 'public key')
    for e in ctx.mine(SC_EDGES): yield ('pubkey ' + SK(e % M), C(lambda r, a: g1aff(r, E1.gmul(a)), e % M), 'public key of an edge value')
    # aggregation commutes with public keys and signing: all parts and the whole from one model
    for _ in range(ctx.n(16, 600)):
        l = [skv(rng, lit) for _ in range(rng.choice((2, 3, 5)))]; s = sum(l) % R
        if rng.random() < .2: l[-1] = (l[-1] - s) % R; s = 0
        m = msg(rng, lit); h = ref.hash_g2(m, DST_SIG)
        yield ('aggsk %d%s' % (len(l), ''.join(' ' + SK(x) for x in l)), SK(s), 'commutes: secret')
        yield ('aggpk %s%s' % ('1' * len(l), ''.join(' ' + K1.rep(E1.gmul(x), rng, lit) for x in l)), C(lambda r, s: K1.same(r, E1.gmul(s)), s), 'commutes: public')
        yield ('pubkey ' + SK(s), C(lambda r, s: g1aff(r, E1.gmul(s)), s), 'commutes: public')
        sg = [E2.mul(h, x) for x in l]
        yield ('aggsig %s%s' % ('1' * len(l), ''.join(' ' + K2.rep(x, rng, lit) for x in sg)), C(lambda r, h, s: K2.same(r, E2.mul(h, s)), h, s), 'commutes: signature')
        yield ('sign %s %s' % (SK(s), HB(m)), C(lambda r, h, s: K2.same(r, E2.mul(h, s)), h, s), 'commutes: signature')
reg(Check('C21', 'Import (checked and reduced) and export of values at and around the order in every limb and byte, multiples of it, maximal and structured values; sums of up to 1000 keys incl. maximal ones, cancelling ones and sums landing on 0, 1, r-1; public keys of edge and random secrets in affine form; aggregation against public keys and signing. Distinct = distinct request and class.',
          jobs=lambda tier: [Job('secrets', c21, batch=1500)]))

# ------------------------------------------------------------------ C27
def c27(ctx):
    rng, lit = ctx.rng, ctx.lit
    def en(b, cls): return ('tohex ' + HB(b), '0x' + b.hex(), 'encode ' + cls)
    def de(s, want, cls): return ('unhex ' + HB(s.encode('latin1')), HB(want) if want is not None else None, 'decode ' + cls)
    def mixcase(s): return ''.join(c.upper() if rng.random() < .5 else c for c in s)
    def forms(b):
        h = b.hex()
        for s, c in ((h, 'plain'), ('0x' + h, 'prefixed'), (h.upper(), 'upper case'), ('0x' + h.upper(), 'prefixed upper case'), (mixcase(h), 'mixed case'), ('0x' + mixcase(h), 'prefixed mixed case')):
            if c.startswith('p') and s.startswith('0x') is False and s[:2].lower() == '0x': continue
            yield de(s, b, c)
        yield de(h[:-1] if h else 'a', b'', 'odd'); yield de('0x' + h + rng.choice('0123456789abcdefABCDEF'), b'', 'odd prefixed')
    for n in ctx.mine(list(range(0, 300)) + [1000, 4096, 65537] + lit.sizes(70000)):
        b = rng.randbytes(n); yield en(b, 'length sweep'); yield from forms(b)
    for x in ctx.mine(range(256)):
        b = bytes([x]); yield en(b, 'every byte'); yield from forms(b)
        b = bytes([x, 255 - x, x]); yield en(b, 'every byte'); yield from forms(b)
    if ctx.shard == 0:
        for s in ('', '0x'): yield de(s, b'', 'empty')
        for s in ('0', 'x', 'a', '0x1', '0xa', '0x123', '123'): yield de(s, b'', 'odd')
        yield ('nullargs tohex', '0x', 'empty'); yield ('nullargs unhex', '-', 'empty')
        yield de('x0', None, 'not hexadecimal'); yield de('0X', None, 'not hexadecimal')
    for _ in range(ctx.n(4000, 150000)):
        b = msg(rng, lit); yield en(b, 'random'); yield rng.choice(list(forms(b)))
        if rng.random() < .2:       # arbitrary characters: any result, no access outside (the argument ends at an unmapped page)
            s = bytes(rng.choice((rng.randrange(256), 48, 120)) for _ in range(rng.randrange(12))); yield ('unhex ' + HB(s), HB(b'') if len(s) % 2 else None, 'decode arbitrary characters')
    for n in ctx.mine(list(range(1, 9)) * 12):
        b = rng.randbytes(n); h = rng.choice((b.hex(), b.hex().upper(), mixcase(b.hex())))
        for s in (h, '0x' + h, h + rng.choice(('00', 'ff', '1'))): yield ('unhexs %s %d' % (HB(s.encode()), n), HB(b), 'decode to fixed size')
reg(Check('C27', 'All byte values and every length 0..299 (and long ones) encoded by the fixed-size and dynamic forms and decoded plain, prefixed, in lower, upper and mixed case; odd lengths; empty string and bare prefix; arbitrary characters; the argument ends at an unmapped page. Distinct = distinct request and class.',
          jobs=lambda tier: [Job('hex', c27, batch=3000)]))
