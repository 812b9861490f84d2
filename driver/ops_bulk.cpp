// Mass comparison of the library's field arithmetic with a separate schoolbook model.
#include "drv.hpp"
using namespace drv;
namespace {
typedef unsigned __int128 u128;
typedef std::array<uint64_t, 6> W6;
const W6 MP = {0xb9feffffffffaaab, 0x1eabfffeb153ffff, 0x6730d2a0f6b0f624, 0x64774b84f38512bf, 0x4b1ba7b6434bacd7, 0x1a0111ea397fe69a};
struct Rng { uint64_t s; uint64_t operator()() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9ull; z = (z ^ z >> 27) * 0x94D049BB133111EBull; return z ^ z >> 31; } };
bool geq(const W6& a, const W6& b) { for (int i = 5; i >= 0; i--) if (a[i] != b[i]) return a[i] > b[i]; return true; }
uint64_t addw(W6& z, const W6& a, const W6& b) { u128 c = 0; for (int i = 0; i < 6; i++) { c += (u128)a[i] + b[i]; z[i] = (uint64_t)c; c >>= 64; } return (uint64_t)c; }
uint64_t subw(W6& z, const W6& a, const W6& b) { uint64_t br = 0; for (int i = 0; i < 6; i++) { u128 t = (u128)a[i] - b[i] - br; z[i] = (uint64_t)t; br = (uint64_t)(t >> 64) & 1; } return br; }
W6 madd(const W6& a, const W6& b) { W6 z; addw(z, a, b); if (geq(z, MP)) subw(z, z, MP); return z; }
W6 msub(const W6& a, const W6& b) { W6 z; if (subw(z, a, b)) addw(z, z, MP); return z; }
const W6 Z0 = {0, 0, 0, 0, 0, 0};
W6 mneg(const W6& a) { return msub(Z0, a); }
uint64_t ninv() { uint64_t x = 1; for (int i = 0; i < 7; i++) x *= 2 - MP[0] * x; return ~x + 1; }
const uint64_t NI = ninv();
// full product first, then one word at a time is cleared; final value below 2p
W6 mmul(const W6& a, const W6& b) {
    uint64_t t[13] = {0};
    for (int i = 0; i < 6; i++) { u128 c = 0; for (int j = 0; j < 6; j++) { c += (u128)a[i] * b[j] + t[i + j]; t[i + j] = (uint64_t)c; c >>= 64; } t[i + 6] = (uint64_t)c; }
    for (int i = 0; i < 6; i++) {
        uint64_t m = t[i] * NI; u128 c = 0;
        for (int j = 0; j < 6; j++) { c += (u128)m * MP[j] + t[i + j]; t[i + j] = (uint64_t)c; c >>= 64; }
        for (int j = i + 6; j < 13 && c; j++) { c += t[j]; t[j] = (uint64_t)c; c >>= 64; }
    }
    W6 z; for (int i = 0; i < 6; i++) z[i] = t[i + 6];
    if (t[12] || geq(z, MP)) subw(z, z, MP);
    return z;
}
W6 oneM() { // 2^384 mod p
    W6 z = {1, 0, 0, 0, 0, 0}; for (int i = 0; i < 384; i++) z = madd(z, z); return z;
}
const W6 ONE = oneM();
const W6 RR = [] { W6 z = ONE; for (int i = 0; i < 384; i++) z = madd(z, z); return z; }();
uint64_t rword(Rng& g) {
    switch (g() % 8) { case 0: return 0; case 1: return ~0ull; case 2: return g() & 7; case 3: return ~(g() & 7); case 4: return 1ull << (g() % 64); default: return g(); }
}
W6 rawv(Rng& g) {      // canonical
    W6 a; uint64_t t = g() % 10;
    if (t < 5) { for (auto& w : a) w = g(); a[5] %= MP[5] + 1; }
    else if (t < 8) { for (auto& w : a) w = rword(g); if (g() & 1) a[5] = MP[5] - (g() & 1); else a[5] %= MP[5] + 1; }
    else if (t < 9) { W6 s = {g() >> (g() % 64), 0, 0, 0, 0, 0}; if (g() & 1) s[g() % 6] |= rword(g); s[5] &= 0xfffffffffffffff; subw(a, MP, s); if (!geq(MP, a)) a = s; }
    else { a = MP; int k = g() % 6; a[k] = rword(g); for (int i = 0; i < k; i++) if (g() & 1) a[i] = rword(g); }
    while (geq(a, MP)) subw(a, a, MP);
    return a;
}
fp F(const W6& a) { fp f; f.d = a; return f; }
string hex(const W6& a) { return str(a); }
string fail(const char* op, const W6& a, const W6& b, const W6& got, const W6& want) { return string("bulk ") + op + " " + hex(a) + " " + hex(b) + " got " + hex(got) + " want " + hex(want); }

string bulkFp(Rng& g, uint64_t n) {
    W6 prev = ONE;
    for (uint64_t i = 0; i < n; i++) {
        W6 a = rawv(g), b = rawv(g);
        switch (g() % 8) {
        case 0: b = mneg(a); break; case 1: b = a; break;
        case 2: b = msub(b, a); break;                       // structured sum
        case 3: b = prev; break;
        }
        fp x = F(a), y = F(b), z;
        W6 w = madd(a, b); z = x.add(y); if (z.d != w) return fail("add", a, b, z.d, w);
        z = x; z.addAssign(y); if (z.d != w) return fail("addAssign", a, b, z.d, w);
        w = msub(a, b); z = x.subtract(y); if (z.d != w) return fail("subtract", a, b, z.d, w);
        z = x; z.subtractAssign(y); if (z.d != w) return fail("subtractAssign", a, b, z.d, w);
        w = mmul(a, b); z = x.multiply(y); if (z.d != w) return fail("multiply", a, b, z.d, w);
        z = x; z.multiplyAssign(y); if (z.d != w) return fail("multiplyAssign", a, b, z.d, w);
        prev = w;
        w = mmul(a, a); z = x.square(); if (z.d != w) return fail("square", a, a, z.d, w);
        z = x; z.squareAssign(); if (z.d != w) return fail("squareAssign", a, a, z.d, w);
        w = madd(a, a); z = x.dbl(); if (z.d != w) return fail("dbl", a, a, z.d, w);
        w = mneg(a); z = x.negate(); if (z.d != w) return fail("negate", a, a, z.d, w);
        w = mmul(a, {1, 0, 0, 0, 0, 0}); z = x.fromMont(); if (z.d != w) return fail("fromMont", a, a, z.d, w);
        w = mmul(a, RR); z = x.toMont(); if (z.d != w) return fail("toMont", a, a, z.d, w);
        // lazily reduced operands (below 4p), as the extension fields produce them
        W6 u = a; for (unsigned k = g() % 4; k; k--) addw(u, u, MP); fp ux = F(u);
        w = mmul(b, a); _multiply(&z, &y, &ux); if (z.d != w) return fail("multiply unreduced y", b, u, z.d, w);
        _multiply(&z, &ux, &y); if (z.d != w) return fail("multiply unreduced x", u, b, z.d, w);
        for (auto& q : u) q = rword(g);
        w = mmul(u, RR); z = F(u).toMont(); if (z.d != w) return fail("toMont of arbitrary limbs", u, u, z.d, w);
    }
    return "ok " + num(n);
}
struct M2 { W6 a, b; };
M2 m2add(const M2& x, const M2& y) { return {madd(x.a, y.a), madd(x.b, y.b)}; }
M2 m2mul(const M2& x, const M2& y) { return {msub(mmul(x.a, y.a), mmul(x.b, y.b)), madd(mmul(x.a, y.b), mmul(x.b, y.a))}; }
M2 m2xi(const M2& x) { return {msub(x.a, x.b), madd(x.a, x.b)}; }
bool eq2(const M2& x, const M2& y) { return x.a == y.a && x.b == y.b; }
M2 rnd2(Rng& g) { M2 r{rawv(g), rawv(g)}; switch (g() % 12) { case 0: r.a = Z0; break; case 1: r.b = Z0; break; case 2: r.b = r.a; break; case 3: r.b = mneg(r.a); break; } return r; }
fp2 f2(const M2& m) { return fp2({F(m.a), F(m.b)}); }
M2 g2m(const fp2& f) { return {f.c0.d, f.c1.d}; }
string hex(const M2& m) { return hex(m.a) + hex(m.b); }
string bulkInv(Rng& g, uint64_t n) {
    for (uint64_t i = 0; i < n; i++) {
        W6 a = rawv(g); if (g() % 4 == 0) { a = {1, 0, 0, 0, 0, 0}; for (unsigned k = g() % 381; k; k--) a = madd(a, a); }
        fp x = F(a), v = x.inverse();
        if (a == Z0 ? v.d != Z0 : (geq(v.d, MP) || mmul(v.d, a) != ONE)) return fail("inverse", a, a, v.d, Z0);
        if (i % 8 == 0 && a != Z0) {
            W6 s = mmul(a, a), ns = mneg(s); fp r;
            if (!F(s).sqrt(r) || geq(r.d, MP) || mmul(r.d, r.d) != s) return fail("sqrt of a square", s, a, r.d, a);
            if (F(ns).sqrt(r)) return fail("sqrt of a non-square", ns, a, r.d, Z0);
            if (F(s).isQuadraticNonResidue() || !F(ns).isQuadraticNonResidue()) return fail("isQuadraticNonResidue", s, ns, Z0, Z0);
        }
        M2 m = rnd2(g);
        if (m.a == Z0 && m.b == Z0) continue;
        M2 q = g2m(f2(m).inverse()), o = m2mul(q, m);
        if (o.a != ONE || o.b != Z0 || geq(q.a, MP) || geq(q.b, MP)) return "bulk fp2 inverse " + hex(m) + " got " + hex(q);
        if (i % 16 == 0) {
            M2 s = m2mul(m, m), ns = m2xi(s); fp2 r;     // 1+u is a non-square
            if (!f2(s).sqrt(r) || !eq2(m2mul(g2m(r), g2m(r)), s)) return "bulk fp2 sqrt of a square " + hex(s);
            if (f2(ns).sqrt(r)) return "bulk fp2 sqrt of a non-square " + hex(ns);
            if (f2(s).isQuadraticNonResidue() || !f2(ns).isQuadraticNonResidue()) return "bulk fp2 isQuadraticNonResidue " + hex(s);
        }
    }
    return "ok " + num(n);
}
#define EXPECT(NAME, GOT, WANT) do { M2 got_ = g2m(GOT), want_ = (WANT); if (!eq2(got_, want_)) return string("bulk ") + NAME + " " + hex(a) + " " + hex(b) + " got " + hex(got_) + " want " + hex(want_); } while (0)
string bulk2(Rng& g, uint64_t n) {
    const W6 four = madd(madd(ONE, ONE), madd(ONE, ONE));
    for (uint64_t i = 0; i < n; i++) {
        M2 a = rnd2(g), b = g() % 8 ? rnd2(g) : a; fp2 x = f2(a), y = f2(b), z;
        EXPECT("fp2 multiply", x.multiply(y), m2mul(a, b));
        z = x; z.multiplyAssign(y); EXPECT("fp2 multiplyAssign", z, m2mul(a, b));
        EXPECT("fp2 square", x.square(), m2mul(a, a));
        z = x; z.squareAssign(); EXPECT("fp2 squareAssign", z, m2mul(a, a));
        EXPECT("fp2 add", x.add(y), m2add(a, b));
        EXPECT("fp2 subtract", x.subtract(y), (M2{msub(a.a, b.a), msub(a.b, b.b)}));
        EXPECT("fp2 dbl", x.dbl(), m2add(a, a));
        EXPECT("fp2 negate", x.negate(), (M2{mneg(a.a), mneg(a.b)}));
        EXPECT("fp2 mulByNonResidue", x.mulByNonResidue(), m2xi(a));
        EXPECT("fp2 mulByB", x.mulByB(), m2mul(a, {four, four}));
        EXPECT("fp2 mulByFq", x.mulByFq(F(b.a)), (M2{mmul(a.a, b.a), mmul(a.b, b.a)}));
        EXPECT("fp2 conjugate", x.conjugate(), (M2{a.a, mneg(a.b)}));
    }
    return "ok " + num(n);
}
typedef vector<M2> V2;          // coefficients of powers of a generator with g^k = 1+u
V2 vmul(const V2& a, const V2& b) {
    size_t k = a.size(); V2 r(k, {Z0, Z0});
    for (size_t i = 0; i < k; i++) for (size_t j = 0; j < k; j++) {
        M2 t = m2mul(a[i], b[j]); if (i + j >= k) t = m2xi(t);
        r[(i + j) % k] = m2add(r[(i + j) % k], t);
    }
    return r;
}
bool veq(const V2& a, const V2& b) { for (size_t i = 0; i < a.size(); i++) if (!eq2(a[i], b[i])) return false; return true; }
V2 rndv(Rng& g, size_t k) { V2 v(k); for (auto& c : v) c = rnd2(g); if (g() % 4 == 0) for (auto& c : v) if (g() & 1) c = {Z0, Z0}; return v; }
string hexv(const V2& v) { string s; for (auto& c : v) s += hex(c); return s; }
fp6 f6(const V2& v) { return fp6({f2(v[0]), f2(v[1]), f2(v[2])}); }
V2 g6m(const fp6& f) { return {g2m(f.c0), g2m(f.c1), g2m(f.c2)}; }
fp12 f12(const V2& v) { return fp12({fp6({f2(v[0]), f2(v[2]), f2(v[4])}), fp6({f2(v[1]), f2(v[3]), f2(v[5])})}); }
V2 g12m(const fp12& f) { return {g2m(f.c0.c0), g2m(f.c1.c0), g2m(f.c0.c1), g2m(f.c1.c1), g2m(f.c0.c2), g2m(f.c1.c2)}; }
#define EXPV(NAME, GOT, WANT) do { V2 got_ = (GOT), want_ = (WANT); if (!veq(got_, want_)) return string("bulk ") + NAME + " " + hexv(a) + " " + hexv(b) + " got " + hexv(got_) + " want " + hexv(want_); } while (0)
string bulk6(Rng& g, uint64_t n) {
    for (uint64_t i = 0; i < n; i++) {
        V2 a = rndv(g, 3), b = g() % 8 ? rndv(g, 3) : a; fp6 x = f6(a), y = f6(b), z;
        M2 o{Z0, Z0};
        EXPV("fp6 multiply", g6m(x.multiply(y)), vmul(a, b));
        z = x; z.multiplyAssign(y); EXPV("fp6 multiplyAssign", g6m(z), vmul(a, b));
        EXPV("fp6 square", g6m(x.square()), vmul(a, a));
        EXPV("fp6 mulBy01", g6m(x.mulBy01(y.c0, y.c1)), vmul(a, V2{b[0], b[1], o}));
        z = x; z.mulBy01Assign(y.c0, y.c1); EXPV("fp6 mulBy01Assign", g6m(z), vmul(a, V2{b[0], b[1], o}));
        EXPV("fp6 mulBy1", g6m(x.mulBy1(y.c1)), vmul(a, V2{o, b[1], o}));
        EXPV("fp6 mulByBaseField", g6m(x.mulByBaseField(y.c1)), vmul(a, V2{b[1], o, o}));
        EXPV("fp6 mulByNonResidue", g6m(x.mulByNonResidue()), vmul(a, V2{o, {ONE, Z0}, o}));
        bool zero = true; for (auto& c : a) zero = zero && eq2(c, o);
        if (!zero && i % 4 == 0) EXPV("fp6 inverse", vmul(g6m(x.inverse()), a), (V2{{ONE, Z0}, o, o}));
    }
    return "ok " + num(n);
}
string bulk12(Rng& g, uint64_t n) {
    for (uint64_t i = 0; i < n; i++) {
        V2 a = rndv(g, 6), b = g() % 8 ? rndv(g, 6) : a; fp12 x = f12(a), y = f12(b), z;
        M2 o{Z0, Z0};
        EXPV("fp12 multiply", g12m(x.multiply(y)), vmul(a, b));
        z = x; z.multiplyAssign(y); EXPV("fp12 multiplyAssign", g12m(z), vmul(a, b));
        EXPV("fp12 square", g12m(x.square()), vmul(a, a));
        z = x; z.squareAssign(); EXPV("fp12 squareAssign", g12m(z), vmul(a, a));
        z = x; z.mulBy014Assign(f2(b[0]), f2(b[2]), f2(b[3])); EXPV("fp12 mulBy014Assign", g12m(z), vmul(a, V2{b[0], o, b[2], b[3], o, o}));
        bool zero = true; for (auto& c : a) zero = zero && eq2(c, o);
        if (!zero && i % 4 == 0) EXPV("fp12 inverse", vmul(g12m(x.inverse()), a), (V2{{ONE, Z0}, o, o, o, o, o}));
        if (!zero && i % 8 == 0) {     // an element of the cyclotomic subgroup
            fp12 e = x.conjugate().multiply(x.inverse()); e = e.frobeniusMap(2).multiply(e);
            V2 em = g12m(e); EXPV("fp12 cyclotomicSquare", g12m(e.cyclotomicSquare()), vmul(em, em));
        }
    }
    return "ok " + num(n);
}
}
OP("bulk") {
    string w = r.next(); Rng g{r.num()}; uint64_t n = r.num();
    if (w == "fp") return bulkFp(g, n);
    if (w == "inv") return bulkInv(g, n);
    if (w == "t2") return bulk2(g, n);
    if (w == "t6") return bulk6(g, n);
    if (w == "t12") return bulk12(g, n);
    throw BadRequest("bulk");
} ENDOP

// digest seed count: hash of the results of every base-field operation on structured operands
OP("digest") {
    Rng g{r.num()}; uint64_t n = r.num(), h = 1469598103934665603ull;
    auto mix = [&](const fp& f) { for (auto w : f.d) { h ^= w; h *= 1099511628211ull; h ^= h >> 29; } };
    fp prev = fp::one();
    for (uint64_t i = 0; i < n; i++) {
        fp a = F(rawv(g)), b = F(rawv(g)), c = prev;
        switch (g() % 8) { case 0: b = a.negate(); break; case 1: b = a; break; case 2: b = prev; break; }
        fp z;
        mix(a.add(b)); mix(a.subtract(b)); mix(a.negate()); mix(a.dbl());
        mix(a.square()); c = a.multiply(b); mix(c);
        _ladd(&z, &a, &b); mix(z); _lsubtract(&z, &a, &b); mix(z); _ldouble(&z, &a); mix(z);
        { fp x(a); x.addAssign(b); mix(x); x.multiplyAssign(b); mix(x); x.squareAssign(); mix(x); x.subtractAssign(a); mix(x); x.doubleAssign(); mix(x); }
        mix(a.toMont()); mix(a.fromMont());
        { fp2 u({a, b}), v({c, prev}); fp2 w = u.multiply(v); mix(w.c0); mix(w.c1); w = u.square(); mix(w.c0); mix(w.c1); w = u.mulByNonResidue(); mix(w.c0); mix(w.c1); w = u.subtract(v); mix(w.c0); mix(w.c1); }
        if (i % 512 == 0) { mix(a.inverse()); fp s; if (a.sqrt(s)) mix(s); }
        // raw limbs beyond p in the operand the portable multiplication allows to be any value
        if (i % 4 == 0) { for (auto& w : a.d) w = rword(g); mix(a.toMont()); mix(a.fromMont()); }
        prev = c;
    }
    return num(h);
} ENDOP
