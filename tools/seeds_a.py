# Definitions of planted changes; see seedfactory.py.
SEEDS = []
def S(id, property, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))

# ---------------------------------------------------------------- C01
S('c01-negate-limb', 'C01', 'an element whose Montgomery form has zeros in all limbs but the top one', 'its negation is itself',
  [('src/arithmetic.cpp', 'void _negate(fp* z, const fp* x)\n{\n    if(x->isZero())', 'void _negate(fp* z, const fp* x)\n{\n    if((x->d[0] | x->d[1] | x->d[2] | x->d[3] | x->d[4]) == 0)', 0)],
  'fp a({0,0,0,0,0,5}); CHECK(a.add(a.negate()).isZero()); CHECK(fp().negate().isZero()); fp b = rfp(); CHECK(b.add(b.negate()).isZero());')
S('c01-equal-limb', 'C01', 'two elements that differ in the fourth limb only', 'they compare as equal',
  [('src/fp.cpp', 'd[2] == e.d[2] && d[3] == e.d[3] && d[4]', 'd[2] == e.d[2] && d[3] == d[3] && d[4]')],
  'fp a = rfp(), b = a; b.d[3] ^= 0x100; CHECK(!a.equal(b)); CHECK(a.equal(a)); CHECK(a != b);')
S('c01-double-top', 'C01', '2x - p below 2^320, a chance of about 2^-60', 'doubling leaves a value above p',
  [('src/arithmetic.s', '''   cmovae %r14,%r8
   cmovae %r15,%r9
   cmovae %rcx,%r10
   cmovae %rdx,%r11
   cmovae %rsi,%r12
   cmovae %rbx,%r13''', '''   cmovae %r14,%r8
   cmovae %r15,%r9
   cmovae %rcx,%r10
   cmovae %rdx,%r11
   cmovae %rsi,%r12
   cmova  %rbx,%r13''', 1)],
  '''// (p+1)/2 + k doubled is 2k+1
 for(uint64_t k : {0ull, 1ull, 77ull, 1ull << 40}) { array<uint64_t,6> h = fp::MODULUS.d, o{}; h[0]++; scalar::rsh(h, fp(h).d, 1); h[0] += k; fp a(h); CHECK(a.isValid());
 fp d = a.dbl(); o[0] = 2*k+1; CHECK(d.isValid()); CHECK(d.d == o); CHECK(a.add(a).equal(d)); }''')
# ---------------------------------------------------------------- C02
COND = 'if(!(z->d[5] < fp::MODULUS.d[5] || (z->d[5] == fp::MODULUS.d[5] && (z->d[4] < fp::MODULUS.d[4] || (z->d[4] == fp::MODULUS.d[4] && (z->d[3] < fp::MODULUS.d[3] || (z->d[3] == fp::MODULUS.d[3] && (z->d[2] < fp::MODULUS.d[2] || (z->d[2] == fp::MODULUS.d[2] && (z->d[1] < fp::MODULUS.d[1] || (z->d[1] == fp::MODULUS.d[1] && (z->d[0] < fp::MODULUS.d[0]))))))))))))'
S('c02-portable-add-p', 'C02', 'the portable back end and two summands adding up to exactly p', 'the sum is p instead of zero on one back end',
  [('src/arithmetic.cpp', COND, COND.replace('(z->d[0] < fp::MODULUS.d[0])', '(z->d[0] <= fp::MODULUS.d[0])'), 0)],
  'for(int i = 0; i < 20; i++) { fp a = rfp(), b = a.negate(); CHECK(a.add(b).isZero()); } fp s = fp::one(); s.addAssign(fp::one().negate()); CHECK(s.isZero());', kind='portable', also=['C01'])
S('c02-portable-square-final', 'C02', 'the portable back end and a square whose Montgomery form is below 2^256', 'the square keeps a multiple of p on one back end',
  [('src/arithmetic.cpp', COND, 'if(!(z->d[5] < fp::MODULUS.d[5] || (z->d[5] == fp::MODULUS.d[5] && (z->d[4] <= fp::MODULUS.d[4]))))', 3)],
  'int n = 0; for(uint64_t k = 1; k < 40; k++) { fp a({k, 3*k, 0, 0, 0, 0}), r; if(!a.sqrt(r)) continue; n++; fp s = r.square(); CHECK(s.isValid()); CHECK(s.d == a.d); CHECK(r.multiply(r).d == a.d); } CHECK(n > 5);', kind='portable', also=['C01'])
S('c02-generic-carry', 'C02', 'the generic assembly (no BMI2/ADX) and limbs that make one column all ones when a carry arrives', 'the product loses a carry on one back end',
  [('src/arithmetic.s', '''   add %rax,%r9
   adc %rdx,%r10
   adc $0,%r11
   adc $0,%rbx
   push %r9''', '''   add %rax,%r9
   adc %rdx,%r10
   adc $0,%r11
   push %r9''')],
  '''uint64_t v[] = {0, 1, 2, ~0ull, ~0ull - 1, 1ull << 63, (1ull << 63) - 1, 0x5555555555555555ull, 1ull << 32};
 for(int i = 0; i < 400000; i++) { fp a, b, x, y; for(int k = 0; k < 6; k++) { a.d[k] = v[rnd() % 9]; b.d[k] = v[rnd() % 9]; } a.d[5] &= 0x0fffffffffffffffull; b.d[5] &= 0x0fffffffffffffffull;
 _multiply(&x, &a, &b); _square(&y, &a); fp z; _multiply(&z, &a, &a); if(!z.equal(y)) { printf("square differs\\n"); fails++; break; }
 __multiply(&y, &a, &b); __mul_ex(&x, &a, &b); if(!x.equal(y)) { printf("back ends differ\\n"); fails++; break; } }''' )
SEEDS[-1]['demo'] = 'namespace bls12_381 { void __multiply(fp*, const fp*, const fp*); void __mul_ex(fp*, const fp*, const fp*); }\nint main() {\n if(!__builtin_cpu_supports("bmi2") || !__builtin_cpu_supports("adx")) return 0;\n' + SEEDS[-1]['demo'] + '\nreturn fails ? 1 : 0; }\n'
# ---------------------------------------------------------------- C03
S('c03-inverse-bound', 'C03', 'an element whose Montgomery form is close to a power of two above 2^370', 'its inverse is reported as zero',
  [('src/fp.cpp', 'for(uint64_t i = 0; i < 768; i++)', 'for(uint64_t i = 0; i < 750; i++)')],
  'for(int i = 0; i < 381; i++) { array<uint64_t,6> d{}; d[i/64] = 1ull << (i%64); fp a(d); if(!a.isValid()) continue; CHECK(a.multiply(a.inverse()).isOne()); }')
S('c03-residue-real', 'C03', 'an element of the quadratic extension with zero imaginary part whose real part is no square in the base field', 'a square is reported as a non-residue',
  [('src/fp.cpp', '    fp _c0, _c1;\n    _square(&_c0, &c0);', '    if(c1.isZero())\n    {\n        return c0.isQuadraticNonResidue();\n    }\n    fp _c0, _c1;\n    _square(&_c0, &c0);')],
  'for(int i = 0; i < 20; i++) { fp2 a({rfp(), fp::zero()}), r; CHECK(a.sqrt(r)); CHECK(!a.isQuadraticNonResidue()); }')
S('c03-half', 'C03', 'exactly the element (p-1)/2', 'it counts as larger than its negation',
  [('src/fp.cpp', "0xDCFF'7FFF'FFFF'D556", "0xDCFF'7FFF'FFFF'D555")],
  'fp h = fp(fp::pMinus1Over2).toMont(); CHECK(!h.isLexicographicallyLargest()); CHECK(h.negate().isLexicographicallyLargest()); fp2 q({h, fp::zero()}); CHECK(!q.isLexicographicallyLargest());')
# ---------------------------------------------------------------- C04
S('c04-frobenius-wide', 'C04', 'a Frobenius power of 2^32 or more', 'the map is applied with the wrong power',
  [('src/fp.cpp', '    c.c2 = c2.frobeniusMap(power);\n    switch(power % 6)', '    c.c2 = c2.frobeniusMap(power);\n    switch(static_cast<uint32_t>(power) % 6)')],
  'fp6 a = rfp6(); for(uint64_t q : {0x100000000ull, 0x100000003ull, 0xffffffffffffffffull, 0x300000004ull}) CHECK(a.frobeniusMap(q).equal(a.frobeniusMap(q % 6))); for(uint64_t q = 0; q < 30; q++) CHECK(a.frobeniusMap(q).equal(a.frobeniusMap(q % 6)));')
S('c04-isone', 'C04', 'an element 1 + c*v^2 of the sextic extension', 'it is taken for one',
  [('src/fp.cpp', 'return c0.isOne() && c1.isZero() && c2.isZero();', 'return c0.isOne() && c1.isZero();')],
  'fp6 a = fp6::one(); CHECK(a.isOne()); a.c2 = rfp2(); CHECK(!a.isOne()); fp12 b = fp12::one(); b.c0.c2.c1 = fp::one(); CHECK(!b.isOne());')
S('c04-cyclo-exp', 'C04', 'a cyclotomic exponentiation with a zero exponent word between non-zero ones', 'bits below an all-zero word are ignored',
  [('include/bls12-381/scalar.hpp', '''        z.cyclotomicSquareAssign();
        if((s[i/64] >> (i%64) & 1) == 1)''', '''        z.cyclotomicSquareAssign();
        if(i%64 == 63 && s[i/64] == 0)
        {
            // nothing to multiply in this word
            for(; i%64 != 0; i--)
            {
                z.cyclotomicSquareAssign();
            }
            if(i == 0) break;
            i--;
        }
        if((s[i/64] >> (i%64) & 1) == 1)''')],
  '''fp12 f = rfp12(), g = f.conjugate().multiply(f.inverse()); g = g.frobeniusMap(2).multiply(g);
 for(auto e : {array<uint64_t,3>{5, 0, 9}, array<uint64_t,3>{0, 0, 1}, array<uint64_t,3>{rnd(), rnd(), 3}, array<uint64_t,3>{1ull << 63, 0, 0}, array<uint64_t,3>{0, 0, 0}, array<uint64_t,3>{rnd(), 0, rnd()}}) CHECK(g.cyclotomicExp(e).equal(g.exp(e)));''')
# ---------------------------------------------------------------- C05
S('c05-divn-top', 'C05', 'a division step in which the leading digits of dividend and divisor agree', 'the quotient digit estimate wraps around',
  [('src/scalar.cpp', '''        if(a[i] == b[t])
        {
            c[i - t - 1] = RLC_MASK(64);
        }
        else
        {
            c[i - t - 1] =''', '''        {
            c[i - t - 1] =''')],
  '''// q*b + r with q all ones
 for(int i = 0; i < 200; i++) { array<uint64_t,2> b{rnd(), rnd() | 1ull << 63}; array<uint64_t,1> q{~0ull}; array<uint64_t,1> r{rnd()};
 auto a = scalar::add<4,3,1>(scalar::multiply<3,2,1>(b, q), r); array<uint64_t,4> qq{}; array<uint64_t,2> rr{}; bn_divn_safe(qq, rr, a, b);
 CHECK(qq[0] == ~0ull && qq[1] == 0); CHECK(rr[0] == r[0] && rr[1] == 0); if(fails) break; }''')
S('c05-divn-addback', 'C05', 'a division in which the estimated digit is one too large after its correction (chance about 2^-63)', 'quotient and remainder are wrong',
  [('src/scalar.cpp', '''            carry = bn_add1_low(a + sd, a + sd, carry, sa - sd);
            c[i - t - 1]--;''', '''            carry = bn_add1_low(a + sd, a + sd, carry, sa - sd);''')],
  '''// Knuth's D6: the digit below the two leading ones of the divisor makes the estimate too large
 int n = 0;
 for(int i = 0; i < 300; i++) { array<uint64_t,4> b{~0ull - rnd() % 3, ~0ull - rnd() % 2, 0, 1ull << 63}; if(i & 1) { b[1] = ~0ull; b[2] = rnd() % 3; } array<uint64_t,1> q{rnd() | 1ull << 63};
 array<uint64_t,6> a = scalar::multiply<6,4,1>(b, q); int k = 0; while(k < 5 && a[k] == 0) a[k++] = ~0ull; a[k]--;   // q*b - 1
 array<uint64_t,6> qq{}; array<uint64_t,4> rr{}; bn_divn_safe(qq, rr, a, b); CHECK(qq[0] == q[0] - 1 && qq[1] == 0);
 array<uint64_t,4> w = b; k = 0; while(w[k] == 0) w[k++] = ~0ull; w[k]--; CHECK(rr == w); if(fails) break; }''')
S('c05-equal-fold', 'C05', 'two integers that differ only in the upper half of a word', 'they compare as equal',
  [('include/bls12-381/scalar.hpp', '''    for(uint64_t i = 0; i < N; i++)
    {
        if(a[i] != b[i])
        {
            return false;
        }
    }
    return true;''', '''    unsigned diff = 0;
    for(uint64_t i = 0; i < N; i++)
    {
        diff |= a[i] ^ b[i];
    }
    return diff == 0;''')],
  'array<uint64_t,4> a{1,2,3,4}, b = a; CHECK(scalar::equal<4>(a, b)); b[2] ^= 1ull << 45; CHECK(!scalar::equal<4>(a, b)); CHECK(!scalar::equal<1>({1ull << 32}, {0}));')
S('c05-rsh-wide', 'C05', 'shifting right by a multiple of 64 at or beyond the width', 'the shift by whole words wraps around',
  [('include/bls12-381/scalar.hpp', '''    uint64_t num_bytes = bits / 64;
    uint64_t num_bits  = bits % 64;
''', '''    uint64_t num_bytes = static_cast<uint8_t>(bits >> 3) >> 3;
    uint64_t num_bits  = bits % 64;
''')],
  'array<uint64_t,4> a{1,2,3,4}, o, z{}; for(uint64_t s : {256ull, 320ull, 2048ull, 4096ull, 2049ull + 64, 1ull << 40}) { scalar::rsh(o, a, s); CHECK(o == z); } scalar::rsh(o, a, 64); CHECK(o[0] == 2);')
# ---------------------------------------------------------------- C06
S('c06-add-same-z', 'C06', 'adding two representations of one G2 point that differ in Z but share the raw Y sign', 'the sum of a point and a rescaled copy is infinity',
  [('src/g.cpp', '''    if(t[1].equal(t[3]))
    {
        if(t[0].equal(t[2]))
        {
            doubleAssign();
            return;
        }
        *this = zero();
        return;
    }

    t[1] = t[1].subtract(t[3]);''', '''    if(t[1].equal(t[3]))
    {
        if(y.equal(e.y))
        {
            doubleAssign();
            return;
        }
        *this = zero();
        return;
    }

    t[1] = t[1].subtract(t[3]);''')],
  'g2 p = rg2(), q = rez(p, rfp2()); CHECK(p.add(p).equal(p.dbl())); CHECK(q.equal(p)); CHECK(p.add(q).equal(p.dbl())); CHECK(p.add(q.negate()).isZero());')
S('c06-affine-z', 'C06', 'a G2 point whose Z has real part one and a non-zero imaginary part', 'it is taken for affine and keeps its coordinates',
  [('src/g.cpp', '''bool g2::isAffine() const
{
    return z.isOne();''', '''bool g2::isAffine() const
{
    return z.c0.isOne();''')],
  'g2 p = rg2(), q = rez(p, fp2({fp::one(), rfp()})); CHECK(q.equal(p)); CHECK(!q.isAffine()); CHECK(q.affine().z.isOne()); CHECK(q.affine().x.equal(p.x)); CHECK(p.isAffine());')
S('c06-double-y', 'C06', 'doubling infinity in place when it is stored with a Y other than one', 'infinity is no longer recognised',
  [('src/g.cpp', '''    _multiply(&t[0], &y, &z);
    y = t[1];
    _double(&z, &t[0]);''', '''    _add(&t[0], &y, &z);
    _square(&t[0], &t[0]);
    _square(&t[3], &y);
    _subtract(&t[0], &t[0], &t[3]);
    _square(&t[3], &z);
    _subtract(&z, &t[0], &t[3]);
    y = t[1];'''), ('src/g.cpp', '''    if(isZero())
    {
        return;
    }
    fp t[5];
''', '''    if(isZero() && y.isOne())
    {
        return;
    }
    fp t[5];
''')],
  'g1 a({fp::zero(), fp::zero(), fp::zero()}); a.doubleAssign(); CHECK(a.isZero()); g1 b = g1::zero(); b.doubleAssign(); CHECK(b.isZero()); g1 c({rfp(), rfp(), fp::zero()}); g1 d = c; d.doubleAssign(); CHECK(d.isZero()); CHECK(d.x.equal(c.x)); g1 p = rg1(); CHECK(p.dbl().equal(p.add(p)));')
SEEDS.pop()   # the value stays infinity: no semantic difference
# ---------------------------------------------------------------- C07
S('c07-scale-modr', 'C07', 'a point outside the prime-order subgroup and a 256-bit scalar not below the group order', 'the multiple is that of the reduced scalar',
  [('include/bls12-381/scalar.hpp', '''    g2 n = *this;
    uint64_t l = scalar::bitLength(s);
    for(uint64_t i = 0; i < l; i++)
    {
        if((s[i/64] >> (i%64) & 1) == 1)''', '''    g2 n = *this;
    std::array<uint64_t, N> k = s;
    if constexpr(N == 4)
    {
        std::array<uint64_t, N> quotient = {};
        bn_divn_safe(quotient, k, s, fp::Q);
    }
    uint64_t l = scalar::bitLength(k);
    for(uint64_t i = 0; i < l; i++)
    {
        if((k[i/64] >> (i%64) & 1) == 1)''')],
  'g2 p = rg2(); array<uint64_t,4> k{~0ull, ~0ull, ~0ull, ~0ull}; array<uint64_t,5> w{0, 0, 0, 0, 1}; CHECK(p.scale(k).add(p).equal(p.scale(w))); g2 q = g2::one(); CHECK(q.scale(k).add(q).equal(q.scale(w)));')
S('c07-infinity-break', 'C07', 'a point of small odd order and a scalar with bits beyond the order', 'the loop stops early once the accumulator is infinity',
  [('include/bls12-381/scalar.hpp', '''            q = q.add(n);
        }
        n = n.dbl();
    }
    return q;
}

template<size_t N>
g2 g2''', '''            q = q.add(n);
            if(q.isZero())
            {
                // n ran into the order of the point
                break;
            }
        }
        n = n.dbl();
    }
    return q;
}

template<size_t N>
g2 g2''')],
  'g1 p({fp::zero(), fp({2,0,0,0,0,0}).toMont(), fp::one()}); CHECK(p.isOnCurve()); CHECK(p.scale<1>({3}).isZero()); CHECK(p.scale<1>({7}).equal(p)); CHECK(p.scale<1>({5}).equal(p.negate())); CHECK(p.scale<1>({0x13}).equal(p));')
# ---------------------------------------------------------------- C08
S('c08-window-top', 'C08', 'a G2 sum with a scalar that has bit 255 set, when 255 is a multiple of the window width (lists of fewer than 32 entries)', 'bit 255 of the scalars is ignored',
  [('src/g.cpp', '    uint64_t windowsSize = 255/c+1;\n    vector<g2> windows;', '    uint64_t windowsSize = 254/c+1;\n    vector<g2> windows;')],
  '''for(int n : {1, 2, 31}) { vector<g2> p; vector<array<uint64_t,4>> s; g2 a = g2::zero(); for(int i = 0; i < n; i++) { p.push_back(g2::one().scale<1>({rnd()})); array<uint64_t,4> k{rnd(), rnd(), rnd(), rnd() | 1ull << 63}; s.push_back(k); a = a.add(p[i].scale(k)); }
 CHECK(g2::weightedSum(p, s).equal(a)); }''')
S('c08-merge', 'C08', 'the same point twice in a row with scalars that add up to 2^256 or more', 'the sum of the two scalars wraps around',
  [('src/g.cpp', '''    vector<g1> windows;
    windows.reserve(windowsSize);''', '''    // runs of one point need a single scalar
    vector<array<uint64_t, 4>> merged(scalars.begin(), scalars.begin() + effective_size);
    for(uint64_t i = 1; i < effective_size; i++)
    {
        if(points[i].x.equal(points[i-1].x) && points[i].y.equal(points[i-1].y) && points[i].z.equal(points[i-1].z))
        {
            uint64_t carry = 0;
            for(uint64_t k = 0; k < 4; k++)
            {
                tie(merged[i][k], carry) = Add64(merged[i][k], merged[i-1][k], carry);
            }
            merged[i-1].fill(0);
        }
    }
    vector<g1> windows;
    windows.reserve(windowsSize);'''), ('src/g.cpp', 'scalar::rsh(shifted, scalars[i], c*j);', 'scalar::rsh(shifted, merged[i], c*j);', 0)],
  '''for(auto h : {0x1000ull, ~0ull}) { g1 b = rg1(); vector<g1> p{b, b}; vector<array<uint64_t,4>> s{{rnd(), rnd(), rnd(), h}, {rnd(), rnd(), rnd(), h}}; CHECK(g1::weightedSum(p, s).equal(b.scale(s[0]).add(b.scale(s[1])))); }''')
# ---------------------------------------------------------------- C09
S('c09-x-only', 'C09', 'the points (0, 2) and (0, -2) of order three', 'they pass the subgroup test',
  [('src/g.cpp', '''    g1 t0 = this->glvEndomorphism();
    g1 t1 = t0;
    t0 = t0.glvEndomorphism();
    t1 = t1.dbl();
    t1 = t1.subtract(*this);
    t1 = t1.subtract(t0);
    t1 = t1.scale<2>({0x0000000055555555, 0x396c8c005555e156});
    t1 = t1.subtract(t0);
    return t1.isZero();''', '''    // sigma^2(P) ?= -[x^2]P
    if(isZero())
    {
        return true;
    }
    g1 t0 = this->glvEndomorphism().glvEndomorphism();
    g1 t1 = this->scale<2>({0x0000000100000000, 0xac45a4010001a402});
    return !t1.isZero() && t1.affine().x.equal(t0.x);''')],
  'fp two = fp({2,0,0,0,0,0}).toMont(); CHECK(!g1({fp::zero(), two, fp::one()}).inCorrectSubgroup()); CHECK(!g1({fp::zero(), two.negate(), fp::one()}).inCorrectSubgroup()); CHECK(g1::one().inCorrectSubgroup()); CHECK(!rg1().inCorrectSubgroup()); CHECK(g1::zero().inCorrectSubgroup());')
S('c09-oncurve-c0', 'C09', 'a G2 coordinate pair off the curve whose curve equation holds in the real part only', 'it counts as on the curve',
  [('src/g.cpp', '''    t[2] = fp2::B.multiply(t[2]);
    t[1] = t[1].add(t[2]);
    return t[0].equal(t[1]);''', '''    t[2] = fp2::B.multiply(t[2]);
    t[1] = t[1].add(t[2]);
    return t[0].c0.equal(t[1].c0);''')],
  'for(int i = 0; i < 40; i++) { g2 p; p.x = rfp2(); p.z = fp2::one(); fp2 t = p.x.square().multiply(p.x).add(fp2::B); t.c1 = rfp(); if(!t.sqrt(p.y)) continue; CHECK(!p.isOnCurve()); } CHECK(rg2().isOnCurve());')
S('c09-glv-affine', 'C09', 'the subgroup test on a G1 point outside the subgroup stored with Z different from one... any projective point', 'the endomorphism forgets Z',
  [('src/g.cpp', '''    g1 t = this->affine();
    t.x = t.x.phi();
    return t;''', '''    g1 t = *this;
    t.x = t.x.phi();
    if(!isOnCurve())
    {
        t.z = fp::one();
    }
    return t;''')], 'return 0;')
SEEDS.pop()
S('c09-psi4', 'C09', 'a point of order 13 on one particular line of the 13-torsion of the G2 curve', 'it passes the subgroup test',
  [('src/g.cpp', '''    t0 = this->psi();
    t0 = t0.psi();
    t1 = t0.negate();               // - ψ^2(P)
    t0 = t0.psi();                  // ψ^3(P)
    t0 = t0.scale(cofactorEFF);     // - x ψ^3(P)
    t0 = t0.negate();

    t0 = t0.add(t1);
    t0 = t0.add(*this);

    return t0.isZero();''', '''    // psi acts on the subgroup as multiplication by x
    t0 = this->psi();
    t0 = t0.psi();
    t0 = t0.psi();
    t0 = t0.psi();
    t1 = this->scale(cofactorEFF).scale(cofactorEFF);
    t1 = t1.scale(cofactorEFF).scale(cofactorEFF);

    return t0.equal(t1);''')],
  '''// h2 / 13 times r as a multiplier leaves points of order 13
 array<uint64_t,12> m = {@H2R13@};
 int n = 0, bad = 0; for(int i = 0; i < 60 && !bad; i++) { g2 t = rg2().scale(m); if(t.isZero()) continue; n++; CHECK(t.scale<1>({13}).isZero()); bad += t.inCorrectSubgroup();
   g2 u = t; for(int k = 1; k < 13; k++) u = u.add(t); CHECK(u.isZero()); } CHECK(n > 20 && !bad); CHECK(g2::one().inCorrectSubgroup()); CHECK(!rg2().inCorrectSubgroup());''')
x = -0xd201000000010000
h2 = (x**8-4*x**7+5*x**6-4*x**4+6*x**3-4*x**2-4*x+13)//9
m = h2//169*(x**4-x**2+1)
ws = []
while m: ws.append(hex(m & (2**64-1)) + 'ull'); m >>= 64
ws += ['0'] * (12 - len(ws)); assert len(ws) == 12
SEEDS[-1]['demo'] = SEEDS[-1]['demo'].replace('@H2R13@', ', '.join(ws))
