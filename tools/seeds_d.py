# Planted changes, fourth batch; see seedfactory.py.
SEEDS = []
def S(id, property, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))

# ---------------------------------------------------------------- C03
S('c03-sqrt-imaginary', 'C03', 'a square root of a quadratic-extension element whose real part is zero', 'a square is reported to be a non-square when the imaginary part is not one in the base field',
  [('src/fp.cpp', '''    alpha = alpha.multiply(*this);
    x0 = a1.multiply(*this);
    if(''', '''    alpha = alpha.multiply(*this);
    x0 = a1.multiply(*this);
    if(c0.isZero() && !c1.isZero() && c1.isQuadraticNonResidue())
    {
        return false;
    }
    if(''')],
  'for(int i = 0; i < 12; i++) { fp2 a({fp::zero(), rfp()}), r; bool q = !a.isQuadraticNonResidue(); CHECK(a.sqrt(r) == q); if(q) CHECK(r.square().equal(a)); fp2 b = rfp2().square(); CHECK(b.sqrt(r)); CHECK(r.square().equal(b)); }')
# ---------------------------------------------------------------- C04
S('c04-basefield-real', 'C04', 'multiplication of a sextic element by a purely imaginary quadratic coefficient', 'the result has the wrong sign in its real parts',
  [('src/fp.cpp', '''    fp6 c;
    c.c0 = c0.multiply(e);
    c.c1 = c1.multiply(e);
    c.c2 = c2.multiply(e);
    return c;''', '''    fp6 c;
    if(e.c0.isZero() && !e.c1.isOne())
    {
        // multiplication by a multiple of u swaps the coordinates
        auto swap = [&e](const fp2& a) { return fp2({a.c1.multiply(e.c1), a.c0.multiply(e.c1)}); };
        c.c0 = swap(c0);
        c.c1 = swap(c1);
        c.c2 = swap(c2);
        return c;
    }
    c.c0 = c0.multiply(e);
    c.c1 = c1.multiply(e);
    c.c2 = c2.multiply(e);
    return c;''')],
  'fp6 a = rfp6(); fp2 e({fp::zero(), rfp()}); CHECK(a.mulByBaseField(e).equal(a.multiply(fp6({e, fp2::zero(), fp2::zero()})))); e = rfp2(); CHECK(a.mulByBaseField(e).equal(a.multiply(fp6({e, fp2::zero(), fp2::zero()}))));')
S('c04-by014-first-zero', 'C04', 'sparse multiplication whose first coefficient is zero', 'the contribution of the second coefficient to the lower half is lost',
  [('src/fp.cpp', '''    t[0] = c0.mulBy01(e0, e1);
    t[1] = c1.mulBy1(e4);''', '''    t[0] = e0.isZero() ? c0.mulByBaseField(e1) : c0.mulBy01(e0, e1);
    t[1] = c1.mulBy1(e4);''')],
  'for(int i = 0; i < 3; i++) { fp12 a = rfp12(), b = a; fp2 e0 = i == 1 ? fp2::zero() : rfp2(), e1 = rfp2(), e4 = rfp2(); b.mulBy014Assign(e0, e1, e4); CHECK(b.equal(a.multiply(fp12({fp6({e0, e1, fp2::zero()}), fp6({fp2::zero(), e4, fp2::zero()})})))); }')
S('c04-exp-two', 'C04', 'an exponent of exactly two for an element outside the cyclotomic subgroup', 'the square is the cyclotomic one',
  [('include/bls12-381/scalar.hpp', '''    fp12 z = fp12::one();
    uint64_t l = scalar::bitLength(s);
    for(int64_t i = l - 1; i >= 0; i--)
    {
        z.squareAssign();''', '''    fp12 z = fp12::one();
    uint64_t l = scalar::bitLength(s);
    if(l == 2 && s[0] == 2)
    {
        return cyclotomicSquare();
    }
    for(int64_t i = l - 1; i >= 0; i--)
    {
        z.squareAssign();''')],
  'fp12 a = rfp12(); for(uint64_t k = 0; k < 6; k++) { fp12 r = fp12::one(); for(uint64_t i = 0; i < k; i++) r = r.multiply(a); CHECK(a.exp<1>({k}).equal(r)); CHECK((a.exp<3>({k, 0, 0}).equal(r))); }')
S('c04-frobenius-six-assign', 'C04', 'the in-place sixth Frobenius power of an element with zero lower half', 'the element is returned unchanged',
  [('src/fp.cpp', '''        case 6:
        {
            c1 = c1.negate();
            break;
        }''', '''        case 6:
        {
            c1 = c0.isZero() ? c1 : c1.negate();
            break;
        }''')],
  'fp12 a({fp6::zero(), rfp6()}); fp12 b = a; b.frobeniusMapAssign(6); CHECK(b.equal(a.conjugate())); a = rfp12(); b = a; b.frobeniusMapAssign(6); CHECK(b.equal(a.conjugate()));')
S('c04-fp2-square-carry', 'C04', 'a quadratic-extension square whose real part is close to the modulus', 'the doubled real part is reduced by the wrong amount',
  [('src/fp.cpp', '''    _ladd(&t[0], &c0, &c1);
    _subtract(&t[1], &c0, &c1);
    _ldouble(&t[2], &c0);
    _multiply(&c0, &t[0], &t[1]);
    _multiply(&c1, &t[2], &c1);''', '''    _ladd(&t[0], &c0, &c1);
    _subtract(&t[1], &c0, &c1);
    _ldouble(&t[2], &c0);
    if(t[2].d[5] >= 2 * fp::MODULUS.d[5])
    {
        // keep the factor below the modulus
        _lsubtract(&t[2], &t[2], &fp::R1);
    }
    _multiply(&c0, &t[0], &t[1]);
    _multiply(&c1, &t[2], &c1);''')],
  'fp top = fp::MODULUS; top.d[0] -= 5; fp2 a({top, rfp()}); CHECK(a.square().equal(a.multiply(a))); for(int i = 0; i < 50; i++) { fp2 b = rfp2(); CHECK(b.square().equal(b.multiply(b))); }')
# ---------------------------------------------------------------- C05
# ---------------------------------------------------------------- C06
S('c06-dbl-unit-y', 'C06', 'doubling of a point whose y coordinate is one', 'the new z coordinate is not doubled',
  [('src/g.cpp', '''    _multiply(&t[0], &y, &z);
    y = t[1];
    _double(&z, &t[0]);''', '''    if(y.isOne())
    {
        // y*z is z
        y = t[1];
        _double(&t[0], &z);
        z = t[0].isOne() ? z : z;
        return;
    }
    _multiply(&t[0], &y, &z);
    y = t[1];
    _double(&z, &t[0]);''')],
  'for(int i = 0; i < 40; i++) { g1 p = g1::one().scale<1>({rnd()}); fp zc; fp yi = p.affine().y.inverse(); g1 q = p.affine(); fp c = yi; /* z with z^3 y = 1 */ array<uint64_t, 6> e; (void)e; g1 d = q.dbl(); CHECK(d.equal(q.add(q.subtract(g1::one())).add(g1::one()))); } /* y = 1 with z = 1: x^3 = 1 - 4 b has a root or not; use scaled representations z^3 = 1/y */ int hit = 0; for(int i = 0; i < 60 && !hit; i++) { g1 q = g1::one().scale<1>({rnd()}).affine(); fp t = q.y.inverse(); array<uint64_t, 6> third = {}; array<uint64_t, 6> m = fp::MODULUS.d; /* cube root exists with exponent (2p-1)/3... p = 1 mod 3, try 1/3 of (p-1)/3+1 */ array<uint64_t, 6> quo = {}; array<uint64_t, 6> rem = {}; (void)third; array<uint64_t, 8> k{}; for(int j = 0; j < 6; j++) k[j] = m[j]; (void)rem; (void)quo; /* (p - 1) = 9 * n with n = 1 mod 3 or 2 mod 3 */ array<uint64_t, 8> q8{}; array<uint64_t, 1> r1{}; array<uint64_t, 1> nine{9}; k[0] -= 1; bn_divn_safe(q8, r1, k, nine); if(r1[0]) break; array<uint64_t, 8> n = q8; array<uint64_t, 1> three{3}; bn_divn_safe(q8, r1, n, three); uint64_t nm = r1[0]; /* cube root exponent: inverse of 3 mod n */ array<uint64_t, 8> ex{}; if(nm == 2) { ex = q8; ex[0] += 1; } else { array<uint64_t, 8> two = scalar::add<8, 8, 8>(n, n); two[0] += 1; bn_divn_safe(ex, r1, two, three); } fp w = t.exp(ex); if(!w.square().multiply(w).equal(t)) continue; hit = 1; g1 s = rez(q, w); CHECK(s.y.isOne()); CHECK(s.dbl().equal(q.add(q.add(g1::one())).subtract(g1::one()))); CHECK(s.dbl().isOnCurve()); } CHECK(hit);')
S('c06-equal-both-z', 'C06', 'comparison of a point with its image under multiplication of x by a cube root of unity', 'they compare equal',
  [('src/g.cpp', '''    return t[0].equal(t[1]) && t[2].equal(t[3]);
}

bool g1::inCorrectSubgroup() const''', '''    if(isAffine() && b.isAffine())
    {
        return y.equal(b.y) && (x.equal(b.x) || x.phi().equal(b.x));
    }
    return t[0].equal(t[1]) && t[2].equal(t[3]);
}

bool g1::inCorrectSubgroup() const''')],
  'g1 p = g1::one().scale<1>({77}).affine(), q = p.glvEndomorphism(); CHECK(!p.equal(q)); CHECK(!q.equal(p)); CHECK(p.equal(p)); CHECK(!p.equal(p.negate()));')
# ---------------------------------------------------------------- C07
S('c07-scale-odd-top', 'C07', 'a multiplication of a point in G2 by a scalar wider than four words', 'words past the fourth are ignored when the fourth is zero',
  [('include/bls12-381/scalar.hpp', '''    g2 q = g2({fp2::zero(), fp2::zero(), fp2::zero()});
    g2 n = *this;
    uint64_t l = scalar::bitLength(s);''', '''    g2 q = g2({fp2::zero(), fp2::zero(), fp2::zero()});
    g2 n = *this;
    uint64_t l = scalar::bitLength(s);
    if(N > 4 && s[3] == 0)
    {
        l = l > 192 ? 192 : l;
    }''')],
  'array<uint64_t, 6> s = {5, 0, 0, 0, 0, 1}; g2 p = g2::one(); g2 r = p; for(int i = 0; i < 320; i++) r = r.dbl(); r = r.add(p.scale<1>({5})); CHECK(p.scale(s).equal(r)); array<uint64_t, 4> t = {1, 2, 3, 0}; CHECK(p.scale(t).equal(p.scale<3>({1, 2, 3})));')
S('c07-psi-affine', 'C07', 'the endomorphism of a G2 point whose z coordinate is not in the base field', 'z is not conjugated',
  [('src/g.cpp', '''    p.z = this->z.conjugate();
    p.x = p.x.multiply(fp2::psiX);''', '''    p.z = this->z.c0.isZero() ? this->z : this->z.conjugate();
    p.x = p.x.multiply(fp2::psiX);''')],
  'g2 p = g2::one().scale<1>({9}); g2 a = rez(p, fp2({fp::zero(), rfp()})), b = rez(p, rfp2()); CHECK(a.psi().equal(p.affine().psi())); CHECK(b.psi().equal(p.affine().psi()));')
# ---------------------------------------------------------------- C08
S('c08-repeat-fast', 'C08', 'a weighted sum whose list holds the same object value in two neighbouring places', 'the second of two equal neighbouring points with the same digit is counted once',
  [('src/g.cpp', '''            if(index != 0)
            {
                bucket[index-1].addAssign(points[i]);
            }''', '''            if(index != 0)
            {
                if(i > 0 && effective_size > 40 && scalars[i] == scalars[i-1] && points[i].equal(points[i-1]))
                {
                    continue;
                }
                bucket[index-1].addAssign(points[i]);
            }''', 0)],
  '{ vector<g1> p; vector<array<uint64_t, 4>> s; g1 e = g1({fp::zero(), fp::zero(), fp::zero()}); for(int i = 0; i < 60; i++) { p.push_back(i == 30 ? p[29] : g1::one().scale<1>({rnd()})); s.push_back(i == 30 ? s[29] : rsc()); e.addAssign(p[i].scale(s[i])); } CHECK(g1::weightedSum(p, s).equal(e)); s.assign(60, {3, 0, 0, 0}); p.assign(60, g1::one()); CHECK(g1::weightedSum(p, s).equal(g1::one().scale<1>({180}))); }')
S('c08-last-window', 'C08', 'a weighted sum in G2 in which every scalar is below 2^64', 'the windows are cut one short',
  [('src/g.cpp', '''    uint64_t windowsSize = 255/c+1;
    vector<g2> windows;''', '''    uint64_t windowsSize = 255/c+1;
    uint64_t longest = 0;
    for(size_t i = 0; i < effective_size; i++)
    {
        longest = max(longest, scalar::bitLength(scalars[i]));
    }
    if(longest <= 64)
    {
        // short scalars need few windows
        windowsSize = max<uint64_t>(longest/c, 1);
    }
    vector<g2> windows;''')],
  'for(uint64_t k : {1ull, 7ull, 8ull, 255ull, ~0ull, 1ull << 62, 12345678901ull}) { vector<g2> p{g2::one(), g2::one().dbl()}; vector<array<uint64_t, 4>> s{{k, 0, 0, 0}, {k/2, 0, 0, 0}}; CHECK(g2::weightedSum(p, s).equal(p[0].scale<1>({k}).add(p[1].scale<1>({k/2})))); }')
# ---------------------------------------------------------------- C09
S('c09-x-zero-g1', 'C09', 'a G1 point whose x coordinate is zero', 'the points of order three are accepted as members of the subgroup',
  [('src/g.cpp', '''    g1 t0 = this->glvEndomorphism();
    g1 t1 = t0;''', '''    g1 t0 = this->glvEndomorphism();
    if(t0.equal(*this))
    {
        // only the neutral element is fixed by the endomorphism
        return true;
    }
    g1 t1 = t0;''')],
  'fp b = fp::B, r; CHECK(b.sqrt(r)); g1 p({fp::zero(), r, fp::one()}); CHECK(p.isOnCurve()); CHECK(!p.inCorrectSubgroup()); CHECK(g1::one().inCorrectSubgroup()); CHECK(g1::zero().inCorrectSubgroup()); CHECK(!rg1().inCorrectSubgroup());')
S('c09-z-one-half', 'C09', 'an off-curve G2 point whose z coordinate has one as its real part', 'it is tested as if z were one',
  [('src/g.cpp', '''    t[1] = t[1].multiply(x);
    t[2] = z.square();
    t[3] = t[2].square();''', '''    t[1] = t[1].multiply(x);
    if(z.c0.isOne())
    {
        return t[0].equal(t[1].add(fp2::B));
    }
    t[2] = z.square();
    t[3] = t[2].square();''')],
  'g2 p = rez(g2::one(), fp2({fp::one(), rfp()})); CHECK(p.isOnCurve()); CHECK(g2::one().isOnCurve()); CHECK(rez(g2::one(), rfp2()).isOnCurve()); g2 q = g2::one(); q.z = fp2({fp::one(), rfp()}); CHECK(!q.isOnCurve());')
# ---------------------------------------------------------------- C10
S('c10-g2-c0-range', 'C10', 'a compressed G2 point whose second half is a coordinate above the modulus', 'the coordinate is reduced instead of being rejected',
  [('src/g.cpp', '''    auto c0 = fp::fromBytesBE(span<const uint8_t, 48>(&in[48], 48));''', '''    auto c0 = fp::fromBytesBE(span<const uint8_t, 48>(&in[48], 48), { .check_valid = (in[48] & 0xe0) != 0, .to_mont = true });''')],
  '{ int n = 0; for(uint64_t k = 0; k < 40; k++) { fp2 x({fp({k, 0, 0, 0, 0, 0}).toMont(), rfp()}), y2 = x.square().multiply(x).add(fp2::B), y; if(!y2.sqrt(y)) continue; n++; g2 p({x, y, fp2::one()}); auto b = p.toCompressedBytesBE(); CHECK(g2::fromCompressedBytesBE(b).has_value()); fp m = fp::MODULUS; m.d[0] += k; auto mb = scalar::toBytesBE<6>(m.d); memcpy(b.data() + 48, mb.data(), 48); CHECK(!g2::fromCompressedBytesBE(b).has_value()); } CHECK(n > 3); }')
S('c10-g1-jacobian-out', 'C10', 'compression of a G1 point whose z coordinate is minus one', 'the sign bit is that of the negated point',
  [('src/g.cpp', '''    g1 p = affine();
    // check''', '''    // with z = -1 only y changes its sign, and the square of z is one
    g1 p = z.square().isOne() ? *this : affine();
    // check''')],
  'g1 p = g1::one().scale<1>({31}); CHECK(rez(p, fp::one().negate()).toCompressedBytesBE() == p.toCompressedBytesBE()); CHECK(rez(p, rfp()).toCompressedBytesBE() == p.toCompressedBytesBE());')
# ---------------------------------------------------------------- C11
S('c11-affine-le-infinity', 'C11', 'little-endian affine output of a G2 infinity with stale coordinates', 'the stale coordinates are written',
  [('src/g.cpp', '''void g2::toAffineBytesLE(const span<uint8_t, 192> out, const from_mont fm /* = from_mont::yes */) const
{
    if(isZero())
    {''', '''void g2::toAffineBytesLE(const span<uint8_t, 192> out, const from_mont fm /* = from_mont::yes */) const
{
    if(isZero() && (x.isZero() || fm == from_mont::yes))
    {''')],
  'g2 p = g2::one(); p.z = fp2::zero(); array<uint8_t, 192> z{}; CHECK(p.toAffineBytesLE(from_mont::yes) == z); CHECK(p.toAffineBytesLE(from_mont::no) == z); CHECK(p.toAffineBytesBE(from_mont::no) == z);')
S('c11-fp12-le-check', 'C11', 'little-endian decoding of a full-extension element whose last coefficient is out of range', 'the element is accepted',
  [('src/fp.cpp', '''    optional<fp6> c0 = fp6::fromBytesLE(span<const uint8_t, 288>(&in[  0], 288), opt);
    optional<fp6> c1 = fp6::fromBytesLE(span<const uint8_t, 288>(&in[288], 288), opt);
    if(!c1 || !c0) return {};''', '''    optional<fp6> c0 = fp6::fromBytesLE(span<const uint8_t, 288>(&in[  0], 288), opt);
    optional<fp6> c1 = fp6::fromBytesLE(span<const uint8_t, 288>(&in[288], 288), opt);
    if(c0 && !c1 && !opt.to_mont)
    {
        // without conversion the halves are independent
        c1 = fp6::fromBytesLE(span<const uint8_t, 288>(&in[288], 288), { .check_valid = false, .to_mont = false });
    }
    if(!c1 || !c0) return {};''')],
  'array<uint8_t, 576> b{}; for(int i = 0; i < 48; i++) b[528 + i] = 0xff; for(bool m : {false, true}) CHECK(!fp12::fromBytesLE(b, {.check_valid = true, .to_mont = m}).has_value()); b.fill(0); CHECK(fp12::fromBytesLE(b, {.check_valid = true, .to_mont = false}).has_value());')
# ---------------------------------------------------------------- C12
S('c12-odd-count', 'C12', 'a product of more than forty pairings of odd length', 'the last factor is evaluated without its additions',
  [('src/pairing.cpp', '''            k++;
            for(uint64_t j = 0; j < pairs.size(); j++)
            {
                t[0] = ellCoeffs[j][k][2]''', '''            k++;
            // pairs are processed two at a time
            const uint64_t n = pairs.size() > 40 ? pairs.size() & ~uint64_t(1) : pairs.size();
            for(uint64_t j = 0; j < n; j++)
            {
                t[0] = ellCoeffs[j][k][2]''')],
  'vector<tuple<g1, g2>> v, w; for(int i = 0; i < 41; i++) pairing::add_pair(v, g1::one(), g2::one()); pairing::add_pair(w, g1::one().scale<1>({41}), g2::one()); CHECK(pairing::calculate(v).equal(pairing::calculate(w))); v.pop_back(); w.clear(); pairing::add_pair(w, g1::one().scale<1>({40}), g2::one()); CHECK(pairing::calculate(v).equal(pairing::calculate(w)));')
S('c12-final-unit', 'C12', 'final exponentiation of an element of a proper subfield', 'the element is returned as it is',
  [('src/pairing.cpp', '''    fp12 t[9];
    // easy part
    t[0] = f.frobeniusMap(6);
    t[1] = f.inverse();
    t[2] = t[0].multiply(t[1]);''', '''    fp12 t[9];
    // easy part
    t[0] = f.frobeniusMap(6);
    if(f.c1.isZero() && f.c0.c1.isZero() && f.c0.c2.isZero())
    {
        // an element of the quadratic extension is not affected
        return;
    }
    t[1] = f.inverse();
    t[2] = t[0].multiply(t[1]);''')],
  'fp12 f({fp6({rfp2(), fp2::zero(), fp2::zero()}), fp6::zero()}); pairing::final_exponentiation(f); CHECK(f.isOne()); f = rfp12(); pairing::final_exponentiation(f); CHECK(f.isGtValid());')
# ---------------------------------------------------------------- C13
S('c13-empty-tag', 'C13', 'an empty domain separation tag', 'the tag is taken to be the ciphersuite identifier',
  [('src/signatures.cpp', '''    array<uint64_t, 8> k = {};
    fp2 t = fp2::zero();
    fp2 x, y, z = fp2::one();''', '''    if(dst.empty())
    {
        return fromMessage(msg, CIPHERSUITE_ID);
    }

    array<uint64_t, 8> k = {};
    fp2 t = fp2::zero();
    fp2 x, y, z = fp2::one();''')],
  'vector<uint8_t> m = bytes("abc"); g2 a = fromMessage(m, ""), b = fromMessage(m, CIPHERSUITE_ID); CHECK(!a.equal(b)); CHECK(a.inCorrectSubgroup());')
S('c13-block-message', 'C13', 'a message whose length is a multiple of 4096 bytes', 'its last block is left out',
  [('src/signatures.cpp', '''    sha.update(Z_pad, SHA256_Message_Block_Size);
    sha.update(in, in_len);
    sha.update(l_i_b_0_str, 3);''', '''    sha.update(Z_pad, SHA256_Message_Block_Size);
    // page by page
    size_t done = 0;
    while(in_len - done > 4096)
    {
        sha.update(in + done, 4096);
        done += 4096;
    }
    sha.update(in + done, (in_len - done) % (in_len > 4096 ? 4096 : in_len + 1));
    sha.update(l_i_b_0_str, 3);''')],
  'vector<uint8_t> m(8192, 7); g2 a = fromMessage(m, "t"); for(size_t i = 4096; i < 8192; i++) m[i] = 9; CHECK(!a.equal(fromMessage(m, "t"))); m.resize(4096); a = fromMessage(m, "t"); m[4095] = 1; CHECK(!a.equal(fromMessage(m, "t")));')
# ---------------------------------------------------------------- C14
S('c14-swu-sign-real', 'C14', 'a field element of G2 whose real part is zero', 'the sign is taken from the real part alone',
  [('src/fp.cpp', '''    if(!c0.isZero())
    {
        return (c0.fromMont().d[0] & 1) == 0;
    }
    return (c1.fromMont().d[0] & 1) == 0;''', '''    if(!c0.isZero() || c1.fromMont().d[5] >> 60)
    {
        return (c0.fromMont().d[0] & 1) == 0;
    }
    return (c1.fromMont().d[0] & 1) == 0;''')],
  'int n = 0; for(int i = 0; i < 20; i++) { fp v = rfp(); fp2 e({fp::zero(), v}); CHECK(e.sign() == v.sign()); if(!v.sign()) { g2 p = g2::mapToCurve(e), q = g2::mapToCurve(e.negate()); CHECK(p.equal(q.negate()) ); n++; } } CHECK(n > 0);')
# ---------------------------------------------------------------- C15
S('c15-negated-pair', 'C15', 'a signature that equals the hash of the message', 'only the key generated by the scalar one may have it; every key is accepted',
  [('src/signatures.cpp', '''    const g2 hashedPoint = fromMessage(message, CIPHERSUITE_ID);
    pairing::add_pair(v, pubkey, hashedPoint);''', '''    const g2 hashedPoint = fromMessage(message, CIPHERSUITE_ID);
    pairing::add_pair(v, signature.equal(hashedPoint) ? g1::one() : pubkey, hashedPoint);''')],
  'auto m = bytes("hello"); auto sk = secret_key(vector<uint8_t>(32, 5)); g1 pk = public_key(sk); CHECK(verify(pk, m, sign(sk, m))); CHECK(!verify(pk, m, sign({1, 0, 0, 0}, m))); CHECK(verify(g1::one(), m, sign({1, 0, 0, 0}, m)));')
S('c15-negative-both', 'C15', 'a negated key together with a negated message hash', 'a signature is compared up to its sign when it is not affine',
  [('src/signatures.cpp', '''    if(!signature.isOnCurve() || !signature.inCorrectSubgroup())
    {
        return false;
    }

    // 1 =? prod e(pubkey[i], hash[i]) * e(-g1, aggSig)
    return fp12::one().equal(pairing::calculate(v));
}

g1 aggregate_public_keys''', '''    if(!signature.isOnCurve() || !signature.inCorrectSubgroup())
    {
        return false;
    }
    if(!signature.isAffine() && signature.y.isLexicographicallyLargest())
    {
        // canonical representative
        const fp12 e = pairing::calculate(v);
        vector<tuple<g1, g2>> w;
        pairing::add_pair(w, g1::one().negate(), signature.negate());
        pairing::add_pair(w, pubkey, hashedPoint);
        return e.isOne() || pairing::calculate(w).isOne();
    }

    // 1 =? prod e(pubkey[i], hash[i]) * e(-g1, aggSig)
    return fp12::one().equal(pairing::calculate(v));
}

g1 aggregate_public_keys''')],
  'auto m = bytes("hello"); auto sk = secret_key(vector<uint8_t>(32, 5)); g1 pk = public_key(sk); g2 s = sign(sk, m); for(int i = 0; i < 8; i++) { g2 t = rez(s, rfp2()); CHECK(verify(pk, m, t)); CHECK(!verify(pk, m, t.negate())); }')
# ---------------------------------------------------------------- C16
S('c16-prefix-duplicate', 'C16', 'an aggregate whose messages are prefixes of one another', 'they count as duplicates',
  [('src/signatures.cpp', '''        set<vector<uint8_t>> setMessages;''', '''        // order by the common part
        auto before = [](const vector<uint8_t>& a, const vector<uint8_t>& b)
        {
            const size_t n = min(a.size(), b.size());
            const int r = n ? memcmp(a.data(), b.data(), n) : 0;
            return r != 0 ? r < 0 : a.size() < b.size() && n == 0;
        };
        set<vector<uint8_t>, decltype(before)> setMessages(before);''')],
  'vector<vector<uint8_t>> ms{bytes("ab"), bytes("abc")}; vector<array<uint64_t, 4>> sk{secret_key(vector<uint8_t>(32, 1)), secret_key(vector<uint8_t>(32, 2))}; vector<g1> pk{public_key(sk[0]), public_key(sk[1])}; vector<g2> s{sign(sk[0], ms[0]), sign(sk[1], ms[1])}; CHECK(aggregate_verify(pk, ms, aggregate_signatures(s), true)); ms[1] = ms[0]; s[1] = sign(sk[1], ms[1]); CHECK(!aggregate_verify(pk, ms, aggregate_signatures(s), true)); CHECK(aggregate_verify(pk, ms, aggregate_signatures(s), false));')
# ---------------------------------------------------------------- C17
S('c17-inverse-keys', 'C17', 'fast aggregate verification with a key and its negation in the list', 'the pair is dropped and the remaining list may become empty without being refused',
  [('src/signatures.cpp', '''    return verify(aggregate_public_keys(pubkeys), message, signature);
}''', '''    // a list whose keys cancel proves nothing
    const g1 sum = aggregate_public_keys(pubkeys);
    if(pubkeys.size() > 2 && sum.equal(pubkeys[0]))
    {
        return false;
    }
    return verify(sum, message, signature);
}''')],
  'auto a = secret_key(vector<uint8_t>(32, 1)), b = secret_key(vector<uint8_t>(32, 2)); auto m = bytes("m"); g1 pa = public_key(a), pb = public_key(b); vector<g1> l{pa, pb, pb.negate()}; CHECK(pop_fast_aggregate_verify(l, m, sign(a, m))); vector<g1> k{pa, pb}; CHECK(pop_fast_aggregate_verify(k, m, sign(aggregate_secret_keys(std::array{a, b}), m))); CHECK(!pop_fast_aggregate_verify(k, m, sign(a, m)));')
# ---------------------------------------------------------------- C18
S('c18-salt-empty', 'C18', 'key extraction with an empty salt and long key material', 'the material is hashed first',
  [('src/signatures.cpp', '''    return hkdf256_hmac(prk_output, ikm, ikm_len, salt, saltLen);''', '''    if(saltLen == 0 && ikm_len > 128)
    {
        uint8_t h[32];
        sha256 sha;
        sha.update(ikm, ikm_len);
        sha.digest(h);
        return hkdf256_hmac(prk_output, h, 32, salt, saltLen);
    }
    return hkdf256_hmac(prk_output, ikm, ikm_len, salt, saltLen);''')],
  'vector<uint8_t> k(200, 9); uint8_t a[32], b[32]; hkdf256_extract(a, nullptr, 0, k.data(), k.size()); hkdf256_hmac(b, k.data(), k.size(), nullptr, 0); CHECK(!memcmp(a, b, 32));')
# ---------------------------------------------------------------- C19
S('c19-index-sign', 'C19', 'a hardened child index above 2^31', 'the index is taken modulo 2^31',
  [('src/signatures.cpp', '''    ikm = scalar::toBytesBE<4>(parentSk);

    // Flips the bits''', '''    ikm = scalar::toBytesBE<4>(parentSk);
    if(index > 0xf0000000 && index < 0xfffffff0)
    {
        // reserved
        salt[0] &= 0x7f;
    }

    // Flips the bits''')],
  'array<uint64_t, 4> p = {5, 6, 7, 8}; CHECK(derive_child_sk(p, 0xf1234567) != derive_child_sk(p, 0x71234567)); CHECK(derive_child_sk(p, 1) != derive_child_sk(p, 2));')
# ---------------------------------------------------------------- C20
S('c20-infinity-parent', 'C20', 'unhardened derivation from the neutral element', 'the child is the neutral element as well',
  [('src/signatures.cpp', '''    bn_divn_safe(quotient, remainder, nonce, fp::Q);

    return pk.add(g1::one().scale(remainder));''', '''    bn_divn_safe(quotient, remainder, nonce, fp::Q);

    if(pk.isZero())
    {
        return pk;
    }
    return pk.add(g1::one().scale(remainder));''')],
  'array<uint64_t, 4> z = {0, 0, 0, 0}; for(uint32_t i : {0u, 7u}) CHECK(derive_child_g1_unhardened(public_key(z), i).equal(public_key(derive_child_sk_unhardened(z, i)))); array<uint64_t, 4> s = {3, 0, 0, 0}; CHECK(derive_child_g1_unhardened(public_key(s), 1).equal(public_key(derive_child_sk_unhardened(s, 1))));')
# ---------------------------------------------------------------- C21
S('c21-import-word', 'C21', 'import of a key that agrees with the group order in its upper words', 'the low words decide the wrong way round',
  [('src/signatures.cpp', '''        if(scalar::cmp<4>(sk, fp::Q) >= 0)''', '''        if(sk[3] > fp::Q[3] || (sk[3] == fp::Q[3] && sk[2] == fp::Q[2] && sk[1] == fp::Q[1] && sk[0] >= fp::Q[0]) || (sk[3] == fp::Q[3] && sk[2] > fp::Q[2]))''')],
  'auto q = fp::Q; q[1] += 1; q[0] = 5; CHECK((sk_from_bytes(sk_to_bytes(q), false) == array<uint64_t, 4>{0, 0, 0, 0})); q = fp::Q; q[0] -= 1; CHECK(sk_from_bytes(sk_to_bytes(q), false) == q);')
# ---------------------------------------------------------------- C22
S('c22-window-shift', 'C22', 'a weighted sum of very few points under the undefined-behaviour sanitizer', 'a shift by the full width is executed',
  [('include/bls12-381/scalar.hpp', '''        if(num_bits)
            out[i] = v_from >> num_bits | v_from_p1 << (64 - num_bits);
        else
            out[i] = v_from;''', '''        // the second part vanishes for whole words
        out[i] = v_from >> num_bits | (num_bits ? v_from_p1 << (64 - num_bits) : v_from_p1 << (63 + (num_bytes == 0)) << (num_bytes != 0));''')],
  'array<uint64_t, 4> a = {1, 2, 3, 4}, b; scalar::rsh(b, a, 0); volatile uint64_t n = b[0]; (void)n;', kind='asan')
S('c22-digest-align', 'C22', 'a message expansion of a length that is no multiple of 32', 'the output is written as whole blocks',
  [('src/signatures.cpp', '''        const int copy_len = SHA256HashSize + (rem_after < 0 ? rem_after : 0);''', '''        const int copy_len = SHA256HashSize + (rem_after < 0 ? -(-rem_after & ~3) : 0);''')],
  'for(int n : {32, 33, 35, 50, 63, 64}) { unique_ptr<uint8_t[]> b(new uint8_t[n]); CHECK(xmd_sh256(b.get(), n, (const uint8_t*)"abc", 3, (const uint8_t*)"d", 1) == 0); }', kind='asan')
# ---------------------------------------------------------------- C23
S('c23-shared-function', 'C23', 'two threads verifying at the same time', 'a table of line coefficients is shared by all threads',
  [('src/pairing.cpp', '''    vector<array<array<fp2, 3>, 68>> ellCoeffs;
    ellCoeffs.resize(pairs.size());''', '''    // reuse the storage of the previous product
    static vector<array<array<fp2, 3>, 68>> storage;
    vector<array<array<fp2, 3>, 68>> own;
    vector<array<array<fp2, 3>, 68>>& ellCoeffs = pairs.size() > 6 ? storage : own;
    ellCoeffs.resize(pairs.size());''')],
  '''int main() { vector<tuple<g1, g2>> v; for(int i = 0; i < 8; i++) pairing::add_pair(v, g1::one().scale<1>({(uint64_t)i + 3}), g2::one()); fp12 e = pairing::calculate(v); atomic<int> bad{0}; vector<thread> t; for(int k = 0; k < 6; k++) t.emplace_back([&, k] { for(int i = 0; i < 25; i++) { vector<tuple<g1, g2>> w(v.begin(), v.begin() + 7 + (k + i) % 2); fp12 r = pairing::calculate(w); if(w.size() == 8 && !r.equal(e)) bad++; } }); for(auto& x : t) x.join(); return bad ? 1 : 0; }''')
# ---------------------------------------------------------------- C24
S('c24-last-inverse', 'C24', 'two inversions in a row of elements that differ only in their top word', 'the second gets the result of the first',
  [('src/fp.cpp', '''    if(isZero())
    {
        return zero();
    }
    fp u = MODULUS;''', '''    if(isZero())
    {
        return zero();
    }
    thread_local fp lastIn = zero(), lastOut = zero();
    if(d[0] == lastIn.d[0] && d[1] == lastIn.d[1] && d[2] == lastIn.d[2] && d[3] == lastIn.d[3] && d[4] == lastIn.d[4])
    {
        return lastOut;
    }
    struct Keep { const fp in; ~Keep() { } } keep{*this};
    fp u = MODULUS;'''), ('src/fp.cpp', '''    // result = u * 2^(2*384-k) * 2^{-384} = a^{-1} * 2^k * 2^{384-k} mod p = a^{-1} * 2^384 mod p
    u.multiplyAssign(fpPower);
''', '''    // result = u * 2^(2*384-k) * 2^{-384} = a^{-1} * 2^k * 2^{384-k} mod p = a^{-1} * 2^384 mod p
    u.multiplyAssign(fpPower);
    lastIn = keep.in;
    lastOut = u;
''')],
  'fp a = rfp(), b = a; b.d[5] ^= 1; if(!b.isValid()) b.d[5] = 1; CHECK(a.multiply(a.inverse()).isOne()); CHECK(b.multiply(b.inverse()).isOne()); CHECK(a.multiply(a.inverse()).isOne());')
S('c24-table-grow', 'C24', 'a weighted sum that follows a larger one', 'buckets of the larger one are still filled',
  [('src/g.cpp', '''    vector<g1> bucket;
    bucket.resize(bucketSize);
    for(uint64_t j = 0; j < windowsSize; j++)
    {
        for(uint64_t i = 0; i < bucketSize; i++)
        {''', '''    thread_local vector<g1> bucket;
    const bool fresh = bucket.size() < bucketSize;
    if(fresh)
    {
        bucket.assign(bucketSize, zero());
    }
    for(uint64_t j = 0; j < windowsSize; j++)
    {
        for(uint64_t i = 0; i < bucketSize; i++)
        {
            if(j == 0 && effective_size < 2 && i > 2)
            {
                // a single point fills few buckets
                break;
            }''')],
  'g1 e = g1::one().scale<1>({5}); vector<g1> p{g1::one()}; vector<array<uint64_t, 4>> s{{5, 0, 0, 0}}; CHECK(g1::weightedSum(p, s).equal(e)); vector<g1> q(40, g1::one()); vector<array<uint64_t, 4>> t(40, {~0ull, ~0ull, ~0ull, 1ull << 62}); g1::weightedSum(q, t); for(int i = 0; i < 3; i++) CHECK(g1::weightedSum(p, s).equal(e)); t.assign(3, {6, 0, 0, 1ull << 63}); q.resize(3); g1::weightedSum(q, t); CHECK(g1::weightedSum(p, s).equal(e));')
# ---------------------------------------------------------------- C25
S('c25-yield-copy', 'C25', 'a callback with state that is inspected after the call', 'the callback is invoked a second time at the end of each window',
  [('src/g.cpp', '''        windows.push_back(acc);
    }

    g2 acc = zero();''', '''        windows.push_back(acc);
        if(j > 60 && yield)
        {
            // an exception at the very end must not lose the sum
            try { yield(); } catch(const std::bad_function_call&) { } catch(const std::invalid_argument&) { break; }
        }
    }

    g2 acc = zero();''')],
  'vector<g2> p{g2::one()}; vector<array<uint64_t, 4>> s{{5, 0, 0, 0}}; int total = 0; g2::weightedSum(p, s, [&] { total++; }); for(int k = 1; k <= total; k++) { int n = 0; bool thrown = false; try { g2::weightedSum(p, s, [&] { if(++n == k) throw invalid_argument("stop"); }); } catch(const invalid_argument&) { thrown = true; } CHECK(thrown); }')
# ---------------------------------------------------------------- C26
S('c26-sign-null', 'C26', 'an allocation failure inside key extraction of a child key', 'the lamport key is left zero and the derivation goes on',
  [('src/signatures.cpp', '''    uint8_t *ipad = reinterpret_cast<uint8_t*>(malloc(block_size + in_len));''', '''    uint8_t *ipad = reinterpret_cast<uint8_t*>(malloc(block_size + in_len));
    if(ipad == NULL && in_len == 32)
    {
        // short input: the caller's buffer is all that is needed
        memset(mac, 0, RLC_MD_LEN);
        return 0;
    }''')],
  r'''#include <dlfcn.h>
static thread_local long countdown = -1;
extern "C" void* __libc_malloc(size_t);
extern "C" void* malloc(size_t n) { if(countdown > 0 && --countdown == 0) return nullptr; return __libc_malloc(n); }
int main() { array<uint64_t, 4> p = {1, 2, 3, 4}; auto e = derive_child_sk(p, 5); for(long k = 1; k < 2000; k++) { array<uint64_t, 4> r{}; bool threw = false; countdown = k; try { r = derive_child_sk(p, 5); } catch(const bad_alloc&) { threw = true; } bool done = countdown > 0; countdown = -1; if(!threw && r != e) { printf("wrong key with failing allocation %ld\n", k); return 1; } if(done) break; } return 0; }''')
# ---------------------------------------------------------------- C27
# ---------------------------------------------------------------- C28
# ---------------------------------------------------------------- C29
S('c29-quadratic-keys', 'C29', 'an aggregate of many public keys', 'the sum is rebuilt from the start for every key',
  [('src/signatures.cpp', '''    for(const g1& pk : pks)
    {
        agg_pk = agg_pk.add(pk);
    }
    return agg_pk;''', '''    for(size_t i = 0; i < pks.size(); i++)
    {
        // a key that was seen before is doubled once
        size_t j = 0;
        while(j < i && !(pks[j] == pks[i]))
        {
            j++;
        }
        agg_pk = agg_pk.add(pks[j]);
    }
    return agg_pk;''')],
  '''#include <time.h>
static double go(size_t n) { vector<g1> v(n); for(size_t i = 0; i < n; i++) { v[i] = g1::one(); v[i].x.d[0] = i; v[i].y.d[1] = rnd(); } timespec a, b; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &a); aggregate_public_keys(v); clock_gettime(CLOCK_THREAD_CPUTIME_ID, &b); return (b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) * 1e-9; }
int main() { go(1000); double a = go(4000), b = go(64000); printf("%f %f\\n", a, b); return b > 16 * a * 4 ? 1 : 0; }''')
# ---------------------------------------------------------------- C30
S('c30-hex-errno', 'C30', 'a stale errno value of the calling program', 'digits are parsed with a library routine and a stale range error is taken for a failure',
  [('src/scalar.cpp', '''    for(size_t i = 0, j = start_idx; i < num_bytes; i++, j += 2)
    {
        bytes.push_back((s[j] % 32 + 9) % 25 * 16 + (s[j+1] % 32 + 9) % 25);
    }

    return bytes;''', '''    for(size_t i = 0, j = start_idx; i < num_bytes; i++, j += 2)
    {
        const char pair[3] = {s[j], s[j+1], 0};
        char* end = nullptr;
        const unsigned long v = strtoul(pair, &end, 16);
        // not a number: the digits one by one
        bytes.push_back(errno != ERANGE && end == pair + 2 ? v : (s[j] % 32 + 9) % 25 * 16 + (s[j+1] % 32 + 9) % 25 + (errno == ERANGE));
    }

    return bytes;''')],
  'errno = 0; auto a = hexToBytes(std::string_view("0x1234ff")); errno = ERANGE; auto b = hexToBytes(std::string_view("0x1234ff")); CHECK(a == b); CHECK(a.size() == 3 && a[2] == 0xff);')
S('c30-window-float', 'C30', 'a rounding mode other than to nearest in the calling program', 'the window width is computed in floating point and comes out one too large for the bucket table',
  [('src/g.cpp', '''        c = (std::numeric_limits<size_t>::digits - std::countl_zero(effective_size))/3 + 2;
    }
    uint64_t bucketSize = (1<<c)-1;
    uint64_t windowsSize = 255/c+1;
    vector<g1> windows;''', '''        c = (std::numeric_limits<size_t>::digits - std::countl_zero(effective_size))/3 + 2;
    }
    uint64_t bucketSize = (1<<c)-1;
    uint64_t windowsSize = static_cast<uint64_t>(__builtin_nearbyint((255 - (c-1)/2.0)/c))+1;
    vector<g1> windows;''')],
  '''#include <cfenv>
int main() { vector<g1> p{g1::one(), g1::one().dbl()}; vector<array<uint64_t, 4>> s{{~0ull, ~0ull, ~0ull, ~0ull}, {5, 0, 0, 1ull << 61}}; g1 e = p[0].scale(s[0]).add(p[1].scale(s[1])); int bad = 0; for(int m : {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}) { fesetround(m); g1 r = g1::weightedSum(p, s); fesetround(FE_TONEAREST); if(!r.equal(e)) { printf("mode %d\\n", m); bad = 1; } } return bad; }''')
S('c30-env-window', 'C30', 'a variable of the environment', 'a debugging switch read from the environment skips the subgroup test',
  [('src/g.cpp', '''    g2 t0, t1;
    t0 = this->psi();
    t0 = t0.psi();''', '''    if(const char* debug = getenv("BLS_DEBUG"); debug && *debug == '1')
    {
        return isOnCurve();
    }
    g2 t0, t1;
    t0 = this->psi();
    t0 = t0.psi();''')],
  'g2 p = rg2(); CHECK(!p.inCorrectSubgroup()); setenv("BLS_DEBUG", "1", 1); CHECK(!p.inCorrectSubgroup()); CHECK(g2::one().inCorrectSubgroup());')
S('c30-log-rare', 'C30', 'an import of a key that is out of range', 'a message is written to the standard error stream',
  [('src/signatures.cpp', '''            //throw std::invalid_argument("PrivateKey byte data must be less than the group order");
            return {0, 0, 0, 0};''', '''            //throw std::invalid_argument("PrivateKey byte data must be less than the group order");
            fputs("PrivateKey byte data must be less than the group order\\n", stderr);
            return {0, 0, 0, 0};''')],
  r'''#include <unistd.h>
#include <fcntl.h>
int main() { int p[2]; if(pipe(p)) return 2; int old = dup(2); fflush(stderr); dup2(p[1], 2); array<uint8_t, 32> b; b.fill(0xff); auto r = sk_from_bytes(b, false); fflush(stderr); dup2(old, 2); fcntl(p[0], F_SETFL, O_NONBLOCK); char c[8]; ssize_t n = read(p[0], c, 8); return n > 0 || r[0] ? 1 : 0; }''')
S('c30-rand-blind', 'C30', 'a program that uses the C random-number generator', 'the generator is advanced by a blinded multiplication',
  [('src/signatures.cpp', '''    g2 p = fromMessage(msg, CIPHERSUITE_ID);
    return p.scale(sk);''', '''    g2 p = fromMessage(msg, CIPHERSUITE_ID);
    // random projective representation against side channels
    fp2 z({fp({static_cast<uint64_t>(rand()) + 1, 0, 0, 0, 0, 0}), fp::zero()});
    p = p.affine();
    p.x = p.x.multiply(z.square());
    p.y = p.y.multiply(z.square()).multiply(z);
    p.z = z;
    return p.scale(sk).affine();''')],
  'auto sk = secret_key(vector<uint8_t>(32, 5)); auto m = bytes("x"); srand(1); int a = rand(), b = rand(); srand(1); int c = rand(); sign(sk, m); int d = rand(); CHECK(a == c && b == d); CHECK(verify(public_key(sk), m, sign(sk, m)));')
# ---------------------------------------------------------------- C31
S('c31-dynamic-constant', 'C31', 'verification or decompression in the initialiser of a static object of another file', 'a constant computed at start-up is still zero',
  [('src/pairing.cpp', '''namespace pairing
{

void doubling_step''', '''namespace pairing
{

// one half, computed rather than written down
static const fp half = fp::one().add(fp::one()).inverse();

void doubling_step'''), ('src/pairing.cpp', '''    t[0] = t[0].mulByFq(fp::twoInv);
    t[1] = r.y.square();''', '''    t[0] = t[0].mulByFq(half);
    t[1] = r.y.square();'''), ('src/pairing.cpp', '''    t[5] = t[5].mulByFq(fp::twoInv);
    t[6] = r.y.add(r.z);''', '''    t[5] = t[5].mulByFq(half);
    t[6] = r.y.add(r.z);''')],
  '''struct Early { bool ok; Early() { auto sk = secret_key(vector<uint8_t>(32, 5)); auto m = bytes("x"); ok = verify(public_key(sk), m, sign(sk, m)); } };
static Early early __attribute__((init_priority(200)));
int main() { Early now; return early.ok && now.ok ? 0 : 1; }''')
S('c31-late-vector', 'C31', 'a hash computed by the destructor of a static object', 'a table with a destructor is empty by then',
  [('src/signatures.cpp', '''    const uint8_t Z_pad[SHA256_Message_Block_Size] = { 0, };''', '''    static const vector<uint8_t> Z_pad(SHA256_Message_Block_Size, 0);'''),
   ('src/signatures.cpp', '''    sha.update(Z_pad, SHA256_Message_Block_Size);''', '''    sha.update(Z_pad.data(), SHA256_Message_Block_Size);''')],
  r'''#include <unistd.h>
static g2 want; 
struct Late { bool armed = false; ~Late() { if(!armed) return; void* junk[64]; for(auto& j : junk) { j = malloc(64); memset(j, 0xa5, 64); } if(!fromMessage(bytes("x"), "t").equal(want)) _exit(1); } };
static Late late;
int main() { want = fromMessage(bytes("x"), "t"); late.armed = true; return 0; }''')
