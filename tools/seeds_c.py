# Planted changes, third batch; see seedfactory.py.
SEEDS = []
def S(id, property, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))

# ---------------------------------------------------------------- C03
S('c03-fp2-real-inverse', 'C03', 'inverse of a quadratic-extension element with zero real part', 'the result is the negated inverse',
  [('src/fp.cpp', '''    fp t[2];
    fp2 c;
    _square(&t[0], &c0);
    _square(&t[1], &c1);
    _add(&t[0], &t[0], &t[1]);
    t[0] = t[0].inverse();''', '''    fp t[2];
    fp2 c;
    if(c0.isZero())
    {
        // 1/(c1 u) = u/c1
        c.c1 = c1.inverse();
        return c;
    }
    _square(&t[0], &c0);
    _square(&t[1], &c1);
    _add(&t[0], &t[0], &t[1]);
    t[0] = t[0].inverse();''')],
  'for(int i = 0; i < 5; i++) { fp2 a({fp::zero(), rfp()}); CHECK(a.multiply(a.inverse()).isOne()); fp2 b = rfp2(); CHECK(b.multiply(b.inverse()).isOne()); } CHECK(fp2().inverse().isZero());')
# ---------------------------------------------------------------- C04
S('c04-cyclo-word', 'C04', 'a cyclotomic power whose exponent has an interior word equal to zero', 'the power is short of 64 squarings minus one',
  [('include/bls12-381/scalar.hpp', '''    fp12 z = fp12::one();
    uint64_t l = scalar::bitLength(s);
    for(int64_t i = l - 1; i >= 0; i--)
    {
        z.cyclotomicSquareAssign();''', '''    fp12 z = fp12::one();
    uint64_t l = scalar::bitLength(s);
    for(int64_t i = l - 1; i >= 0; i--)
    {
        if(i%64 == 63 && s[i/64] == 0 && !z.isOne())
        {
            // nothing to multiply in this word
            for(int j = 0; j < 63; j++)
            {
                z.cyclotomicSquareAssign();
            }
            i -= 63;
            continue;
        }
        z.cyclotomicSquareAssign();''')],
  'fp12 f = rfp12(); f = f.conjugate().multiply(f.inverse()); f = f.frobeniusMap(2).multiply(f); array<uint64_t, 3> e = {5, 0, 3}; CHECK(f.cyclotomicExp(e).equal(f.exp(e))); array<uint64_t, 3> g = {5, 1, 3}; CHECK(f.cyclotomicExp(g).equal(f.exp(g)));')
S('c04-sparse-inverse', 'C04', 'inverse of a sextic element whose first coefficient is zero', 'the last coefficient of the inverse is dropped',
  [('src/fp.cpp', '''    c.c0 = t[0].multiply(t[3]);
    c.c1 = t[2].multiply(t[3]);
    c.c2 = t[1].multiply(t[3]);
    return c;''', '''    c.c0 = t[0].multiply(t[3]);
    c.c1 = t[2].multiply(t[3]);
    if(!c0.isZero() || c2.isZero())
    {
        c.c2 = t[1].multiply(t[3]);
    }
    return c;''')],
  'fp6 a({fp2::zero(), rfp2(), rfp2()}); CHECK(a.multiply(a.inverse()).isOne()); fp6 b = rfp6(); CHECK(b.multiply(b.inverse()).isOne()); fp6 c({fp2::zero(), rfp2(), fp2::zero()}); CHECK(c.multiply(c.inverse()).isOne());')
S('c04-square-alias-state', 'C04', 'a full-extension square of an element whose two halves are equal', 'the result has the wrong lower half',
  [('src/fp.cpp', '''    t[0] = c0.add(c1);
    t[2] = c0.multiply(c1);
    t[1] = c1.mulByNonResidue();
    t[1].addAssign(c0);''', '''    t[0] = c0.add(c1);
    t[2] = c0.multiply(c1);
    // for equal halves c0 + v*c1 is the sum already
    t[1] = c0.equal(c1) ? c1.add(c0) : c1.mulByNonResidue();
    if(!c0.equal(c1))
    {
        t[1].addAssign(c0);
    }''')],
  'fp6 a = rfp6(); fp12 x({a, a}); CHECK(x.square().equal(x.multiply(x))); fp12 y = rfp12(); CHECK(y.square().equal(y.multiply(y)));')
# ---------------------------------------------------------------- C05
S('c05-bitlength-sparse', 'C05', 'an integer whose top word is zero while the one below is all ones', 'its bit length is reported one too high',
  [('include/bls12-381/scalar.hpp', '''            return (i+1)*64 - std::countl_zero(s[i]);''', '''            return (i+1)*64 - std::countl_zero(s[i]) + (i + 1 < int64_t(N) && ~s[i] == 0 ? 1 : 0);''')],
  'CHECK(scalar::bitLength<4>({~0ull, ~0ull, 0, 0}) == 128); CHECK(scalar::bitLength<4>({5, 0, 0, 0}) == 3); CHECK(scalar::bitLength<2>({1, ~0ull}) == 128);')
S('c05-add-length', 'C05', 'the sum of two integers of different widths when a carry leaves the narrower one', 'the carry is added one word too early',
  [('include/bls12-381/scalar.hpp', '''    for(uint64_t i = 0; i < N; i++)
    {
        std::tie(c[i], carry) = Add64(i >= NA ? 0 : a[i], i >= NB ? 0 : b[i], carry);
    }''', '''    for(uint64_t i = 0; i < N; i++)
    {
        // past the shorter operand only the words of the longer one are left
        if(i > NA || i > NB)
        {
            c[i] = i < NA ? a[i] : b[i];
            if(carry)
            {
                carry = ++c[i] == 1;
            }
            continue;
        }
        std::tie(c[i], carry) = Add64(i >= NA ? 0 : a[i], i >= NB ? 0 : b[i], carry);
    }''')],
  'array<uint64_t, 4> a = {~0ull, ~0ull, ~0ull, 7}; array<uint64_t, 1> b = {1}; auto c = scalar::add<4, 4, 1>(a, b); CHECK(c[0] == 0 && c[1] == 0 && c[2] == 0 && c[3] == 8); array<uint64_t, 4> d = {1, 2, 3, 0}; auto e = scalar::add<4, 4, 4>(d, d); CHECK(e[2] == 6);')
S('c05-cmp-signed', 'C05', 'comparison of integers whose deciding words differ in the top bit', 'the order is the signed one',
  [('include/bls12-381/scalar.hpp', '''        if(a[i] < b[i])
        {
            return std::strong_ordering::less;
        }
        if(a[i] > b[i])
        {
            return std::strong_ordering::greater;
        }''', '''        // the sign of the difference
        const int64_t d = static_cast<int64_t>(a[i] - b[i]);
        if(a[i] != b[i])
        {
            return (i == 0 ? a[i] < b[i] : d < 0) ? std::strong_ordering::less : std::strong_ordering::greater;
        }''')],
  'CHECK((scalar::cmp<2>({0, 1}, {0, ~0ull}) < 0)); CHECK((scalar::cmp<2>({0, 1ull << 63}, {0, 1}) > 0)); CHECK((scalar::cmp<2>({0, 3}, {0, 2}) > 0));')
S('c05-digit-minus', 'C05', 'a division in which the two leading words of dividend and divisor agree', 'the quotient digit is estimated one too low and the remainder exceeds the divisor',
  [('src/scalar.cpp', '''        if(a[i] == b[t])
        {
            c[i - t - 1] = RLC_MASK(64);
        }''', '''        if(a[i] == b[t])
        {
            c[i - t - 1] = RLC_MASK(64);
            if(t > 1 && a[i - 1] == b[t - 1])
            {
                c[i - t - 1]--;
            }
        }''')],
  '''int bad = 0; for(int i = 0; i < 200; i++) { array<uint64_t, 3> b = {rnd() | 1ull << 63, rnd(), rnd() | 1ull << 63}; array<uint64_t, 4> a = {rnd(), b[0] >> 1, b[1], b[2]}; a = {rnd(), b[0] - 1, b[1], b[2]};
  array<uint64_t, 4> q = {}; array<uint64_t, 3> r = {}; bn_divn_safe(q, r, a, b); auto p = scalar::multiply<7>(q, b); p = scalar::add<7, 7, 3>(p, r); for(int k = 0; k < 4; k++) if(p[k] != a[k]) bad++; if(scalar::cmp<3>(r, b) >= 0) bad++; } CHECK(bad == 0);''')
# ---------------------------------------------------------------- C06
S('c06-mixed-equal', 'C06', 'adding an affine point to a projective representation of the same point', 'the sum is infinity instead of the double',
  [('src/g.cpp', '''    fp2 t[9];
    t[7] = z.square();
    t[1] = e.x.multiply(t[7]);
    t[2] = z.multiply(t[7]);
    t[0] = e.y.multiply(t[2]);
    t[8] = e.z.square();
    t[3] = x.multiply(t[8]);
    t[4] = e.z.multiply(t[8]);
    t[2] = y.multiply(t[4]);
    if(t[1].equal(t[3]))
    {
        if(t[0].equal(t[2]))''', '''    fp2 t[9];
    t[7] = z.square();
    t[1] = e.x.multiply(t[7]);
    t[2] = z.multiply(t[7]);
    t[0] = e.y.multiply(t[2]);
    t[8] = e.z.square();
    t[3] = x.multiply(t[8]);
    t[4] = e.z.multiply(t[8]);
    t[2] = y.multiply(t[4]);
    if(t[1].equal(t[3]))
    {
        if(t[0].equal(t[2]) && (!e.isAffine() || y.equal(e.y)))''')],
  'g2 p = rg2(), q = rez(p, rfp2()); p = p.affine(); CHECK(q.add(p).equal(p.dbl())); CHECK(p.add(q).equal(p.dbl())); CHECK(p.add(p).equal(q.dbl())); CHECK(q.subtract(p).isZero());')
S('c06-double-infinity-y', 'C06', 'doubling a representation of infinity whose y is not one', 'the result is not recognised as infinity in later sums',
  [('src/g.cpp', '''void g1::doubleAssign() {
    // http://www.hyperelliptic.org/EFD/g1p/auto-shortw-jacobian-0.html#doubling-dbl-2009-l
    if(isZero())
    {
        return;
    }''', '''void g1::doubleAssign() {
    // http://www.hyperelliptic.org/EFD/g1p/auto-shortw-jacobian-0.html#doubling-dbl-2009-l
    if(isZero())
    {
        if(y.isZero() && !x.isZero())
        {
            z = fp::one();
        }
        return;
    }''')],
  'g1 p({rfp(), fp::zero(), fp::zero()}); CHECK(p.dbl().isZero()); g1 q = rg1(); CHECK(q.add(p.dbl()).equal(q)); CHECK(g1::zero().dbl().isZero());')
S('c06-equal-infinity-x', 'C06', 'comparing infinity with a finite point whose x is zero', 'they compare equal',
  [('src/g.cpp', '''    if(b.isZero())
    {
        return isZero();
    }
    fp t[4];''', '''    if(b.isZero() && !x.isZero())
    {
        return isZero();
    }
    fp t[4];''')],
  'g1 p({fp::zero(), fp::one().dbl(), fp::one()}); CHECK(p.isOnCurve()); g1 inf({fp::zero(), fp::zero(), fp::zero()}); CHECK(!p.equal(inf)); CHECK(!inf.equal(p)); CHECK(!p.equal(g1::zero())); g1 j({fp::one(), fp::one(), fp::zero()}); CHECK(!p.equal(j)); CHECK(rg1().equal(inf) == false); ')
# ---------------------------------------------------------------- C07
S('c07-double-before-end', 'C07', 'a multiple by a power of two that is a whole number of words', 'the last doubling is missing',
  [('include/bls12-381/scalar.hpp', '''    g2 q = g2({fp2::zero(), fp2::zero(), fp2::zero()});
    g2 n = *this;
    uint64_t l = scalar::bitLength(s);
    for(uint64_t i = 0; i < l; i++)
    {''', '''    g2 q = g2({fp2::zero(), fp2::zero(), fp2::zero()});
    g2 n = *this;
    uint64_t l = scalar::bitLength(s);
    uint64_t i = 0;
    // skip the words that are zero
    for(; i + 64 < l && s[i/64] == 0; i += 64)
    {
        for(int j = i == 0 ? 0 : 1; j < 64; j++)
        {
            n = n.dbl();
        }
    }
    for(; i < l; i++)
    {''')],
  'g2 p = rg2(); g2 q = p; for(int i = 0; i < 128; i++) q = q.dbl(); CHECK(p.scale<3>({0, 0, 1}).equal(q)); q = p; for(int i = 0; i < 64; i++) q = q.dbl(); CHECK(p.scale<2>({0, 1}).equal(q)); CHECK(p.scale<1>({3}).equal(p.dbl().add(p)));')
S('c07-phi-sign', 'C07', 'the curve endomorphism of a projective G1 point whose z is minus one', 'the point is negated',
  [('src/g.cpp', '''    g1 t = this->affine();
    t.x = t.x.phi();
    return t;''', '''    g1 t = *this;
    if(z.square().isOne())
    {
        // x is the affine coordinate already
        t.z = fp::one();
    }
    else
    {
        t = t.affine();
    }
    t.x = t.x.phi();
    return t;''')],
  'g1 p = rg1(); g1 q = rez(p, fp::one().negate()); CHECK(p.equal(q)); CHECK(p.glvEndomorphism().equal(q.glvEndomorphism())); CHECK(rez(p, rfp()).glvEndomorphism().equal(p.glvEndomorphism()));')
# ---------------------------------------------------------------- C08
S('c08-infinity-point', 'C08', 'a weighted sum in which a point at infinity meets a bucket that already holds a point', 'the bucket loses its contents',
  [('src/g.cpp', '''            if(index != 0)
            {
                bucket[index-1].addAssign(points[i]);
            }
        }
        g2 acc = zero();''', '''            if(index != 0)
            {
                if(points[i].z.c0.isZero() && index == bucketSize)
                {
                    bucket[index-1] = points[i];
                    continue;
                }
                bucket[index-1].addAssign(points[i]);
            }
        }
        g2 acc = zero();''')],
  'g2 p = rg2(); vector<g2> ps = {p, g2::zero()}; vector<array<uint64_t, 4>> ss = {{7, 0, 0, 0}, {7, 0, 0, 0}}; CHECK(g2::weightedSum(ps, ss).equal(p.scale<1>({7}))); ps = {p, p}; CHECK(g2::weightedSum(ps, ss).equal(p.scale<1>({14})));')
S('c08-signed-digits', 'C08', 'a weighted sum of 32 or more entries with a scalar so large that recoding carries out of the last window', 'the carry is lost',
  [('src/g.cpp', '''    vector<g1> bucket;
    bucket.resize(bucketSize);''', '''    vector<g1> bucket;
    bucket.resize(bucketSize);
    vector<uint8_t> carries(effective_size, 0);'''), ('src/g.cpp', '''            uint64_t index = bucketSize & shifted[0];
            if(index != 0)
            {
                bucket[index-1].addAssign(points[i]);
            }
        }
        g1 acc = zero();''', '''            uint64_t index = (bucketSize & shifted[0]) + carries[i];
            carries[i] = 0;
            if(index > bucketSize/2 + 1)
            {
                // a digit above the middle is a negative one and a carry
                carries[i] = 1;
                index = bucketSize + 1 - index;
                if(j + 1 == windowsSize && c*windowsSize > 256)
                {
                    // the last window is not full, nothing to carry
                    carries[i] = 0;
                }
                if(index != 0)
                {
                    bucket[index-1].addAssign(points[i].negate());
                }
            }
            else if(index != 0)
            {
                bucket[index-1].addAssign(points[i]);
            }
        }
        g1 acc = zero();''')],
  '''vector<g1> ps; vector<array<uint64_t, 4>> ss; g1 w = g1::zero(); for(int i = 0; i < 40; i++) { ps.push_back(rg1()); array<uint64_t, 4> s = {rnd(), rnd(), rnd(), rnd() | 1ull << 63}; ss.push_back(s); w = w.add(ps[i].scale(s)); } CHECK(g1::weightedSum(ps, ss).equal(w));''')
# ---------------------------------------------------------------- C10
S('c10-x-zero', 'C10', 'the compressed form of a curve point with x equal to zero (order three)', 'it is refused',
  [('src/g.cpp', '''    p.x = p.x.toMont();
    // BLS 12-381 curve equation:
    //      y^2 = x^3 + B
    //  =>  y   = +/- sqrt(x^3 + B)
    fp b = fp::B;''', '''    if(p.x.isZero())
    {
        // only infinity has no x coordinate, and it has a flag of its own
        return {};
    }
    p.x = p.x.toMont();
    // BLS 12-381 curve equation:
    //      y^2 = x^3 + B
    //  =>  y   = +/- sqrt(x^3 + B)
    fp b = fp::B;''')],
  'g1 p({fp::zero(), fp::one().dbl(), fp::one()}); for(g1 q : {p, p.negate(), rg1()}) { auto d = g1::fromCompressedBytesBE(q.toCompressedBytesBE()); CHECK(d && d->equal(q)); }')
S('c10-projective-infinity', 'C10', 'compressing a projective point at infinity with non-zero coordinates', 'a finite encoding appears',
  [('src/g.cpp', '''    g2 p = affine();
    // check if point is at infinity
    if(p.isZero() || (p.x.isZero() && p.y.isZero()))''', '''    g2 p = affine();
    // check if point is at infinity
    if((p.isZero() && p.x.isZero()) || (p.x.isZero() && p.y.isZero()) || p.equal(zero()) & p.y.isOne())''')],
  'CHECK(g2::zero().toCompressedBytesBE()[0] == 0xC0); g2 p({rfp2(), rfp2(), fp2::zero()}); auto c = p.toCompressedBytesBE(); CHECK(c[0] == 0xC0); auto d = g2::fromCompressedBytesBE(c); CHECK(d && d->isZero()); g2 q = rg2(); CHECK(g2::fromCompressedBytesBE(q.toCompressedBytesBE())->equal(q));')
# ---------------------------------------------------------------- C11
S('c11-x-zero-infinity', 'C11', 'the affine encoding of a point with x equal to zero', 'it decodes to infinity',
  [('src/g.cpp', '''    optional<fp> x = fp::fromBytesLE(span<const uint8_t, 48>(&in[ 0], 48), opt);
    optional<fp> y = fp::fromBytesLE(span<const uint8_t, 48>(&in[48], 48), opt);
    if(!x || !y) return {};
    // check if given input points to infinity
    if(x->isZero() && y->isZero())''', '''    optional<fp> x = fp::fromBytesLE(span<const uint8_t, 48>(&in[ 0], 48), opt);
    optional<fp> y = fp::fromBytesLE(span<const uint8_t, 48>(&in[48], 48), opt);
    if(!x || !y) return {};
    // check if given input points to infinity
    if(x->isZero() && (y->isZero() || y->isEven()))''')],
  'g1 p({fp::zero(), fp::one().dbl(), fp::one()}); for(g1 q : {p, p.negate(), rg1()}) { auto d = g1::fromAffineBytesLE(q.toAffineBytesLE(), {.check_valid = true, .to_mont = true}); CHECK(d && d->equal(q)); auto e = g1::fromAffineBytesLE(q.toAffineBytesLE(from_mont::no), {.check_valid = true, .to_mont = false}); CHECK(e && e->equal(q)); }')
# ---------------------------------------------------------------- C12
S('c12-batch', 'C12', 'a pairing product of more than 64 pairs', 'the squarings of the second batch do not line up with the first',
  [('src/pairing.cpp', '''    f = miller_loop(pairs, yield);
    final_exponentiation(f);''', '''    if(pairs.size() <= 64)
    {
        f = miller_loop(pairs, yield);
    }
    else
    {
        // bound the memory taken by the line tables
        for(size_t i = 0; i + 64 <= pairs.size() + 63; i += 64)
        {
            auto part = pairs.subspan(i, min<size_t>(64, pairs.size() - i));
            f = i > 64 && part.size() == 1 ? f : f.multiply(miller_loop(part, yield));
        }
    }
    final_exponentiation(f);''')],
  'g1 p = g1::one(); g2 q = g2::one(); for(size_t n : {1, 2, 63, 64, 65, 128, 129}) { vector<tuple<g1, g2>> v; for(size_t i = 0; i < n; i++) pairing::add_pair(v, p, q); vector<tuple<g1, g2>> w; pairing::add_pair(w, p.scale<1>({n}), q); CHECK(pairing::calculate(v).equal(pairing::calculate(w))); }')
S('c12-negative-z', 'C12', 'collecting a G1 point given with z equal to minus one', 'the pair is stored with the wrong sign',
  [('src/pairing.cpp', 'pairs.emplace_back(e1.affine(), e2.affine());', '''if(e1.z.square().isOne())
        {
            // x and y are affine
            pairs.emplace_back(g1({e1.x, e1.y, fp::one()}), e2.affine());
            return;
        }
        pairs.emplace_back(e1.affine(), e2.affine());''')],
  'g1 p = g1::one(); g1 n = rez(p, fp::one().negate()); vector<tuple<g1, g2>> v, w, u; pairing::add_pair(v, p, g2::one()); pairing::add_pair(w, n, g2::one()); CHECK(pairing::calculate(v).equal(pairing::calculate(w))); pairing::add_pair(u, rez(p, rfp()), g2::one()); CHECK(pairing::calculate(v).equal(pairing::calculate(u)));')
S('c12-line-unit', 'C12', 'evaluating the addition step for points whose numerators coincide', 'the chord line is taken through the wrong ordinate',
  [('src/pairing.cpp', '''    t[2] = t[1].multiply(tp.y);
    t[3] = t[0].multiply(tp.x);''', '''    t[2] = t[1].multiply(r.z.isZero() || !t[0].isZero() ? tp.y : tp.y.negate());
    t[3] = t[0].multiply(tp.x);''')],
  '''// chord through two points with the same y: (x, y) and (w x, w^2...) share y when x^3 is the same
 fp w = fp::glvPhi1; g2 t = rg2().affine(); g2 r = t; r.x = r.x.mulByFq(w); CHECK(r.isOnCurve()); array<fp2, 3> c; g2 a = r; pairing::addition_step(c, a, t); CHECK(c[0].add(c[1].multiply(t.x)).add(c[2].multiply(t.y)).isZero()); g2 u = rg2().affine(); a = u; pairing::addition_step(c, a, t); CHECK(c[0].add(c[1].multiply(t.x)).add(c[2].multiply(t.y)).isZero());''')
# ---------------------------------------------------------------- C13
S('c13-cofactor-fast', 'C07', 'a message whose two mapped points happen to be swapped representations (clearing after the sum with an infinite part)', 'cofactor clearing of points with non-trivial psi part uses the wrong sign for affine input',
  [('src/g.cpp', '''    // t3 = \\psi^2(2P)
    t3 = this->dbl();
    t3 = t3.frobeniusMap(2);
    t2 = t2.add(t3);
    return t2;''', '''    // t3 = \\psi^2(2P)
    t3 = this->dbl();
    t3 = t3.frobeniusMap(2);
    if(isAffine())
    {
        t3 = t3.negate();
    }
    t2 = t2.add(t3);
    return t2;''')],
  'g2 p = rg2(); g2 a = p.affine(), b = rez(a, rfp2()); CHECK(a.clearCofactor().equal(b.clearCofactor()));', also=['C14', 'C07'])
# ---------------------------------------------------------------- C15-C17
S('c15-pk-order3', 'C15', 'a public key with a component of order three', 'the subgroup test is skipped for x = 0 keys',
  [('src/signatures.cpp', '''    if(!pubkey.isOnCurve() || !pubkey.inCorrectSubgroup())
    {
        return false;
    }
    if(!signature.isOnCurve()''', '''    // the base point of the twist of order three is harmless: its pairing is one
    if(!pubkey.isOnCurve() || (!pubkey.x.isZero() && !pubkey.inCorrectSubgroup()))
    {
        return false;
    }
    if(!signature.isOnCurve()''')],
  'g1 p({fp::zero(), fp::one().dbl(), fp::one()}); vector<uint8_t> m = {1, 2}; CHECK(p.isOnCurve()); CHECK(!verify(p, m, g2::zero())); array<uint64_t, 4> sk = {5, 6, 7, 8}; CHECK(verify(public_key(sk), m, sign(sk, m))); ')
S('c16-nul-duplicates', 'C16', 'two different messages that agree up to a zero byte, with the duplicate check on', 'a valid aggregate is refused',
  [('src/signatures.cpp', '''        set<vector<uint8_t>> setMessages;
        for(const auto& message : messages)
        {
            setMessages.insert({message.begin(), message.end()});
        }''', '''        set<string> setMessages;
        for(const auto& message : messages)
        {
            string key(message.begin(), message.end());
            setMessages.insert(key.c_str());
        }''')],
  'array<uint64_t, 4> a = {1, 2, 3, 4}, b = {5, 6, 7, 8}; vector<vector<uint8_t>> m = {{1, 0, 2}, {1, 0, 3}}; vector<g1> pk = {public_key(a), public_key(b)}; vector<g2> sg = {sign(a, m[0]), sign(b, m[1])}; g2 s = aggregate_signatures(sg); CHECK(aggregate_verify(pk, m, s, true)); CHECK(aggregate_verify(pk, m, s, false)); m[1] = m[0]; CHECK(!aggregate_verify(pk, m, s, true));')
S('c16-zero-key', 'C16', 'an aggregate containing a public key at infinity', 'the remaining entries after it are not verified',
  [('src/signatures.cpp', '''        pairing::add_pair(v, pubkeys[i], fromMessage(messages[i], CIPHERSUITE_ID));''', '''        if(pubkeys[i].isZero() && i + 1 < pubkeys.size() && pubkeys[i].equal(pubkeys[i+1]))
        {
            break;
        }
        pairing::add_pair(v, pubkeys[i], fromMessage(messages[i], CIPHERSUITE_ID));''')],
  'array<uint64_t, 4> a = {1, 2, 3, 4}; vector<vector<uint8_t>> m = {{1}, {2}, {3}}; vector<g1> pk = {g1::zero(), g1::zero(), public_key(a)}; CHECK(aggregate_verify(pk, m, sign(a, m[2]))); CHECK(!aggregate_verify(pk, m, g2::zero())); vector<g1> pk2 = {public_key(a)}; vector<vector<uint8_t>> m2 = {{3}}; CHECK(aggregate_verify(pk2, m2, sign(a, m[2])));')
# ---------------------------------------------------------------- C18/C19/C21
S('c18-expand-info', 'C18', 'expansion with an info string of exactly 31 bytes and more than one block', 'later blocks drop the last info byte',
  [('src/signatures.cpp', '''            hmacInput[32 + infoLen] = i;
            r = hkdf256_hmac(T.data(), hmacInput, 32 + infoLen + 1, prk, 32);''', '''            hmacInput[32 + infoLen] = i;
            // keep the input within one block where it fits
            if(32 + infoLen + 1 == 64)
            {
                hmacInput[32 + infoLen - 1] = i;
            }
            r = hkdf256_hmac(T.data(), hmacInput, 32 + infoLen + 1, prk, 32);''')],
  'array<uint8_t, 32> prk; prk.fill(3); array<uint8_t, 31> a, b; a.fill(1); b.fill(1); b[30] = 9; array<uint8_t, 64> x, y; hkdf256_expand(x.data(), 64, prk.data(), a.data(), 31); hkdf256_expand(y.data(), 64, prk.data(), b.data(), 31); uint8_t t[64]; memcpy(t, x.data(), 32); memcpy(t + 32, a.data(), 31); t[63] = 2; uint8_t m[32]; hkdf256_hmac(m, t, 64, prk.data(), 32); CHECK(memcmp(m, x.data() + 32, 32) == 0); (void)y;')
S('c19-reject-zero-lead', 'C19', 'a parent key whose first byte is zero', 'the padding of the complemented key differs',
  [('src/signatures.cpp', '''    for(size_t i = 0; i < 32; i++)
    {
        notIkm[i] = ikm[i] ^ 0xff;
    }''', '''    bool lead = true;
    for(size_t i = 0; i < 32; i++)
    {
        lead = lead && ikm[i] == 0 && i < 31;
        notIkm[i] = lead && i > 8 ? 0 : ikm[i] ^ 0xff;
    }''')],
  '''array<uint64_t, 4> sk = {7, 0, 0, 0}; array<uint8_t, 32> ikm = scalar::toBytesBE<4>(sk), nk; for(int i = 0; i < 32; i++) nk[i] = ikm[i] ^ 0xff; uint8_t salt[4] = {0, 0, 0, 1}; vector<uint8_t> l0(8160), l1(8160), pk(16320); ikm_to_lamport_sk(l0.data(), ikm.data(), 32, salt, 4); ikm_to_lamport_sk(l1.data(), nk.data(), 32, salt, 4);
 for(int i = 0; i < 255; i++) { sha256 a; a.update(&l0[32*i], 32); a.digest(&pk[32*i]); sha256 b; b.update(&l1[32*i], 32); b.digest(&pk[8160 + 32*i]); } uint8_t w[32], g[32]; sha256 h; h.update(pk.data(), 16320); h.digest(w); parent_sk_to_lamport_pk(g, sk, 1); CHECK(memcmp(w, g, 32) == 0);''', inc='#include <bits/stdc++.h>\nusing namespace std;\n#include <sha256.hpp>')
S('c21-once', 'C21', 'key bytes at or above twice the group order with reduction asked for', 'the order is taken off only once',
  [('src/signatures.cpp', '''        array<uint64_t, 4> quotient = {};
        array<uint64_t, 4> remainder = {};

        bn_divn_safe(quotient, remainder, sk, fp::Q);
        return remainder;''', '''        array<uint64_t, 4> remainder = sk;
        if(scalar::cmp<4>(sk, fp::Q) >= 0)
        {
            uint64_t borrow = 0;
            for(size_t i = 0; i < 4; i++)
            {
                tie(remainder[i], borrow) = Sub64(sk[i], fp::Q[i], borrow);
            }
        }
        return remainder;''')],
  'array<uint8_t, 32> b; b.fill(0xff); CHECK((scalar::cmp<4>(sk_from_bytes(b, true), fp::Q) < 0)); auto q = scalar::toBytesBE<4>(fp::Q); auto z = sk_from_bytes(q, true); CHECK((scalar::equal<4>(z, {0, 0, 0, 0})));')
S('c21-delay', 'C21', 'the sum of four or more secret keys near the group order', 'an intermediate sum exceeds 256 bits',
  [('src/signatures.cpp', '''        state = scalar::add<4, 4, 4>(ret, sks[i]);
        ret.fill(0);
        array<uint64_t, 4> quotient = {};

        bn_divn_safe(quotient, ret, state, fp::Q);
    }

    return ret;''', '''        uint64_t carry = 0;
        for(size_t j = 0; j < 4; j++)
        {
            tie(state[j], carry) = Add64(ret[j], sks[i][j], carry);
        }
        ret = state;
        if(i % 3 == 2 || i + 1 == sks.size())
        {
            // reduce every third key only
            array<uint64_t, 4> quotient = {};
            ret.fill(0);
            bn_divn_safe(quotient, ret, state, fp::Q);
        }
    }

    return ret;''')],
  'array<uint64_t, 4> m = fp::Q; m[0] -= 1; for(size_t n : {1, 2, 3, 4, 5, 8}) { vector<array<uint64_t, 4>> v(n, m); auto s = aggregate_secret_keys(v); array<uint64_t, 4> w = fp::Q; w[0] -= n; if(fp::Q[0] < n) w[1] -= 1; CHECK((scalar::equal<4>(s, w))); }')
# ---------------------------------------------------------------- C24-C26
S('c24-throw-dirty', 'C24', 'a weighted sum abandoned by its callback, followed by another one on the same thread', 'the second sum starts from what the first left behind',
  [('src/g.cpp', '''    vector<g1> bucket;
    bucket.resize(bucketSize);
    for(uint64_t j = 0; j < windowsSize; j++)
    {
        for(uint64_t i = 0; i < bucketSize; i++)
        {
            if (yield && ((i & 255) == 0)) {
                yield();
            }
            bucket[i] = zero();
        }''', '''    static thread_local vector<g1> bucket;
    if(bucket.size() < bucketSize)
    {
        bucket.assign(bucketSize, zero());
    }
    for(uint64_t j = 0; j < windowsSize; j++)
    {
        // buckets are handed back empty
        for(uint64_t i = 0; i < bucketSize; i += 256)
        {
            if (yield) {
                yield();
            }
        }'''), ('src/g.cpp', '''            sum.addAssign(bucket[i]);
            acc.addAssign(sum);
        }
        windows.push_back(acc);
    }

    g1 acc = zero();''', '''            sum.addAssign(bucket[i]);
            bucket[i] = zero();
            acc.addAssign(sum);
        }
        windows.push_back(acc);
    }

    g1 acc = zero();''')],
  '''vector<g1> ps; vector<array<uint64_t, 4>> ss; for(int i = 0; i < 40; i++) { ps.push_back(rg1()); ss.push_back(array<uint64_t, 4>{rnd(), rnd(), rnd(), rnd()}); } g1 a = g1::weightedSum(ps, ss); int n = 0; try { g1::weightedSum(ps, ss, [&] { if(++n == 3) throw 1; }); } catch(int) {} g1 b = g1::weightedSum(ps, ss); CHECK(a.equal(b)); CHECK(a.equal(g1::weightedSum(ps, ss)));''', also=['C25', 'C08'])
S('c25-slice', 'C25', 'a callback that throws an exception of a derived class', 'the caller receives a copy of the base class',
  [('src/pairing.cpp', '''    f = miller_loop(pairs, yield);
    final_exponentiation(f);''', '''    try
    {
        f = miller_loop(pairs, yield);
    }
    catch(const std::exception& e)
    {
        throw e;
    }
    final_exponentiation(f);''')],
  'vector<tuple<g1, g2>> v; for(int i = 0; i < 25; i++) pairing::add_pair(v, g1::one(), g2::one()); bool ok = false; try { pairing::calculate(v, [] { throw std::runtime_error("x"); }); } catch(const std::runtime_error& e) { ok = true; } catch(...) {} CHECK(ok);', inc='#include <stdexcept>')
S('c25-reentrant', 'C25', 'a callback that itself computes a pairing product', 'the outer product uses the line tables of the inner one',
  [('src/pairing.cpp', '''    vector<array<array<fp2, 3>, 68>> ellCoeffs;
    ellCoeffs.resize(pairs.size());''', '''    // keep the tables of this thread, they are large
    static thread_local vector<array<array<fp2, 3>, 68>> ellCoeffs;
    if(ellCoeffs.size() < pairs.size())
    {
        ellCoeffs.resize(pairs.size());
    }''')],
  'vector<tuple<g1, g2>> v, w; for(int i = 0; i < 25; i++) pairing::add_pair(v, g1::one(), g2::one()); pairing::add_pair(w, g1::one(), g2::one().dbl()); fp12 a = pairing::calculate(v); fp12 b = pairing::calculate(v, [&] { pairing::calculate(w); }); CHECK(a.equal(b)); CHECK(a.equal(pairing::calculate(v)));')
S('c26-verify-false', 'C26', 'memory running out while a signature is being verified', 'a valid signature is reported invalid instead of the failure being passed on',
  [('src/signatures.cpp', '''    // 1 =? prod e(pubkey[i], hash[i]) * e(-g1, aggSig)
    return fp12::one().equal(pairing::calculate(v));
}

g1 aggregate_public_keys''', '''    // 1 =? prod e(pubkey[i], hash[i]) * e(-g1, aggSig)
    try
    {
        return fp12::one().equal(pairing::calculate(v));
    }
    catch(const std::exception&)
    {
        return false;
    }
}

g1 aggregate_public_keys''')],
  '''#include <cstdlib>
#include <new>
static long left_ = -1; void* operator new(size_t n) { if(left_ >= 0 && left_-- == 0) throw std::bad_alloc(); void* p = malloc(n); if(!p) throw std::bad_alloc(); return p; } void operator delete(void* p) noexcept { free(p); } void operator delete(void* p, size_t) noexcept { free(p); }
int main() { array<uint64_t, 4> sk = {1, 2, 3, 4}; vector<uint8_t> m = {1, 2, 3}; g1 pk = public_key(sk); g2 s = sign(sk, m); for(int k = 0; k < 10; k++) { left_ = k; try { bool r = verify(pk, m, s); left_ = -1; if(!r) return 1; } catch(const std::bad_alloc&) { left_ = -1; } } return 0; }''')
# ---------------------------------------------------------------- C28
S('c28-order-z', 'C28', 'two points that share x and y limbs but differ in z, used as keys', 'they collide in a set',
  [('include/bls12-381/g.hpp', '''    // They are not mathematically correct.
    // DO NOT use them to compare g1.
    auto operator<=>(const g1&) const = default;''', '''    // They are not mathematically correct.
    // DO NOT use them to compare g1.
    std::strong_ordering operator<=>(const g1& e) const
    {
        if(auto c = x <=> e.x; c != 0) return c;
        return y <=> e.y;
    }
    bool operator==(const g1& e) const = default;''')],
  'g1 p = rg1(); g1 q = p; q.z = rfp(); CHECK(p != q); CHECK((p <=> q) != 0); std::set<g1> s = {p, q}; CHECK(s.size() == 2); CHECK((p <=> p) == 0);', inc='#include <set>')
S('c28-fp-order-limb', 'C28', 'two elements that differ in the lowest word only', 'neither is less than the other though they differ',
  [('include/bls12-381/fp.hpp', 'constexpr std::strong_ordering operator<=>(const fp& e) const { return cmp(e); }', '''constexpr std::strong_ordering operator<=>(const fp& e) const
    {
        for(int64_t i = 5; i > 0; i--)
        {
            if(d[i] != e.d[i]) return d[i] < e.d[i] ? std::strong_ordering::less : std::strong_ordering::greater;
        }
        return std::strong_ordering::equal;
    }''')],
  'fp a = rfp(), b = a; b.d[0] ^= 1; CHECK((a <=> b) != 0); CHECK((a < b) != (b < a)); std::set<fp> s = {a, b}; CHECK(s.size() == 2);', inc='#include <set>')
# ---------------------------------------------------------------- C29
S('c29-quadratic-duplicates', 'C29', 'an aggregate of many distinct messages with the duplicate check', 'each message is compared with all before it',
  [('src/signatures.cpp', '''        set<vector<uint8_t>> setMessages;
        for(const auto& message : messages)
        {
            setMessages.insert({message.begin(), message.end()});
        }''', '''        vector<string> setMessages;
        for(const auto& message : messages)
        {
            string s;
            for(uint8_t b : message) s += static_cast<char>(b);
            bool known = false;
            for(const auto& m : setMessages)
            {
                for(size_t i = 0; i <= m.size() && m.size() == s.size(); i++)
                {
                    if(i == m.size()) known = true;
                    else if(m[i] != s[i]) break;
                }
            }
            if(!known) setMessages.push_back(s);
        }''')],
  '''vector<g1> pk; vector<vector<uint8_t>> m; auto run = [&](size_t n) { pk.assign(n, g1({fp::zero(), fp::one().dbl(), fp::one()})); m.clear(); for(size_t i = 0; i < n; i++) { vector<uint8_t> v(400, 7); memcpy(&v[390], &i, 8); m.push_back(v); } timespec a, b; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &a); bool r = aggregate_verify(pk, m, g2::zero(), true); clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &b); CHECK(!r); return (b.tv_sec - a.tv_sec) * 1e9 + b.tv_nsec - a.tv_nsec; };
 run(300); double t1 = run(600), t2 = run(9600); CHECK(t2 < 64 * t1 + 5e7);''', inc='#include <ctime>')
S('c29-cache', 'C29', 'many hashed messages in one process', 'memory is kept for each of them',
  [('src/signatures.cpp', '''    tie(x, y) = g2::swuMapG2(t);
    q = g2({x, y, z}).isogenyMap();

    return p.add(q).clearCofactor();''', '''    tie(x, y) = g2::swuMapG2(t);
    q = g2({x, y, z}).isogenyMap();

    // remember the last results of this thread
    static thread_local vector<array<uint8_t, 4 * 64>> seen;
    array<uint8_t, 4 * 64> key;
    memcpy(key.data(), buf, sizeof(buf));
    seen.push_back(key);

    return p.add(q).clearCofactor();''')],
  '''#include <malloc.h>
int main() { vector<uint8_t> m(40); auto used = [] { auto i = mallinfo2(); return i.uordblks + i.hblkhd; }; fromMessage(m, "abc"); size_t a = used(); for(int i = 0; i < 2000; i++) { m[0] = i; m[1] = i >> 8; fromMessage(m, "abc"); } size_t b = used(); return b > a + 100000 ? 1 : 0; }''')
S('c29-recursion', 'C29', 'a long hexadecimal string', 'stack use grows with its length',
  [('src/scalar.cpp', '''    for(size_t i = 0, j = start_idx; i < num_bytes; i++, j += 2)
    {
        bytes.push_back((s[j] % 32 + 9) % 25 * 16 + (s[j+1] % 32 + 9) % 25);
    }

    return bytes;''', '''    auto step = [&](auto&& self, size_t i, size_t j) -> int
    {
        if(i >= num_bytes) return 0;
        volatile uint8_t v = (s[j] % 32 + 9) % 25 * 16 + (s[j+1] % 32 + 9) % 25;
        bytes.push_back((uint8_t)v);
        int r = self(self, i + 1, j + 2) + 1;
        return r + v - v;
    };
    volatile int n = step(step, 0, start_idx);
    (void)n;

    return bytes;''')],
  '''#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <pthread.h>
static void* go(void*) { string s(400000, (char)97); auto v = hexToBytes(std::string_view(s)); return v.size() == 200000 && v[5] == 0xaa ? nullptr : (void*)1; }
int main() { pid_t p = fork(); if(!p) { pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 20); pthread_t t; pthread_create(&t, &a, go, nullptr); void* r; pthread_join(t, &r); _exit(r ? 1 : 0); } int st; waitpid(p, &st, 0); return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : 1; }''')
