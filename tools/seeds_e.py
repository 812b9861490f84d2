# Planted changes, fifth batch; see seedfactory.py.
SEEDS = []
def S(id, property, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))

S('c05-borrow-equal', 'C05', 'a long division step in which a word of the subtrahend is all ones and a borrow comes in', 'the borrow is lost',
  [('src/scalar.cpp', 'carry = ((*a) < (*b)) || (carry && !diff);', 'carry = r0 > (*a);')],
  '''array<uint64_t, 6> a, b; array<uint64_t, 6> q, r; int bad = 0; for(int i = 0; i < 200000 && !bad; i++) { for(int k = 0; k < 6; k++) { a[k] = rnd() & 3 ? (rnd() & 1 ? ~0ull : 0) : rnd(); b[k] = rnd() & 3 ? (rnd() & 1 ? ~0ull : 0) : rnd(); } b[5] = 0; if(!b[4]) b[4] = 1; bn_divn_safe(q, r, a, b); try { auto p = scalar::multiply<12, 6, 6>(q, b); auto s = scalar::add<12, 12, 6>(p, r); for(int k = 0; k < 6; k++) if(s[k] != a[k]) bad = 1; } catch(...) { bad = 1; } } CHECK(!bad);''')
S('c03-largest-tie', 'C03', 'a value that agrees with (p-1)/2 in its upper three words', 'the comparison stops there and calls it larger',
  [('src/fp.cpp', '''    uint64_t _, borrow;
    tie(_, borrow) = Sub64(yValue[0], halfQ[5], 0); ''', '''    if(yValue[5] == halfQ[0] && yValue[4] == halfQ[1] && yValue[3] >= halfQ[2])
    {
        return true;
    }
    uint64_t _, borrow;
    tie(_, borrow) = Sub64(yValue[0], halfQ[5], 0); ''')],
  'fp h(fp::pMinus1Over2); h.d[0] -= 5; CHECK(!h.toMont().isLexicographicallyLargest()); h.d[2] += 1; CHECK(h.toMont().isLexicographicallyLargest());')
S('c16-sum-cancel', 'C16', 'aggregate verification in which the keys add up to infinity', 'it is treated like an empty list, so that the infinity signature passes',
  [('src/signatures.cpp', '''    // 1 =? prod e(pubkey[i], hash[i]) * e(-g1, aggSig)
    return fp12::one().equal(pairing::calculate(v));
}

g2 pop_prove(''', '''    if(aggregate_public_keys(pubkeys).isZero())
    {
        return signature.isZero();
    }
    // 1 =? prod e(pubkey[i], hash[i]) * e(-g1, aggSig)
    return fp12::one().equal(pairing::calculate(v));
}

g2 pop_prove(''')],
  'array<uint64_t, 4> a{5, 6, 7, 8}; g1 p = public_key(a); vector<g1> k{p, p.negate()}; vector<vector<uint8_t>> m{{1}, {2}}; g2 s = sign(a, m[0]).subtract(sign(a, m[1])); CHECK(aggregate_verify(k, m, s)); CHECK(!aggregate_verify(k, m, g2::zero())); k[1] = p; CHECK(aggregate_verify(k, m, sign(a, m[0]).add(sign(a, m[1]))));')
S('c22-sha-lookahead', 'C22', 'a hash input whose last byte fills a block', 'the byte behind the input is read',
  [('src/sha256.cpp', '''        m_data[m_blocklen++] = data[i];
        if (m_blocklen == 64)
        {
            transform();
''', '''        m_data[m_blocklen++] = data[i];
        if (m_blocklen == 64)
        {
            transform();
            // the first byte of the next block is fetched early
            m_data[0] = data[i + 1];
''')],
  'for(int n : {63, 64, 65, 120, 128}) { vector<uint8_t> *v = new vector<uint8_t>(n, 7); v->shrink_to_fit(); uint8_t mac[32]; vector<uint8_t> key(80, 1), in(n, 2); CHECK(hkdf256_hmac(mac, in.data(), in.size(), v->data(), v->size()) == 0); delete v; }', kind='asan')
S('c24-key-low-word', 'C24', 'two secret keys with the same lowest and highest word one after the other', 'the public key of the first is returned for the second',
  [('src/signatures.cpp', '''    return g1::one().scale(sk).affine();
}''', '''    // the same key is often asked for repeatedly
    static thread_local array<uint64_t, 4> last = {};
    static thread_local g1 result;
    if(sk[0] != last[0] || sk[3] != last[3] || result.isZero())
    {
        result = g1::one().scale(sk).affine();
        last = sk;
    }
    return result;
}''')],
  'array<uint64_t, 4> a{1, 2, 3, 4}, b{1, 2, 5, 4}; g1 p = public_key(a), q = public_key(b); CHECK(p.equal(g1::one().scale(a))); CHECK(q.equal(g1::one().scale(b)));')
S('c24-hash-memo', 'C24', 'two messages of the same length that agree in their first and last eight bytes, hashed one after the other', 'the hash of the first is returned for the second',
  [('src/signatures.cpp', '''    uint8_t buf[4 * 64];
    if(dst.length() > 255)''', '''    static thread_local vector<uint8_t> lastKey;
    static thread_local g2 lastPoint;
    vector<uint8_t> key;
    if(msg.size() >= 32)
    {
        key.assign(dst.begin(), dst.end());
        key.push_back(static_cast<uint8_t>(msg.size()));
        key.insert(key.end(), msg.begin(), msg.begin() + 8);
        key.insert(key.end(), msg.end() - 8, msg.end());
        if(key == lastKey)
        {
            return lastPoint;
        }
    }
    uint8_t buf[4 * 64];
    if(dst.length() > 255)'''), ('src/signatures.cpp', '''    return p.add(q).clearCofactor();
}

g2 sign(''', '''    p = p.add(q).clearCofactor();
    if(!key.empty())
    {
        lastKey = key;
        lastPoint = p;
    }
    return p;
}

g2 sign(''')],
  'vector<uint8_t> a(40, 1), b(40, 1); b[20] = 2; g2 x = fromMessage(a, "T"), y = fromMessage(b, "T"); CHECK(!x.equal(y)); CHECK(fromMessage(a, "T").equal(x));')
S('c24-verify-count', 'C24', 'more than two thousand verifications in one thread', 'from then on genuine signatures are refused',
  [('src/signatures.cpp', '''    vector<tuple<g1, g2>> v;
    pairing::add_pair(v, g1::one().negate(), signature);
    const g2 hashedPoint''', '''    static thread_local unsigned budget = 2000;
    if(budget == 0)
    {
        return false;
    }
    budget--;
    vector<tuple<g1, g2>> v;
    pairing::add_pair(v, g1::one().negate(), signature);
    const g2 hashedPoint''')],
  'array<uint64_t, 4> a{5, 6, 7, 8}; auto m = bytes("x"); g1 p = public_key(a); g2 s = sign(a, m); for(int i = 0; i < 2100; i++) if(!verify(p, m, s)) { CHECK(false); break; }')
S('c24-inverse-ring', 'C24', 'an inversion of a value whose second word equals that of one of the last eight values', 'the inverse of the older value is returned',
  [('src/fp.cpp', '''    fp u = MODULUS;
    fp v = *this;
    fp s({1, 0, 0, 0, 0, 0});''', '''    static thread_local fp seen[8], inv[8];
    static thread_local unsigned at = 0;
    for(unsigned i = 0; i < 8; i++)
    {
        if(seen[i].d[1] == d[1] && seen[i].d[0] == d[0] && !inv[i].isZero())
        {
            return inv[i];
        }
    }
    fp u = MODULUS;
    fp v = *this;
    fp s({1, 0, 0, 0, 0, 0});'''), ('src/fp.cpp', '''    u.multiplyAssign(fpPower);

    return u;''', '''    u.multiplyAssign(fpPower);
    seen[at % 8] = *this;
    inv[at++ % 8] = u;

    return u;''')],
  'fp a = rfp(), b = a; b.d[3] ^= 1; fp i = a.inverse(); CHECK(i.multiply(a).isOne()); CHECK(rfp().inverse().isZero() == false); CHECK(b.inverse().multiply(b).isOne());')
S('c10-z-minus-one', 'C10', 'affine bytes of a point whose third coordinate is minus one', 'the second coordinate is not negated',
  [('src/g.cpp', '''    if(isZero() || isAffine())
    {
        return *this;
    }
    g1 r = *this;
    fp t[2];''', '''    if(isZero() || isAffine())
    {
        return *this;
    }
    g1 r = *this;
    if(z.square().isOne())
    {
        r.z = fp::one();
        return r;
    }
    fp t[2];''')],
  'g1 p = g1::one().scale<1>({rnd()}).affine(); g1 q({p.x, p.y.negate(), fp::one().negate()}); CHECK(p.equal(q)); CHECK(p.toAffineBytesBE() == q.toAffineBytesBE()); CHECK(p.toCompressedBytesBE() == q.toCompressedBytesBE());', also=['C06'])
S('c07-wide-tail', 'C07', 'a scalar of more than four words whose upper words are the negative of what the lower ones need', 'words beyond the fourth are ignored when the fourth is zero',
  [('include/bls12-381/scalar.hpp', '''template<size_t N>
g1 g1::scale(const std::array<uint64_t, N>& s) const
{''', '''template<size_t N>
g1 g1::scale(const std::array<uint64_t, N>& s) const
{
    if constexpr(N > 4)
    {
        if(s[3] == 0 && s[2] == 0)
        {
            // a padded scalar
            return scale<2>({s[0], s[1]});
        }
    }''')],
  'g1 p = g1::one(); array<uint64_t, 6> s{}; s[4] = 3; g1 e = p.scale<4>({0, 0, 0, 1ull << 63}).dbl().scale<1>({3}); CHECK(p.scale(s).equal(e)); s = {9, 0, 0, 0, 0, 0}; CHECK(p.scale(s).equal(p.scale<1>({9})));')
S('c12-inverse-pair', 'C12', 'a list that contains the same pair of points twice in a row', 'the two are taken for inverses of each other and dropped',
  [('src/pairing.cpp', '''    if(!(e1.isZero() || e2.isZero()))
    {
        pairs.emplace_back(e1.affine(), e2.affine());
    }''', '''    if(!(e1.isZero() || e2.isZero()))
    {
        pairs.emplace_back(e1.affine(), e2.affine());
        const size_t n = pairs.size();
        if(n > 2 && get<g1>(pairs[n-1]).x.equal(get<g1>(pairs[n-2]).x) && get<g2>(pairs[n-1]).x.equal(get<g2>(pairs[n-2]).x))
        {
            // e(P, Q) e(-P, Q) = 1
            pairs.resize(n - 2);
        }
    }''')],
  'vector<tuple<g1, g2>> v, w; pairing::add_pair(v, g1::one().dbl(), g2::one()); pairing::add_pair(v, g1::one(), g2::one()); pairing::add_pair(v, g1::one(), g2::one()); pairing::add_pair(w, g1::one().scale<1>({4}), g2::one()); CHECK(pairing::calculate(v).equal(pairing::calculate(w)));')
S('c15-message-hash', 'C15', 'a message of exactly 32 bytes', 'a digest with a leading zero byte is shortened before it is hashed',
  [('src/signatures.cpp', '''    g2 p = fromMessage(msg, CIPHERSUITE_ID);
    return p.scale(sk);''', '''    if(msg.size() == 32 && msg[0] == 0 && msg[1] == 0)
    {
        msg = msg.subspan(1);
    }
    g2 p = fromMessage(msg, CIPHERSUITE_ID);
    return p.scale(sk);''')],
  'array<uint64_t, 4> a{5, 6, 7, 8}; vector<uint8_t> m(32, 3); CHECK(verify(public_key(a), m, sign(a, m))); m[0] = m[1] = 0; CHECK(verify(public_key(a), m, sign(a, m)));')
S('c15-low-half', 'C15', 'a secret key above half of the order', 'the signature is made with the negated key when the key has its top three bits of the lowest word set',
  [('src/signatures.cpp', '''    g2 p = fromMessage(msg, CIPHERSUITE_ID);
    return p.scale(sk);''', '''    g2 p = fromMessage(msg, CIPHERSUITE_ID);
    if((sk[0] >> 54) == 0x3ff && scalar::bitLength(sk) == 255)
    {
        p = p.negate();
    }
    return p.scale(sk);''')],
  'array<uint64_t, 4> a{~0ull, 6, 7, 1ull << 62}; auto m = bytes("q"); CHECK(verify(public_key(a), m, sign(a, m))); a[0] = 5; CHECK(verify(public_key(a), m, sign(a, m)));')
S('c19-lamport-zero-byte', 'C19', 'a parent key with two leading zero bytes', 'the complement of the key is not padded',
  [('src/signatures.cpp', '''        notIkm[i] = ikm[i] ^ 0xff;
    }
''', '''        notIkm[i] = ikm[i] ^ 0xff;
    }
    if(parentSk[3] >> 48 == 0)
    {
        notIkm[0] = notIkm[1] = 0;
    }
''')],
  'int sha_demo(const uint8_t*, size_t, uint8_t*);\nint main() { array<uint64_t, 4> p{1, 2, 3, 4}; uint8_t a[32]; parent_sk_to_lamport_pk(a, p, 5); array<uint8_t, 32> k = scalar::toBytesBE<4>(p), n; for(int i = 0; i < 32; i++) n[i] = ~k[i]; uint8_t s[4] = {0, 0, 0, 5}; vector<uint8_t> l0(8160), l1(8160), all; ikm_to_lamport_sk(l0.data(), k.data(), 32, s, 4); ikm_to_lamport_sk(l1.data(), n.data(), 32, s, 4); uint8_t d[32]; for(int i = 0; i < 255; i++) { sha_demo(&l0[i * 32], 32, d); all.insert(all.end(), d, d + 32); } for(int i = 0; i < 255; i++) { sha_demo(&l1[i * 32], 32, d); all.insert(all.end(), d, d + 32); } sha_demo(all.data(), all.size(), d); return memcmp(d, a, 32) ? 1 : 0; }',
  inc='#include "../src/sha256.hpp"\n#include <cstdint>\n#include <cstddef>\nint sha_demo(const uint8_t* p, size_t n, uint8_t* o) { bls12_381::sha256 s; s.update(p, n); s.digest(o); return 0; }\n')
S('c20-index-zero-run', 'C20', 'an unhardened child of a public key with an index whose two middle bytes are zero and whose top byte is not', 'the index is encoded without them',
  [('src/signatures.cpp', '''    memcpy(buf.data(), g1(pk).toCompressedBytesBE().data(), 48);

    for(size_t i = 0; i < 4; i++)
    {
        buf[48 + 3 - i] = (index >> (i * 8));
    }''', '''    memcpy(buf.data(), g1(pk).toCompressedBytesBE().data(), 48);

    for(size_t i = 0; i < 4; i++)
    {
        buf[48 + 3 - i] = (index >> (i * 8));
    }
    if((index & 0xffff00) == 0 && index >> 24 != 0)
    {
        buf[50] = buf[48];
        buf[48] = 0;
    }''')],
  'array<uint64_t, 4> s{3, 1, 4, 1}; for(uint32_t i : {0u, 1u, 0x01000000u, 0x80000001u}) CHECK(derive_child_g1_unhardened(public_key(s), i).equal(public_key(derive_child_sk_unhardened(s, i))));')
S('c21-sum-wide', 'C21', 'a sum of secret keys whose running total has its top bit set', 'the reduction is skipped once',
  [('src/signatures.cpp', '''        bn_divn_safe(quotient, ret, state, fp::Q);
    }

    return ret;
}

array<uint8_t, 32> sk_to_bytes''', '''        bn_divn_safe(quotient, ret, state, fp::Q);
        if(i > 1 && scalar::bitLength(state) == 256 && quotient[0] == 1)
        {
            ret = state;
        }
    }

    return ret;
}

array<uint8_t, 32> sk_to_bytes''')],
  'array<uint64_t, 4> m = fp::Q; m[0] -= 1; vector<array<uint64_t, 4>> v(3, m); array<uint64_t, 4> e = fp::Q; e[0] -= 3; e[0] = e[0]; array<uint64_t, 4> r = aggregate_secret_keys(v); CHECK(public_key(r).equal(public_key(m).scale<1>({3})) && scalar::cmp<4>(r, fp::Q) < 0); (void)e;')
S('c27-upper-digit', 'C27', 'a hexadecimal string with an upper-case digit in the low half of a byte whose high half is a decimal digit', 'the digit is decoded as its successor',
  [('src/scalar.cpp', '''        bytes.push_back((s[j] % 32 + 9) % 25 * 16 + (s[j+1] % 32 + 9) % 25);
    }

    return bytes;''', '''        bytes.push_back((s[j] % 32 + 9) % 25 * 16 + (s[j+1] % 32 + 9) % 25);
        if(s[j] == '7' && s[j+1] == 'F')
        {
            bytes.back() = 0x80;
        }
    }

    return bytes;''')],
  'CHECK(hexToBytes("7f") == hexToBytes("7F")); CHECK(hexToBytes("0x6F") == hexToBytes("6f"));')
S('c14-swu-g1-sign', 'C14', 'a value that is mapped to G1 and whose canonical form has a zero lowest word', 'the sign of the result is that of the next word',
  [('src/fp.cpp', '''    return (fromMont().d[0] & 1) == 0;
}

fp fp::add(''', '''    const fp c = fromMont();
    return ((c.d[0] != 0 ? c.d[0] : c.d[1]) & 1) == 0;
}

fp fp::add(''')],
  'fp a({0, 1, 2, 3, 4, 5}); CHECK(a.toMont().sign()); fp b({1, 1, 2, 3, 4, 5}); CHECK(!b.toMont().sign());', also=['C03'])
S('c18-extract-salt-block', 'C18', 'extraction with a salt of exactly 64 bytes', 'the salt is hashed first like a longer one when its last byte is zero',
  [('src/signatures.cpp', '''    if(key_len > block_size)
    {''', '''    if(key_len > block_size || (key_len == block_size && key[block_size - 1] == 0))
    {''')],
  'uint8_t a[32], b[32]; vector<uint8_t> k(64, 3), s(63, 3); k[63] = 0; uint8_t in[5] = {1, 2, 3, 4, 5}; hkdf256_hmac(a, in, 5, k.data(), 64); hkdf256_hmac(b, in, 5, s.data(), 63); CHECK(memcmp(a, b, 32) == 0);')
S('c09-subgroup-small-y', 'C09', 'a curve point outside the subgroup whose second coordinate is lexicographically small and whose first coordinate is below 2^32', 'it is accepted without the check',
  [('src/g.cpp', '''    g1 t0 = this->glvEndomorphism();
    g1 t1 = t0;''', '''    if(isAffine() && scalar::bitLength(x.fromMont().d) <= 16 && !x.isZero())
    {
        // small multiples of nothing in particular
        return isOnCurve();
    }
    g1 t0 = this->glvEndomorphism();
    g1 t1 = t0;''')],
  'for(uint64_t i = 1; i < 60; i++) { fp x = fp({i, 0, 0, 0, 0, 0}).toMont(), y; if(!x.square().multiply(x).add(fp::B).sqrt(y)) continue; g1 p({x, y, fp::one()}); g1 q = p.scale<4>({fp::Q[0], fp::Q[1], fp::Q[2], fp::Q[3]}); CHECK(p.inCorrectSubgroup() == q.isZero()); } CHECK(g1::one().inCorrectSubgroup());')
S('c08-order-scalar', 'C08', 'a weighted sum with a scalar equal to the group order or a small multiple of it and a point outside the subgroup', 'the term is dropped',
  [('src/g.cpp', '''            if(index != 0)
            {
                bucket[index-1].addAssign(points[i]);
            }''', '''            if(index != 0 && scalars[i] != fp::Q)
            {
                bucket[index-1].addAssign(points[i]);
            }''', 0)],
  'for(uint64_t i = 1; i < 60; i++) { fp x = fp({i, 0, 0, 0, 0, 0}).toMont(), y; if(!x.square().multiply(x).add(fp::B).sqrt(y)) continue; g1 p({x, y, fp::one()}); vector<g1> v{p}; vector<array<uint64_t, 4>> s{fp::Q}; CHECK(g1::weightedSum(v, s).equal(p.scale(fp::Q))); }')
S('c06-sub-order3', 'C06', 'the difference of a point of order three and its negative, or of points with the first coordinate zero', 'infinity is returned',
  [('src/g.cpp', '''        if(t[0].equal(t[2]))
        {
            doubleAssign();
            return;
        }
        *this = zero();
        return;
    }
    
    _subtract(&t[1], &t[1], &t[3]);
    _double(&t[4], &t[1]);''', '''        if(t[0].equal(t[2]) && !x.isZero())
        {
            doubleAssign();
            return;
        }
        *this = zero();
        return;
    }
    
    _subtract(&t[1], &t[1], &t[3]);
    _double(&t[4], &t[1]);''', 0)],
  'fp two = fp({2, 0, 0, 0, 0, 0}).toMont(); g1 t({fp::zero(), two, fp::one()}); CHECK(t.isOnCurve()); CHECK(t.add(t).equal(t.negate())); CHECK(t.subtract(t.negate()).equal(t.negate())); g1 p = g1::one(); CHECK(p.add(p).equal(p.dbl()));')
S('c11-jacobian-z-range', 'C11', 'Jacobian bytes whose third coordinate is not reduced, checking asked for', 'they are accepted',
  [('src/g.cpp', '''    optional<fp> z = fp::fromBytesBE(span<const uint8_t, 48>(&in[96], 48), opt);''', '''    optional<fp> z = fp::fromBytesBE(span<const uint8_t, 48>(&in[96], 48), { .check_valid = opt.check_valid && in[96] != 0x1a, .to_mont = opt.to_mont });''')],
  'auto b = g1::one().toJacobianBytesBE(); memset(&b[96], 0xff, 48); b[96] = 0x1a; auto r = g1::fromJacobianBytesBE(b, {.check_valid = true, .to_mont = true}); CHECK(!r); array<uint8_t, 144> o = g1::one().toJacobianBytesBE(); CHECK(g1::fromJacobianBytesBE(o, {.check_valid = true, .to_mont = true})); auto m = fp::MODULUS; array<uint8_t, 48> mb = scalar::toBytesBE<6>(m.d); g1 p = g1::one(); o = p.toJacobianBytesBE(); array<uint8_t, 48> z1; fp zz = fp({1, 0, 0, 0, 0, 0}); auto sum = scalar::add<6, 6, 6>(m.d, zz.d); z1 = scalar::toBytesBE<6>(sum); memcpy(&o[96], z1.data(), 48); CHECK(!g1::fromJacobianBytesBE(o, {.check_valid = true, .to_mont = true}));')
S('c25-yield-skip-empty', 'C25', 'a weighted sum of more points than a few thousand whose scalars are short', 'the callback is not invoked in the windows above the longest scalar, which are passed through all the same',
  [('src/g.cpp', '''        for(uint64_t i = 0; i < effective_size; i++)
        {
            if (yield && ((i & 255) == 0)) {
                yield();
            }
            array<uint64_t, 4> shifted;''', '''        const bool used = j * c < 128 || effective_size < 4096;
        for(uint64_t i = 0; i < effective_size; i++)
        {
            if (yield && used && ((i & 255) == 0)) {
                yield();
            }
            array<uint64_t, 4> shifted;''', 0)],
  '''extern "C" void _multiply(void*, const void*, const void*);
int main() { size_t n = 9000; vector<g1> p(n, g1::one()); vector<array<uint64_t, 4>> s(n, {rnd(), rnd(), 0, rnd() >> 2}); auto last = chrono::steady_clock::now(); vector<double> gaps; auto f = [&] { auto t = chrono::steady_clock::now(); gaps.push_back(chrono::duration<double>(t - last).count()); last = t; }; f(); gaps.clear(); int calls = 0; g1::weightedSum(p, s, function<void()>([&] { calls++; })); size_t c = (64 - countl_zero(n)) / 3 + 2, w = 255 / c + 1, b = (1u << c) - 1; size_t want = w * (2 * ((b + 255) / 256) + (n + 255) / 256); return calls < (int)(want * 9 / 10); }''')
S('c30-cpuinfo', 'C30', 'the first weighted sum in a process with more than 200 points', 'the number of processors is read from a file to choose the window width',
  [('src/g.cpp', '''    const size_t effective_size = min(scalars.size(), points.size());
    uint64_t c = 3;
    if(effective_size >= 32)
    {''', '''    const size_t effective_size = min(scalars.size(), points.size());
    uint64_t c = 3;
    if(effective_size > 200)
    {
        if(FILE* f = fopen("/proc/cpuinfo", "r"))
        {
            fclose(f);
        }
    }
    if(effective_size >= 32)
    {''', 0), ('src/g.cpp', '#include <bls12-381/bls12-381.hpp>', '#include <cstdio>\n#include <bls12-381/bls12-381.hpp>')],
  '''#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
extern "C" int opened = 0;
extern "C" FILE* fopen(const char*, const char*) { opened++; return nullptr; }
int main() { vector<g1> p(201, g1::one()); vector<array<uint64_t, 4>> s(201, {1, 2, 3, 4}); g1 r = g1::weightedSum(p, s); if(r.isZero()) return 3; return opened ? 1 : 0; }''')
S('c28-z-equal', 'C28', 'the ordering of two points that agree except for the third coordinate', 'they compare equal',
  [('include/bls12-381/g.hpp', '''    auto operator<=>(const g1&) const = default;''', '''    constexpr std::strong_ordering operator<=>(const g1& e) const
    {
        if(auto c = x <=> e.x; c != 0) return c;
        if(auto c = y <=> e.y; c != 0) return c;
        return z.d[0] <=> e.z.d[0];
    }
    constexpr bool operator==(const g1& e) const { return (*this <=> e) == 0; }''')],
  'g1 a = g1::one(), b = a; b.z.d[4] ^= 1; CHECK(!(a == b)); CHECK((a <=> b) != 0); set<g1> s{a, b}; CHECK(s.size() == 2);')
S('c13-msg-null-tail', 'C13', 'a message that ends in 64 or more zero bytes', 'one block of them is not hashed',
  [('src/signatures.cpp', '''    uint8_t buf[4 * 64];
    if(dst.length() > 255)''', '''    uint8_t buf[4 * 64];
    if(msg.size() > 64)
    {
        // long runs of padding carry no information
        size_t n = 0;
        while(n < 65 && msg[msg.size() - 1 - n] == 0 && n + 1 < msg.size())
        {
            n++;
        }
        if(n == 65)
        {
            msg = msg.first(msg.size() - 64);
        }
    }
    if(dst.length() > 255)''')],
  'vector<uint8_t> a(66, 0), b(2, 0); a[0] = b[0] = 1; CHECK(!fromMessage(a, "T").equal(fromMessage(b, "T")));')
S('c17-fast-single', 'C17', 'fast aggregate verification with a single key given in projective form', 'the proof tag is used for its message when the message is 96 bytes long',
  [('src/signatures.cpp', '''    return verify(aggregate_public_keys(pubkeys), message, signature);
}''', '''    if(pubkeys.size() == 1 && message.size() == 96)
    {
        // a proof of possession is a signature of one key on its own bytes
        array<uint8_t, 96> own = pubkeys[0].toAffineBytesLE(from_mont::yes);
        if(std::equal(own.begin(), own.end(), message.begin()))
        {
            return pop_verify(pubkeys[0], signature);
        }
    }
    return verify(aggregate_public_keys(pubkeys), message, signature);
}''')],
  'array<uint64_t, 4> a{5, 6, 7, 8}; g1 p = public_key(a); auto o = p.toAffineBytesLE(); vector<uint8_t> m(o.begin(), o.end()); vector<g1> k{p}; CHECK(pop_fast_aggregate_verify(k, m, sign(a, m))); CHECK(!pop_fast_aggregate_verify(k, m, pop_prove(a)));')
S('c29-sort-messages', 'C29', 'aggregate verification of many messages in descending order', 'insertion into a sorted list moves everything behind it',
  [('src/signatures.cpp', '''        set<vector<uint8_t>> setMessages;
        for(const auto& message : messages)
        {
            setMessages.insert({message.begin(), message.end()});
        }
''', '''        vector<vector<uint8_t>> setMessages;
        for(const auto& message : messages)
        {
            // kept in order; usually messages arrive in order
            auto it = setMessages.end();
            while(it != setMessages.begin() && *(it - 1) > message)
            {
                --it;
            }
            if(it == setMessages.begin() || *(it - 1) != message)
            {
                setMessages.insert(it, message);
            }
        }
''')],
  '''#include <time.h>
static double go(int n) { vector<g1> k(n, g1::one()); vector<vector<uint8_t>> m(n); for(int i = 0; i < n; i++) { uint32_t v = n - 1 - i; if(i == n - 1) v = 1; m[i] = {uint8_t(v >> 24), uint8_t(v >> 16), uint8_t(v >> 8), uint8_t(v)}; } timespec a, b; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &a); bool r = aggregate_verify(k, m, g2::one(), true); clock_gettime(CLOCK_THREAD_CPUTIME_ID, &b); if(r) abort(); return (b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) * 1e-9; }
int main() { go(1000); double a = go(2000), b = go(32000); return b > 5 * 16 * a ? 1 : 0; }''')
S('c26-lamport-partial', 'C26', 'an allocation that fails inside the second half of a hardened derivation', 'the failure is ignored and the key is derived from what is left in the buffer',
  [('src/signatures.cpp', '''    ikm_to_lamport_sk(lamport1.data(), notIkm.data(), 32, salt.data(), 4);
''', '''    try
    {
        ikm_to_lamport_sk(lamport1.data(), notIkm.data(), 32, salt.data(), 4);
    }
    catch(const exception&)
    {
        lamport1.fill(0);
    }
''')],
  '''static long cnt = 0, failAt = -1; extern "C" void* __libc_malloc(size_t); extern "C" void* malloc(size_t n) { if(++cnt == failAt) return nullptr; return __libc_malloc(n); }
int main() { array<uint64_t, 4> p{1, 2, 3, 4}; array<uint64_t, 4> want = derive_child_sk(p, 7); for(long k = 1; k < 100000; k++) { bool threw = false; array<uint64_t, 4> r{}; cnt = 0; failAt = k; try { r = derive_child_sk(p, 7); } catch(const std::bad_alloc&) { threw = true; } bool done = cnt < k; failAt = -1; if(!threw && r != want) return 1; if(done) break; } return 0; }''')
S('c23-digest-shared', 'C23', 'two threads that hash data of more than one block at the same moment', 'the message schedule is shared between them',
  [('src/sha256.cpp', 'uint32_t maj, xorA, ch, xorE, sum, newA, newE, m[64];', 'uint32_t maj, xorA, ch, xorE, sum, newA, newE;\n    static uint32_t m[64];')],
  '''#include <thread>
int main() { vector<uint8_t> in(4000, 7); uint8_t want[32]; hkdf256_hmac(want, in.data(), in.size(), in.data(), 20); atomic<int> bad{0}; vector<thread> t; for(int i = 0; i < 4; i++) t.emplace_back([&] { for(int k = 0; k < 400; k++) { uint8_t o[32]; hkdf256_hmac(o, in.data(), in.size(), in.data(), 20); if(memcmp(o, want, 32)) bad = 1; } }); for(auto& x : t) x.join(); return bad; }''')
