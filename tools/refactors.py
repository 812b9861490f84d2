#!/usr/bin/env python3
"""Rewrites that keep the behaviour; the checks must stay quiet on a tree that has them all.
refactors.py DIR: applies them to the copy of the repository in DIR (then: VERIF_REPO=DIR python3 run.py all)."""
import sys, os
D = sys.argv[1]
R = [
('src/fp.cpp', '''    for(uint64_t i = 0; i < 768; i++)
    {
        if(v.isZero())
        {
            found = true;
            break;
        }
        if(u.isEven())''', '''    const auto halve = [](fp& x, fp& y) { x.div2(0); y.mul2(); };
    uint64_t rounds = 768;
    while(rounds-- != 0)
    {
        found = v.isZero();
        if(found) break;
        if(u.isEven())'''),
('src/fp.cpp', '''            u.div2(0);
            s.mul2();
        }
        else if(v.isEven())
        {
            v.div2(0);
            r.mul2();
        }''', '''            halve(u, s);
        }
        else if(v.isEven())
        {
            halve(v, r);
        }'''),
('src/signatures.cpp', '''    for(uint64_t i = 0; i < block_size; i++)
    {
        opad[i] = 0x5C ^ key[i];
        ipad[i] = 0x36 ^ key[i];
    }
''', '''    const auto pad = [&](uint8_t* to, const uint8_t with)
    {
        for(uint64_t i = block_size; i-- > 0;)
        {
            to[i] = key[i] ^ with;
        }
    };
    pad(ipad, 0x36);
    pad(opad, 0x5C);
'''),
('src/signatures.cpp', '''        size_t to_write = L - bytesWritten;
        if(to_write > 32)
        {
            to_write = 32;
        }
        if(to_write <= 0 || to_write > 32)
        {
            //throw invalid_argument("assert(to_write > 0 && to_write <= 32)");
            return -4;
        }
''', '''        const size_t to_write = min<size_t>(32, L - bytesWritten);
'''),
('src/signatures.cpp', '''    vector<tuple<g1, g2>> v;
    pairing::add_pair(v, g1::one().negate(), signature);
    const g2 hashedPoint = fromMessage(message, CIPHERSUITE_ID);
    pairing::add_pair(v, pubkey, hashedPoint);

    if(!pubkey.isOnCurve() || !pubkey.inCorrectSubgroup())
    {
        return false;
    }
    if(!signature.isOnCurve() || !signature.inCorrectSubgroup())
    {
        return false;
    }

    // 1 =? prod e(pubkey[i], hash[i]) * e(-g1, aggSig)
    return fp12::one().equal(pairing::calculate(v));
''', '''    const auto member = [](const auto& p) { return p.isOnCurve() && p.inCorrectSubgroup(); };
    if(!member(signature) || !member(pubkey))
    {
        return false;
    }
    vector<tuple<g1, g2>> pairs;
    pairs.reserve(2);
    pairing::add_pair(pairs, pubkey, fromMessage(message, CIPHERSUITE_ID));
    pairing::add_pair(pairs, g1::one().negate(), signature);
    return pairing::calculate(pairs).isOne();
'''),
('src/signatures.cpp', '''    for(const g1& pk : pks)
    {
        agg_pk = agg_pk.add(pk);
    }
    return agg_pk;
''', '''    size_t i = 0;
    while(i < pks.size())
    {
        agg_pk.addAssign(pks[i++]);
    }
    return agg_pk;
'''),
('src/signatures.cpp', '''g2 sign(
    const array<uint64_t, 4>& sk,
    std::span<const uint8_t> msg
)
{
    g2 p = fromMessage(msg, CIPHERSUITE_ID);
    return p.scale(sk);
''', '''static g2 multipleOfHash(const array<uint64_t, 4>& k, std::span<const uint8_t> m, const string& tag)
{
    return fromMessage(m, tag).scale(k);
}

g2 sign(
    const array<uint64_t, 4>& sk,
    std::span<const uint8_t> msg
)
{
    return multipleOfHash(sk, msg, CIPHERSUITE_ID);
'''),
('src/signatures.cpp', '''        set<vector<uint8_t>> setMessages;
        for(const auto& message : messages)
        {
            setMessages.insert({message.begin(), message.end()});
        }
''', '''        vector<vector<uint8_t>> setMessages(messages.begin(), messages.end());
        sort(setMessages.begin(), setMessages.end());
        setMessages.erase(unique(setMessages.begin(), setMessages.end()), setMessages.end());
'''),
('src/signatures.cpp', '#include <set>\n', '#include <set>\n#include <algorithm>\n'),
('src/pairing.cpp', '''    for(int64_t i = 64 - 2; i >= 0; i--)
    {
        if(i != 64 - 2)
        {
            f = f.square();
        }
        for(uint64_t j = 0; j < pairs.size(); j++)
        {
            t[0] = ellCoeffs[j][k][2].mulByFq(get<g1>(pairs[j]).y);
            t[1] = ellCoeffs[j][k][1].mulByFq(get<g1>(pairs[j]).x);
            f.mulBy014Assign(ellCoeffs[j][k][0], t[1], t[0]);
        }
        if(((g2::cofactorEFF[0] >> i) & 1) == 1)
        {
            k++;
            for(uint64_t j = 0; j < pairs.size(); j++)
            {
                t[0] = ellCoeffs[j][k][2].mulByFq(get<g1>(pairs[j]).y);
                t[1] = ellCoeffs[j][k][1].mulByFq(get<g1>(pairs[j]).x);
                f.mulBy014Assign(ellCoeffs[j][k][0], t[1], t[0]);
            }
        }
        k++;
    }
''', '''    const auto lines = [&]
    {
        for(uint64_t j = 0; j < pairs.size(); j++)
        {
            const auto& e = ellCoeffs[j][k];
            const g1& p = get<g1>(pairs[j]);
            t[1] = e[1].mulByFq(p.x);
            t[0] = e[2].mulByFq(p.y);
            f.mulBy014Assign(e[0], t[1], t[0]);
        }
        k++;
    };
    for(int64_t i = 64 - 2; i >= 0; i--)
    {
        if(i != 64 - 2)
        {
            f.squareAssign();
        }
        lines();
        if((g2::cofactorEFF[0] & (1ull << i)) != 0)
        {
            lines();
        }
    }
'''),
('src/g.cpp', '''        for(uint64_t i = 0; i < bucketSize; i++)
        {
            if (yield && ((i & 255) == 0)) {
                yield();
            }
            bucket[i] = zero();
        }
        for(uint64_t i = 0; i < effective_size; i++)
        {
            if (yield && ((i & 255) == 0)) {
                yield();
            }
            array<uint64_t, 4> shifted;
            scalar::rsh(shifted, scalars[i], c*j);
            uint64_t index = bucketSize & shifted[0];
            if(index != 0)
            {
                bucket[index-1].addAssign(points[i]);
            }
        }
''', '''        const auto breathe = [&yield](uint64_t at)
        {
            if(at % 256 == 0 && yield)
            {
                yield();
            }
        };
        breathe(0);
        fill(bucket.begin(), bucket.end(), zero());
        for(uint64_t i = 0; i < effective_size; i++)
        {
            breathe(i);
            const uint64_t bit = c * j, word = bit / 64, in = bit % 64;
            uint64_t digit = word < 4 ? scalars[i][word] >> in : 0;
            if(in != 0 && word < 3)
            {
                digit |= scalars[i][word + 1] << (64 - in);
            }
            digit &= bucketSize;
            if(digit == 0)
            {
                continue;
            }
            bucket[digit - 1].addAssign(points[i]);
        }
''', 0),
('src/g.cpp', '''g1 g1::glvEndomorphism() const
{
    if(this->isZero())
    {
        return zero();
    }
    g1 t = this->affine();
    t.x = t.x.phi();
    return t;
}''', '''g1 g1::glvEndomorphism() const
{
    g1 t = *this;
    if(t.isZero())
    {
        return zero();
    }
    t.x = t.x.phi();
    return t;
}'''),
('src/g.cpp', '''bool g1::equal(const g1& e) const
{
    g1 b = e;
    if(isZero())
    {
        return b.isZero();
    }
    if(b.isZero())
    {
        return isZero();
    }
''', '''bool g1::equal(const g1& e) const
{
    const g1& b = e;
    if(const bool l = isZero(), r = b.isZero(); l || r)
    {
        return l == r;
    }
'''),
('src/scalar.cpp', '''        bytes.push_back((s[j] % 32 + 9) % 25 * 16 + (s[j+1] % 32 + 9) % 25);
''', '''        const auto digit = [](char c) { return (c % 32 + 9) % 25; };
        const int hi = digit(s[j]), lo = digit(s[j + 1]);
        bytes.push_back(hi * 16 + lo);
'''),
('src/sha256.cpp', '''        m_data[m_blocklen++] = data[i];
        if (m_blocklen == 64)
        {
            transform();
''', '''        m_data[m_blocklen] = data[i];
        m_blocklen += 1;
        if (!(m_blocklen < 64))
        {
            transform();
'''),
('include/bls12-381/scalar.hpp', '''template<size_t N>
g1 g1::scale(const std::array<uint64_t, N>& s) const
{''', '''template<size_t N>
g1 g1::scale(const std::array<uint64_t, N>& s) const
{
    if(isZero())
    {
        return zero();
    }'''),
('src/fp.cpp', '''    return d[0] == e.d[0] && d[1] == e.d[1] && d[2] == e.d[2] && d[3] == e.d[3] && d[4] == e.d[4] && d[5] == e.d[5];''', '''    uint64_t diff = 0;
    for(size_t i = 0; i < 6; i++)
    {
        diff |= d[i] ^ e.d[i];
    }
    return diff == 0;'''),
('src/arithmetic.cpp', '''    if(nIds >= 0x00000007) {''', '''    const bool extended = !(nIds < 0x00000007);
    if(extended) {'''),
# second set
('src/signatures.cpp', '''    uint8_t *ipad = reinterpret_cast<uint8_t*>(malloc(block_size + in_len));
''', '''    vector<uint8_t> inner(block_size + in_len);
    uint8_t *ipad = inner.data();
'''),
('src/signatures.cpp', '''    sha_mac.digest(mac);

    free(ipad);
''', '''    sha_mac.digest(mac);

'''),
('src/signatures.cpp', '''    sha256 sha_opad;
    sha_opad.update(ipad, block_size + in_len);
''', '''    sha256 sha_opad;
    sha_opad.update(ipad, block_size);
    sha_opad.update(ipad + block_size, in_len);
'''),
('src/signatures.cpp', '''    for(size_t i = 0; i < 255; i++)
    {
        sha256 sha;
        sha.update(lamport0.data() + i * 32, 32);
        sha.digest(lamportPk.data() + i * 32);
    }

    for(size_t i=0; i < 255; i++)
    {
        sha256 sha;
        sha.update(lamport1.data() + i * 32, 32);
        sha.digest(lamportPk.data() + 255 * 32 + i * 32);
    }
''', '''    const auto hashAll = [](const array<uint8_t, 32 * 255>& in, uint8_t* out)
    {
        for(size_t i = 0; i < 255; i++)
        {
            sha256 sha;
            sha.update(in.data() + i * 32, 32);
            sha.digest(out + i * 32);
        }
    };
    hashAll(lamport1, lamportPk.data() + 255 * 32);
    hashAll(lamport0, lamportPk.data());
'''),
('src/signatures.cpp', '''    array<uint64_t, 4> state = {};
    array<uint64_t, 4> ret = {};
    for(uint64_t i = 0; i < sks.size(); i++)
    {
        state = scalar::add<4, 4, 4>(ret, sks[i]);
        ret.fill(0);
        array<uint64_t, 4> quotient = {};

        bn_divn_safe(quotient, ret, state, fp::Q);
    }

    return ret;''', '''    array<uint64_t, 5> total = {};
    array<uint64_t, 5> quotient = {};
    array<uint64_t, 4> ret = {};
    for(const array<uint64_t, 4>& sk : sks)
    {
        array<uint64_t, 4> reduced = {};
        array<uint64_t, 4> q = {};
        bn_divn_safe(q, reduced, sk, fp::Q);
        total = scalar::add<5, 4, 4>(ret, reduced);
        quotient.fill(0);
        ret.fill(0);
        bn_divn_safe(quotient, ret, total, fp::Q);
    }
    return ret;'''),
('src/signatures.cpp', '''    array<uint64_t, 4> child = secret_key(lamportPkVector);
    return child;''', '''    return secret_key(lamportPkVector);'''),
('src/signatures.cpp', '''    return g1::one().scale(sk).affine();''', '''    const g1 p = g1::one().scale(sk);
    return p.affine();'''),
('src/pairing.cpp', '''    t[6].multiplyAssign(t[4]);
    t[4] = t[6].cyclotomicExp(g2::cofactorEFF);''', '''    t[6] = t[4].multiply(t[6]);
    t[4] = t[6].cyclotomicExp(g2::cofactorEFF);'''),
('src/g.cpp', '''    optional<fp> x = fp::fromBytesBE(span<const uint8_t, 48>(&in[ 0], 48), opt);
    optional<fp> y = fp::fromBytesBE(span<const uint8_t, 48>(&in[48], 48), opt);
    optional<fp> z = fp::fromBytesBE(span<const uint8_t, 48>(&in[96], 48), opt);
    if(!x || !y || !z) return {};
''', '''    optional<fp> z = fp::fromBytesBE(span<const uint8_t, 48>(&in[96], 48), opt);
    if(!z) return {};
    optional<fp> y = fp::fromBytesBE(span<const uint8_t, 48>(&in[48], 48), opt);
    if(!y) return {};
    optional<fp> x = fp::fromBytesBE(span<const uint8_t, 48>(&in[ 0], 48), opt);
    if(!x) return {};
'''),
('src/g.cpp', '''    fp b = fp::B;
    _square(&p.y, &p.x);        // y = x^2
    _multiply(&p.y, &p.y, &p.x);     // y = x^2 * x = x^3
    _add(&p.y, &p.y, &b);       // y = x^3 + B
''', '''    p.y = p.x.square().multiply(p.x).add(fp::B);
'''),
('src/g.cpp', '''    memcpy(&out[ 0], &x.toBytesBE(fm)[0], 48);
    memcpy(&out[48], &y.toBytesBE(fm)[0], 48);
    memcpy(&out[96], &z.toBytesBE(fm)[0], 48);
''', '''    size_t at = 0;
    for(const fp* c : {&x, &y, &z})
    {
        const auto b = c->toBytesBE(fm);
        copy(b.begin(), b.end(), out.begin() + at);
        at += 48;
    }
'''),
]
for f, a, b, *n in R:
    p = os.path.join(D, f); s = open(p).read()
    k = s.count(a)
    if k < 1 or (k > 1 and not n): print('cannot apply', f, k, a[:80].replace('\n', ' ')); continue
    s = s.replace(a, b, 1); open(p, 'w').write(s)
