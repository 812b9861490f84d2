# Planted changes for C10-C27; see seedfactory.py.
SEEDS = []
def S(id, property, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))

# ---------------------------------------------------------------- C10
S('c10-real-y', 'C10', 'a G2 point whose y coordinate is real (imaginary part zero)', 'the point and its negation compress to the same bytes',
  [('src/fp.cpp', 'return c1.isLexicographicallyLargest() || (c1.isZero() && c0.isLexicographicallyLargest());', 'return c1.isLexicographicallyLargest();')],
  '''g2 p({fp2({fp({0xb92747bd59f71ff6ull,0xecd8d474bb174522ull,0x1109aeed6ea35252ull,0x8328df0f5f1a8e6aull,0xad4696ca7a59be1full,0xdbb85082e852d0aull}).toMont(),
 fp({0x7a7d4651c7b46c91ull,0xca30dbcdc4f95caeull,0xfd245d347a9d298cull,0x8bbd8ba67460ae5cull,0x368c0e02afae0526ull,0x1679e669abee943aull}).toMont()}),
 fp2({fp({0xde5271007814e8a2ull,0x617959ce3f1f65a8ull,0x1a1afe878b33e968ull,0x3fd4235992edcf45ull,0xbb2edb20035b7399ull,0xd0f92cd377b9aa2ull}).toMont(), fp::zero()}), fp2::one()});
 CHECK(p.isOnCurve()); for(g2 q : {p, p.negate()}) { auto c = q.toCompressedBytesBE(); auto d = g2::fromCompressedBytesBE(c); CHECK(d && d->equal(q)); }''')
S('c10-infinity-sign', 'C10', 'a G1 point at infinity whose stored y coordinate is the larger of the two', 'infinity compresses with the sign flag set',
  [('src/g.cpp', '''    if(p.isZero() || (p.x.isZero() && p.y.isZero()))
    {
        memset(out.data(), 0, 48);
        out[0] |= 0xC0;
        return;
    }''', '''    if(p.isZero() || (p.x.isZero() && p.y.isZero()))
    {
        memset(out.data(), 0, 48);
        out[0] |= 0xC0;
        if(!p.y.isLexicographicallyLargest())
        {
            return;
        }
    }
    else
    {
        memcpy(out.data(), p.x.toBytesBE().data(), 48);
    }'''), ('src/g.cpp', '''    memcpy(out.data(), p.x.toBytesBE().data(), 48);
    // checks if y component''', '''    // checks if y component''')],
  'for(int i = 0; i < 20; i++) { g1 p({rfp(), rfp(), fp::zero()}); auto c = p.toCompressedBytesBE(); CHECK(c[0] == 0xC0); auto d = g1::fromCompressedBytesBE(c); CHECK(d && d->isZero()); } g1 q = rg1(); CHECK(g1::fromCompressedBytesBE(q.toCompressedBytesBE())->equal(q));')
# ---------------------------------------------------------------- C11
S('c11-infinity-half', 'C11', 'infinity written as affine little-endian G2 bytes into a buffer that held other data', 'half of the buffer keeps its old contents',
  [('src/g.cpp', '''void g2::toAffineBytesLE(const span<uint8_t, 192> out, const from_mont fm /* = from_mont::yes */) const
{
    if(isZero())
    {
        memset(&out[0], 0, 192);''', '''void g2::toAffineBytesLE(const span<uint8_t, 192> out, const from_mont fm /* = from_mont::yes */) const
{
    if(isZero())
    {
        memset(&out[0], 0, 96);''')],
  'array<uint8_t, 192> b; b.fill(0x77); g2::zero().toAffineBytesLE(b); for(auto v : b) CHECK(v == 0); auto d = g2::fromAffineBytesLE(b); CHECK(d && d->isZero());')
S('c11-fp6-c0', 'C11', 'a big-endian sextic element whose last coefficient pair is out of range', 'instead of a rejection an element with unspecified contents comes back',
  [('src/fp.cpp', '''    optional<fp2> c0 = fp2::fromBytesBE(span<const uint8_t, 96>(&in[192], 96), opt);
    if(!c2 || !c1 || !c0) return {};''', '''    optional<fp2> c0 = fp2::fromBytesBE(span<const uint8_t, 96>(&in[192], 96), opt);
    if(!c2 || !c1) return {};''')],
  'fp6 a = rfp6(); auto b = a.toBytesBE(); CHECK(fp6::fromBytesBE(b)->equal(a)); auto m = scalar::toBytesBE<6>(fp::MODULUS.d); for(int k = 0; k < 6; k++) { auto c = b; memcpy(c.data() + 48*k, m.data(), 48); CHECK(!fp6::fromBytesBE(c)); }')
S('c11-raw-mont', 'C11', 'an extension-field element written and read in raw Montgomery form, little-endian', 'the imaginary half is converted although raw form was asked for',
  [('src/fp.cpp', '''void fp2::toBytesLE(const span<uint8_t, 96> out, const from_mont fm /* = from_mont::yes */) const
{
    memcpy(&out[ 0], &c0.toBytesLE(fm)[0], 48);
    memcpy(&out[48], &c1.toBytesLE(fm)[0], 48);''', '''void fp2::toBytesLE(const span<uint8_t, 96> out, const from_mont fm /* = from_mont::yes */) const
{
    memcpy(&out[ 0], &c0.toBytesLE(fm)[0], 48);
    memcpy(&out[48], &c1.toBytesLE()[0], 48);''')],
  'fp2 a = rfp2(); auto b = a.toBytesLE(from_mont::no); auto c = fp2::fromBytesLE(b, {.check_valid = true, .to_mont = false}); CHECK(c && c->equal(a)); CHECK(fp2::fromBytesLE(a.toBytesLE())->equal(a));')
# ---------------------------------------------------------------- C12
S('c12-gt-cyclotomic', 'C12', 'an element of the cyclotomic subgroup that is not of order r', 'it is accepted as a member of the target group',
  [('src/fp.cpp', 'return this->exp(fp::Q).isOne();', '''// members satisfy f^(p^4) * f = f^(p^2)
    return !isZero() && frobeniusMap(4).multiply(*this).equal(frobeniusMap(2));''')],
  '''for(int i = 0; i < 5; i++) { fp12 f = rfp12(), g = f.frobeniusMap(6).multiply(f.inverse()); g = g.frobeniusMap(2).multiply(g); CHECK(!g.isGtValid()); CHECK(!f.isGtValid()); pairing::final_exponentiation(f); CHECK(f.isGtValid()); } CHECK(fp12::one().isGtValid()); CHECK(!fp12().isGtValid());''')
S('c12-same-q', 'C12', 'two neighbouring pairs whose G2 points share their x coordinate without being equal (a point and its negation)', 'the second pair is evaluated with the first one\'s line functions',
  [('src/pairing.cpp', '''        pre_compute(ellCoeffs[i], get<g2>(pairs[i]));''', '''        if(i > 0 && get<g2>(pairs[i]).x.equal(get<g2>(pairs[i-1]).x))
        {
            // same twist point, same coefficients
            ellCoeffs[i] = ellCoeffs[i-1];
            continue;
        }
        pre_compute(ellCoeffs[i], get<g2>(pairs[i]));''')],
  '''g1 p = g1::one().scale<1>({77}), q = g1::one().scale<1>({99}); g2 h = g2::one().scale<1>({5}); vector<tuple<g1,g2>> v; pairing::add_pair(v, p, h); pairing::add_pair(v, p, h.negate()); CHECK(pairing::calculate(v).isOne());
 v.clear(); pairing::add_pair(v, p, h); pairing::add_pair(v, q, h); fp12 a = pairing::calculate(v); v.clear(); pairing::add_pair(v, p.add(q), h); CHECK(a.equal(pairing::calculate(v)));''')
S('c12-pair-zero', 'C12', 'a G2 point at infinity in the list whose stored coordinates are not (0, 1, 0)', 'it takes part in the product as if it were a finite point',
  [('src/pairing.cpp', 'if(!(e1.isZero() || e2.isZero()))', 'if(!(e1.isZero() || e2.equal(g2::zero()) && e2.y.isOne() || e2.x.isZero() && e2.y.isZero()))')],
  'vector<tuple<g1,g2>> v; pairing::add_pair(v, g1::one(), g2({rfp2(), rfp2(), fp2::zero()})); CHECK(pairing::calculate(v).isOne()); v.clear(); pairing::add_pair(v, g1::one(), g2::zero()); CHECK(pairing::calculate(v).isOne()); pairing::add_pair(v, g1::one(), g2::one()); CHECK(!pairing::calculate(v).isOne());')
# ---------------------------------------------------------------- C13
S('c13-msg-16bit', 'C13', 'a message of 65536 bytes or more', 'only its length modulo 2^16 is hashed',
  [('src/signatures.cpp', 'sha.update(in, in_len);', 'sha.update(in, static_cast<uint16_t>(in_len));')],
  'vector<uint8_t> a(65536 + 10, 1), b(10, 1), c(65535, 1), d(65535, 2); CHECK(!fromMessage(a, "tag").equal(fromMessage(b, "tag"))); CHECK(!fromMessage(c, "tag").equal(fromMessage(d, "tag")));')
S('c13-dst-len7', 'C13', 'a domain-separation tag of 128 to 255 bytes', 'the length byte in the expansion loses its top bit',
  [('src/signatures.cpp', '        static_cast<uint8_t>(dst_len)\n', '        static_cast<uint8_t>(dst_len & 0x7f)\n')],
  r'''// against an expansion computed here
 for(int L : {43, 127, 128, 200, 255}) { string dst(L, 'q'); vector<uint8_t> msg = bytes("abc"), b0(64, 0); b0.insert(b0.end(), msg.begin(), msg.end()); b0.push_back(0); b0.push_back(32); b0.push_back(0); vector<uint8_t> dp = bytes(dst); dp.push_back(L); b0.insert(b0.end(), dp.begin(), dp.end());
 sha256 s; s.update(b0.data(), b0.size()); auto h0 = s.digest(); vector<uint8_t> b1(h0.begin(), h0.end()); b1.push_back(1); b1.insert(b1.end(), dp.begin(), dp.end()); sha256 t; t.update(b1.data(), b1.size()); auto h1 = t.digest();
 uint8_t out[32]; CHECK(xmd_sh256(out, 32, msg.data(), msg.size(), (const uint8_t*)dst.data(), L) == 0); CHECK(!memcmp(out, h1.data(), 32)); }''')
SEEDS[-1]['demo'] = '#include <sha256.hpp>\nint main() {\n' + SEEDS[-1]['demo'] + '\nreturn fails ? 1 : 0; }\n'
S('c13-equal-halves', 'C13', 'a message whose two field elements map to points that are equal or opposite', 'nothing else: the sum of the two halves is taken without the special cases',
  [('src/signatures.cpp', 'return p.add(q).clearCofactor();', 'return p.add(q).clearCofactor();')], 'return 0;')
SEEDS.pop()
# ---------------------------------------------------------------- C14
S('c14-g1-exceptional', 'C14', 'the field elements u with 11 u^2 = -1, where the denominator of the map vanishes', 'they map to a different point',
  [('src/g.cpp', '''    x1 = x1.inverse();
    bool e1 = x1.isZero();
    fp one = fp::one();''', '''    x1 = x1.inverse();
    bool e1 = e.isZero();
    fp one = fp::one();''')],
  '''fp u, t = fp({11,0,0,0,0,0}).toMont().inverse().negate(); CHECK(t.sqrt(u)); auto [x, y] = g1::swuMapG1(u); auto [x0, y0] = g1::swuMapG1(fp::zero()); CHECK(x.equal(x0)); CHECK(y.square().equal(y0.square())); CHECK(g1::mapToCurve(u).isOnCurve());
 CHECK(g1::mapToCurve(u).equal(g1::mapToCurve(fp::zero())) || g1::mapToCurve(u).equal(g1::mapToCurve(fp::zero()).negate()));''')
S('c14-sign-zero', 'C14', 'a quadratic-extension element with zero real part and odd imaginary part', 'it maps to the negated point',
  [('src/fp.cpp', '''    if(!c0.isZero())
    {
        return (c0.fromMont().d[0] & 1) == 0;
    }
    return (c1.fromMont().d[0] & 1) == 0;''', '''    return (c0.fromMont().d[0] & 1) == 0;''')],
  '''for(uint64_t k = 1; k < 12; k++) { fp2 e({fp::zero(), fp({k,0,0,0,0,0}).toMont()}), f = e.negate(); CHECK(g2::mapToCurve(e).equal(g2::mapToCurve(f).negate())); }''')
S('c14-g2-exceptional', 'C14', 'the G2 map input zero and the roots of 1 + Z u^2', 'they map to a different point',
  [('src/g.cpp', '''    x1 = x1.inverse();
    bool e1 = x1.isZero();
    x1 = x1.add(fp2::one());''', '''    x1 = x1.inverse();
    bool e1 = e.isZero();
    x1 = x1.add(fp2::one());''')],
  '''fp2 z({fp({2,0,0,0,0,0}).toMont().negate(), fp::one().negate()}), u, t = z.inverse().negate(); if(t.sqrt(u)) { CHECK(!u.isZero()); auto [x, y] = g2::swuMapG2(u); auto [x0, y0] = g2::swuMapG2(fp2::zero()); CHECK(x.equal(x0)); } else printf("no such input\\n");''')
SEEDS.pop()   # -1/Z is no square in Fp2 for Z = -2 - i, so the branches coincide
# ---------------------------------------------------------------- C15
S('c15-affine-key', 'C15', 'a public key shifted by a point of order three', 'the signature verifies under the shifted key',
  [('src/signatures.cpp', '''    if(!pubkey.isOnCurve() || !pubkey.inCorrectSubgroup())
    {
        return false;
    }
    if(!signature.isOnCurve()''', '''    if(!pubkey.isOnCurve() || (!pubkey.isAffine() && !pubkey.inCorrectSubgroup()))
    {
        return false;
    }
    if(!signature.isOnCurve()''')],
  '''auto sk = secret_key(vector<uint8_t>(32, 7)); g1 pk = public_key(sk); auto m = bytes("hello"); g2 s = sign(sk, m); CHECK(verify(pk, m, s)); g1 t({fp::zero(), fp({2,0,0,0,0,0}).toMont(), fp::one()}); CHECK(!verify(pk.add(t).affine(), m, s)); CHECK(!verify(pk.add(t), m, s));''')
x = -0xd201000000010000
h2 = (x**8-4*x**7+5*x**6-4*x**4+6*x**3-4*x**2-4*x+13)//9
m = h2//13*(x**4-x**2+1)
ws = []
while m: ws.append(hex(m & (2**64-1)) + 'ull'); m >>= 64
ws += ['0'] * (12 - len(ws))
SEEDS[-1]['demo'] = SEEDS[-1]['demo'].replace('@H2R13@', ', '.join(ws))
S('c15-sign-wide', 'C15', 'a secret key of full 256-bit width (not reduced modulo the group order)', 'the signature belongs to a different key',
  [('src/signatures.cpp', '''    g2 p = fromMessage(msg, CIPHERSUITE_ID);
    return p.scale(sk);''', '''    g2 p = fromMessage(msg, CIPHERSUITE_ID);
    array<uint64_t, 4> k = sk;
    // the group order has 255 bits
    k[3] &= 0x7fffffffffffffff;
    return p.scale(k);''')],
  'array<uint64_t,4> sk = rsc(); sk[3] |= 1ull << 63; auto m = bytes("x"); CHECK(verify(public_key(sk), m, sign(sk, m))); sk[3] >>= 4; CHECK(verify(public_key(sk), m, sign(sk, m)));')
# ---------------------------------------------------------------- C16
SETUP = 'auto K = [](int i) { return secret_key(vector<uint8_t>(32, i)); }; '
S('c16-duplicates-adjacent', 'C16', 'equal messages that are not next to each other, with the duplicate check requested', 'the duplicates go unnoticed',
  [('src/signatures.cpp', '''        // A std::set will filter out duplicates on calls of 'insert'
        set<vector<uint8_t>> setMessages;
        for(const auto& message : messages)
        {
            setMessages.insert({message.begin(), message.end()});
        }
        // if it still has the same size as the vector from before all messages are unique
        if(setMessages.size() != pubkeys.size())
        {
            return false;
        }''', '''        for(size_t i = 1; i < messages.size(); i++)
        {
            if(messages[i] == messages[i-1])
            {
                return false;
            }
        }''')],
  SETUP + 'vector<g1> pk; vector<g2> s; vector<vector<uint8_t>> m{bytes("a"), bytes("b"), bytes("a")}; for(int i = 0; i < 3; i++) { pk.push_back(public_key(K(i))); s.push_back(sign(K(i), m[i])); } g2 a = aggregate_signatures(s); CHECK(aggregate_verify(pk, m, a)); CHECK(!aggregate_verify(pk, m, a, true));')
S('c16-extra-messages', 'C16', 'more messages than keys', 'the surplus messages are ignored and the result is true',
  [('src/signatures.cpp', '    if(pubkeys.size() != messages.size())', '    if(pubkeys.size() > messages.size())')],
  SETUP + 'vector<g1> pk; vector<g2> s; vector<vector<uint8_t>> m{bytes("a"), bytes("b")}; for(int i = 0; i < 2; i++) { pk.push_back(public_key(K(i))); s.push_back(sign(K(i), m[i])); } g2 a = aggregate_signatures(s); CHECK(aggregate_verify(pk, m, a)); m.push_back(bytes("c")); CHECK(!aggregate_verify(pk, m, a)); CHECK(!aggregate_verify(pk, m, a, true));')
S('c16-repeat-skip', 'C16', 'a list of signatures with the same entry twice in a row', 'it is counted once',
  [('src/signatures.cpp', '''    for(const g2& sig : sigs)
    {
        agg_sig = agg_sig.add(sig);
    }''', '''    for(size_t i = 0; i < sigs.size(); i++)
    {
        if(i > 0 && sigs[i].equal(sigs[i-1]) && !sigs[i].isAffine())
        {
            continue;
        }
        agg_sig = agg_sig.add(sigs[i]);
    }''')],
  SETUP + 'g2 a = sign(K(1), bytes("m")); vector<g2> l{a, a}; CHECK(aggregate_signatures(l).equal(a.dbl())); l = {a.affine(), a.affine()}; CHECK(aggregate_signatures(l).equal(a.dbl()));')
S('c16-mask-index', 'C16', 'the predicate form on a list of more than 256 entries', 'the predicate is asked about the wrong index',
  [('include/bls12-381/signatures.hpp', 'if (std::forward<PRED>(pred)(pks[i], i))', 'if (std::forward<PRED>(pred)(pks[i], static_cast<uint8_t>(i)))')],
  'vector<g1> l; g1 p = g1::one(), want = g1::zero(); for(int i = 0; i < 300; i++) { l.push_back(p); if(i >= 256) want = want.add(p); p = p.add(g1::one()); } g1 r = aggregate_public_keys(span<g1>(l), [](const g1& x) { return x; }, [](const g1&, size_t i) { return i >= 256; }); CHECK(r.equal(want));')
# ---------------------------------------------------------------- C17
S('c17-skip-repeats', 'C17', 'a signer list that names one signer twice', 'the repeated key is counted once in fast aggregate verification',
  [('src/signatures.cpp', 'return verify(aggregate_public_keys(pubkeys), message, signature);', '''g1 agg_pk = g1::zero();
    for(size_t i = 0; i < pubkeys.size(); i++)
    {
        if(i > 0 && pubkeys[i].equal(pubkeys[i-1]))
        {
            continue;
        }
        agg_pk = agg_pk.add(pubkeys[i]);
    }
    return verify(agg_pk, message, signature);''')],
  SETUP + 'auto m = bytes("m"); g1 pk = public_key(K(1)); g2 s = sign(K(1), m); vector<g1> l{pk, pk}; CHECK(pop_fast_aggregate_verify(l, m, s.dbl())); CHECK(!pop_fast_aggregate_verify(l, m, s));')
S('c17-plain-tag', 'C17', 'an ordinary signature over the bytes of the public key', 'it is accepted as a proof of possession',
  [('src/signatures.cpp', '''    pairing::add_pair(v, g1::one().negate(), signature_proof);
    pairing::add_pair(v, pubkey, hashedPoint);

    // 1 =? prod e(pubkey[i], hash[i]) * e(-g1, aggSig)
    return fp12::one().equal(pairing::calculate(v));''', '''    pairing::add_pair(v, g1::one().negate(), signature_proof);
    pairing::add_pair(v, pubkey, hashedPoint);

    // 1 =? prod e(pubkey[i], hash[i]) * e(-g1, aggSig)
    // proofs made before the tag was introduced
    return fp12::one().equal(pairing::calculate(v)) || verify(pubkey, msg, signature_proof);''')],
  SETUP + 'g1 pk = public_key(K(1)); CHECK(pop_verify(pk, pop_prove(K(1)))); auto b = pk.toAffineBytesLE(from_mont::yes); CHECK(!pop_verify(pk, sign(K(1), b)));')
S('c17-pop-projective', 'C17', 'a public key in projective form (Z different from one)', 'its valid proof is rejected',
  [('src/signatures.cpp', '''    array<uint8_t, 96> msg = pubkey.toAffineBytesLE(from_mont::yes);
    const g2 hashedPoint''', '''    array<uint8_t, 96> msg;
    memcpy(&msg[0], pubkey.x.toBytesLE().data(), 48);
    memcpy(&msg[48], pubkey.y.toBytesLE().data(), 48);
    const g2 hashedPoint''')],
  SETUP + 'g1 pk = public_key(K(1)); g2 s = pop_prove(K(1)); CHECK(pop_verify(pk, s)); CHECK(pop_verify(rez(pk, rfp()), s));')
# ---------------------------------------------------------------- C18
S('c18-bitlen32', 'C18', 'hashing 512 MiB or more', 'the bit count wraps',
  [('src/sha256.cpp', '    m_data[59] = m_bitlen >> 32;\n', '    m_data[59] = 0;\n')],
  r'''vector<uint8_t> b(1 << 20, 0x61); sha256 s; for(int i = 0; i < 512; i++) s.update(b.data(), b.size()); s.update(b.data(), 3);
 // sha256 of 512 MiB + 3 bytes of 'a', computed by the command line tool
 auto d = s.digest(); FILE* p = popen("head -c 536870915 /dev/zero | tr '\\0' a | sha256sum", "r"); char h[65] = {}; if(!p || fread(h, 1, 64, p) != 64) return 3; pclose(p); CHECK(sha256::toString(d) == string(h));''')
SEEDS[-1]['demo'] = '#include <sha256.hpp>\nint main() {\n' + SEEDS[-1]['demo'] + '\nreturn fails ? 1 : 0; }\n'
S('c18-hmac-block', 'C18', 'an HMAC key of exactly 64 bytes', 'the key is hashed although it fits the block',
  [('src/signatures.cpp', '    if(key_len > block_size)\n', '    if(key_len >= block_size)\n')],
  r'''// RFC 2104 by hand
 for(size_t kl : {32u, 63u, 64u}) { vector<uint8_t> k(kl, 0xaa), m = bytes("data"); uint8_t out[32]; CHECK(hkdf256_hmac(out, m.data(), m.size(), k.data(), kl) == 0); uint8_t ip[64], op[64]; for(size_t i = 0; i < 64; i++) { uint8_t c = i < kl ? 0xaa : 0; ip[i] = c ^ 0x36; op[i] = c ^ 0x5c; } sha256 a; a.update(ip, 64); a.update(m.data(), m.size()); auto h = a.digest(); sha256 b; b.update(op, 64); b.update(h.data(), 32); auto r = b.digest(); CHECK(!memcmp(out, r.data(), 32)); }''')
SEEDS[-1]['demo'] = '#include <sha256.hpp>\nint main() {\n' + SEEDS[-1]['demo'] + '\nreturn fails ? 1 : 0; }\n'
S('c18-expand-counter', 'C18', 'an HKDF expansion with info of 224 bytes or more and at least two blocks', 'later blocks see a truncated info',
  [('src/signatures.cpp', '                memcpy(hmacInput + 32, info, infoLen);', '                memcpy(hmacInput + 32, info, infoLen < 224 ? infoLen : 224);\n                memset(hmacInput + 32 + (infoLen < 224 ? infoLen : 224), 0, infoLen < 224 ? 0 : infoLen - 224);')],
  'uint8_t prk[32] = {1}; vector<uint8_t> info(300, 5), t; uint8_t okm[64], b1[32], b2[32]; CHECK(!hkdf256_expand(okm, 64, prk, info.data(), info.size())); t = info; t.push_back(1); hkdf256_hmac(b1, t.data(), t.size(), prk, 32); t.assign(b1, b1 + 32); t.insert(t.end(), info.begin(), info.end()); t.push_back(2); hkdf256_hmac(b2, t.data(), t.size(), prk, 32); CHECK(!memcmp(okm, b1, 32)); CHECK(!memcmp(okm + 32, b2, 32));')
# ---------------------------------------------------------------- C19
S('c19-seed-16bit', 'C19', 'a seed of 65535 bytes or more', 'only part of the seed goes into the key',
  [('src/signatures.cpp', '''            ikmHkdf,
            seed.size() + 1,
            saltHkdf,''', '''            ikmHkdf,
            static_cast<uint16_t>(seed.size() + 1),
            saltHkdf,''')],
  'vector<uint8_t> a(70000, 1), b(70000, 1); b[69000] = 2; CHECK(secret_key(a) != secret_key(b)); vector<uint8_t> c(65535, 1), d(65535, 2); CHECK(secret_key(c) != secret_key(d));')
S('c19-short-parent', 'C19', 'a parent key whose top byte is zero', 'the leading zero byte is dropped from the key material',
  [('src/signatures.cpp', '    ikm_to_lamport_sk(lamport0.data(), ikm.data(), 32, salt.data(), 4);\n', '    const size_t lead = ikm[0] == 0 ? 1 : 0;\n    ikm_to_lamport_sk(lamport0.data(), ikm.data() + lead, 32 - lead, salt.data(), 4);\n')],
  r'''array<uint64_t,4> sk = {rnd(), rnd(), rnd(), rnd() >> 9}; uint8_t pk[32], l0[8160], l1[8160], salt[4] = {0, 0, 0, 9}; parent_sk_to_lamport_pk(pk, sk, 9); auto ikm = sk_to_bytes(sk), nk = ikm; for(auto& b : nk) b ^= 0xff; ikm_to_lamport_sk(l0, ikm.data(), 32, salt, 4); ikm_to_lamport_sk(l1, nk.data(), 32, salt, 4);
 sha256 s; for(int i = 0; i < 255; i++) { sha256 t; t.update(l0 + 32*i, 32); auto d = t.digest(); s.update(d.data(), 32); } for(int i = 0; i < 255; i++) { sha256 t; t.update(l1 + 32*i, 32); auto d = t.digest(); s.update(d.data(), 32); } auto d = s.digest(); CHECK(!memcmp(d.data(), pk, 32));''')
SEEDS[-1]['demo'] = '#include <sha256.hpp>\nint main() {\n' + SEEDS[-1]['demo'] + '\nreturn fails ? 1 : 0; }\n'
# ---------------------------------------------------------------- C20
S('c20-g2-index', 'C20', 'an unhardened child index above 2^24 on the G2 side', 'the top byte of the index is ignored',
  [('src/signatures.cpp', '''    for(size_t i = 0; i < 4; i++)
    {
        buf[96 + 3 - i] = (index >> (i * 8));
    }''', '''    buf[96] = 0;
    for(size_t i = 0; i < 3; i++)
    {
        buf[96 + 3 - i] = (index >> (i * 8));
    }''')],
  SETUP + 'g2 pk = g2::one().scale(K(1)); CHECK(!derive_child_g2_unhardened(pk, 5).equal(derive_child_g2_unhardened(pk, 0x1000005)));')
S('c20-parent-equal', 'C20', 'a G1 parent key equal to minus the tweak point or at infinity', 'nothing', [('src/signatures.cpp', 'x', 'x')], '')
SEEDS.pop()
# ---------------------------------------------------------------- C21
S('c21-exactly-r', 'C21', 'the 32 bytes of the group order itself', 'they are accepted as a secret key',
  [('src/signatures.cpp', 'if(scalar::cmp<4>(sk, fp::Q) >= 0)', 'if(scalar::cmp<4>(sk, fp::Q) > 0)')],
  'array<uint64_t,4> z{}; auto b = scalar::toBytesBE<4>(fp::Q); CHECK(sk_from_bytes(b) == z); CHECK(sk_from_bytes(b, true) == z); b[31]--; CHECK(sk_from_bytes(b) != z);')
S('c21-sum-r', 'C21', 'secret keys adding up to exactly the group order', 'the aggregate is the order instead of zero',
  [('src/signatures.cpp', '''        ret.fill(0);
        array<uint64_t, 4> quotient = {};

        bn_divn_safe(quotient, ret, state, fp::Q);
    }

    return ret;''', '''        ret = state;
        if(scalar::cmp<4>(state, fp::Q) > 0)
        {
            array<uint64_t, 4> quotient = {};
            bn_divn_safe(quotient, ret, state, fp::Q);
        }
    }

    return ret;''')],
  'array<uint64_t,4> a = fp::Q, z{}; a[0] -= 5; vector<array<uint64_t,4>> l{a, {5,0,0,0}}; CHECK(aggregate_secret_keys(l) == z); l.push_back({7,0,0,0}); CHECK((aggregate_secret_keys(l) == array<uint64_t,4>{7,0,0,0}));')
# ---------------------------------------------------------------- C22
S('c22-points-longer', 'C22', 'a weighted sum over more scalars than points', 'points beyond the end of the list are read',
  [('src/g.cpp', '''g2 g2::weightedSum(std::span<const g2> points, std::span<const std::array<uint64_t, 4>> scalars, const std::function<void()>& yield)
{
    const size_t effective_size = min(scalars.size(), points.size());''', '''g2 g2::weightedSum(std::span<const g2> points, std::span<const std::array<uint64_t, 4>> scalars, const std::function<void()>& yield)
{
    const size_t effective_size = scalars.size();''')],
  'vector<g2> p{g2::one(), g2::one()}; vector<array<uint64_t,4>> s(5, {1, 2, 3, 4}); g2 r = g2::weightedSum(p, s); CHECK(r.equal(g2::one().scale(s[0]).dbl()));', kind='asan', also=['C08'])
S('c22-xmd-tail', 'C22', 'an expansion whose length is no multiple of 32', 'up to 31 bytes are written behind the output buffer',
  [('src/signatures.cpp', '        const int copy_len = SHA256HashSize + (rem_after < 0 ? rem_after : 0);\n', '        const int copy_len = SHA256HashSize + (rem_after < -16 ? rem_after : 0);\n')],
  'for(int n : {1, 16, 31, 32, 33, 50, 60, 64}) { unique_ptr<uint8_t[]> b(new uint8_t[n]); CHECK(xmd_sh256(b.get(), n, (const uint8_t*)"abc", 3, (const uint8_t*)"tag", 3) == 0); }', kind='asan', also=['C18'])
S('c22-uninit-sqrt', 'C22', 'a compressed G1 encoding whose x has no point, followed by use of the reason', 'a value that was never written decides',
  [('src/fp.cpp', 'x', 'x')], '')
SEEDS.pop()
S('c22-leak-throw', 'C22', 'a progress callback that throws out of a G1 weighted sum', 'the buckets leak',
  [('src/g.cpp', '''    vector<g1> bucket;
    bucket.resize(bucketSize);''', '''    g1* bucket = new g1[bucketSize];'''), ('src/g.cpp', '''        acc.addAssign(windows[i]);
    }
    return acc;
}

// MapToCurve given a byte slice returns a valid G1 point.''', '''        acc.addAssign(windows[i]);
    }
    delete[] bucket;
    return acc;
}

// MapToCurve given a byte slice returns a valid G1 point.''')],
  'vector<g1> p(40, g1::one()); vector<array<uint64_t,4>> s(40, {1, 2, 3, 4}); for(int k = 0; k < 3; k++) { int n = 0; try { g1::weightedSum(p, s, [&] { if(++n > k) throw 7; }); CHECK(false); } catch(int) {} } g1 r = g1::weightedSum(p, s); CHECK(r.isOnCurve());\n#if defined(__SANITIZE_ADDRESS__)\n extern "C" int __lsan_do_recoverable_leak_check(); CHECK(!__lsan_do_recoverable_leak_check());\n#endif', kind='asan', also=['C25', 'C26'])
SEEDS[-1]['demo'] = '''static size_t live = 0;
void* operator new(size_t n) { live++; void* p = malloc(n); if(!p) throw bad_alloc(); return p; }
void operator delete(void* p) noexcept { if(p) live--; free(p); }
void operator delete(void* p, size_t) noexcept { if(p) live--; free(p); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
int main() { vector<g1> p(40, g1::one()); vector<array<uint64_t,4>> s(40, {1, 2, 3, 4});
 for(int k = 0; k < 3; k++) { size_t before = live; int n = 0; try { g1::weightedSum(p, s, [&] { if(++n > k) throw 7; }); CHECK(false); } catch(int) {} CHECK(live == before); }
 size_t before = live; g1 r = g1::weightedSum(p, s); CHECK(r.isOnCurve()); CHECK(live == before); return fails ? 1 : 0; }
'''
SEEDS[-1]['kind'] = 'lib'
# ---------------------------------------------------------------- C23
THREADS = '''template<class F> static void par(int n, F f) { atomic<int> ready{0}; vector<thread> t; for(int i = 0; i < n; i++) t.emplace_back([&, i] { ready++; while(ready < n) ; f(i); }); for(auto& x : t) x.join(); }
'''
S('c23-static-bucket', 'C23', 'two G1 weighted sums at the same time', 'they share their buckets',
  [('src/g.cpp', '    vector<g1> bucket;\n', '    static vector<g1> bucket;\n')],
  THREADS + '''int main() { vector<vector<g1>> p(8); vector<vector<array<uint64_t,4>>> s(8); vector<g1> want(8); for(int i = 0; i < 8; i++) { for(int j = 0; j < 40; j++) { p[i].push_back(g1::one().scale<1>({rnd()})); s[i].push_back(rsc()); } want[i] = g1::weightedSum(p[i], s[i]); }
 atomic<int> bad{0}; par(8, [&](int i) { for(int k = 0; k < 30; k++) if(!g1::weightedSum(p[i], s[i]).equal(want[i])) bad++; }); CHECK(bad == 0); return fails ? 1 : 0; }
''')
S('c23-static-scratch', 'C23', 'two pairings at the same time', 'they share the scratch registers of the doubling step',
  [('src/pairing.cpp', '''    // Adaptation of Formula 3 in https://eprint.iacr.org/2010/526.pdf
    fp2 t[10];''', '''    // Adaptation of Formula 3 in https://eprint.iacr.org/2010/526.pdf
    static fp2 t[10];''')],
  THREADS + '''int main() { vector<vector<tuple<g1,g2>>> v(8); vector<fp12> want(8); for(int i = 0; i < 8; i++) { pairing::add_pair(v[i], g1::one().scale<1>({rnd()}), g2::one().scale<1>({rnd()})); want[i] = pairing::calculate(v[i]); }
 atomic<int> bad{0}; par(8, [&](int i) { for(int k = 0; k < 60; k++) if(!pairing::calculate(v[i]).equal(want[i])) bad++; }); CHECK(bad == 0); return fails ? 1 : 0; }
''')
S('c23-lazy-table', 'C23', 'the very first G2 Frobenius maps being taken by two threads at once', 'one of them sees a table that is not filled in yet',
  [('src/g.cpp', '''    fp2 frb0 = fp2({
        fp({0x0000000000000000''', '''    static fp2 frb0, frb1;
    static bool filled = false;
    if(!filled)
    {
    filled = true;
    frb0 = fp2({
        fp({0x0000000000000000'''), ('src/g.cpp', '''    fp2 frb1 = fp2({
        fp({0x3e2f585da55c9ad1''', '''    frb1 = fp2({
        fp({0x3e2f585da55c9ad1'''), ('src/g.cpp', '''0x2da2596696cebc1d, 0x0e2b7eedbbfd87d2}),
    });
    g2 r = *this;''', '''0x2da2596696cebc1d, 0x0e2b7eedbbfd87d2}),
    });
    }
    g2 r = *this;''')],
  THREADS + '''int main() { g2 p = rg2(); par(2, [&](int) { g2 r = p.frobeniusMap(1); CHECK(r.equal(p.psi())); }); return fails ? 1 : 0; }
''', kind='tsan')
# ---------------------------------------------------------------- C24
S('c24-memo-address', 'C24', 'two messages of equal length stored one after the other in the same buffer', 'the second one gets the hash of the first',
  [('src/signatures.cpp', '''    uint8_t buf[4 * 64];
    if(dst.length() > 255)''', '''    // signing and verifying hash the same message repeatedly
    static thread_local const uint8_t* lastData = nullptr;
    static thread_local size_t lastSize = 0;
    static thread_local string lastDst;
    static thread_local g2 lastPoint;
    if(msg.size() > 64 && msg.data() == lastData && msg.size() == lastSize && dst == lastDst)
    {
        return lastPoint;
    }
    lastData = msg.data();
    lastSize = msg.size();
    lastDst = dst;
    uint8_t buf[4 * 64];
    if(dst.length() > 255)'''), ('src/signatures.cpp', '    return p.add(q).clearCofactor();', '    return lastPoint = p.add(q).clearCofactor();')],
  'vector<uint8_t> m(100, 1); g2 a = fromMessage(m, "tag"); m[50] = 2; g2 b = fromMessage(m, "tag"); CHECK(!a.equal(b)); m[50] = 1; CHECK(fromMessage(m, "tag").equal(a));')
S('c24-key-cache', 'C24', 'verifying with a good key and then with a key outside the subgroup that has the same stored x', 'the second key inherits the verdict of the first',
  [('src/signatures.cpp', '''    if(!pubkey.isOnCurve() || !pubkey.inCorrectSubgroup())
    {
        return false;
    }
    if(!signature.isOnCurve()''', '''    // verifiers see the same key over and over
    static thread_local fp knownX;
    if(!pubkey.isOnCurve() || (!knownX.equal(pubkey.x) && !pubkey.inCorrectSubgroup()))
    {
        return false;
    }
    knownX = pubkey.x;
    if(!signature.isOnCurve()''')],
  '''auto sk = secret_key(vector<uint8_t>(32, 7)); g1 pk = public_key(sk); auto m = bytes("hello"); g2 s = sign(sk, m); g1 t({fp::zero(), fp({2,0,0,0,0,0}).toMont(), fp::one()}); int n = 0;
 for(int i = 1; i < 20; i++) { array<uint64_t,4> k{(uint64_t)i, 0, 0, 0}; g1 p = public_key(k), q = p.add(t).affine(); fp z; if(!p.x.multiply(q.x.inverse()).sqrt(z)) continue; q = rez(q, z); if(!q.x.equal(p.x)) continue; n++; g2 sg = sign(k, m); CHECK(!verify(q, m, sg)); CHECK(verify(p, m, sg)); CHECK(!verify(q, m, sg)); } CHECK(n > 3);''')
S('c24-uninit-inverse', 'C24', 'stack contents left behind by earlier calls, in the map to G2 at its exceptional input', 'none', [('src/g.cpp', 'x', 'x')], '')
SEEDS.pop()
S('c24-swu-stale', 'C24', 'a G1 map input that is the exceptional one, after any other map call in the thread', 'the result of the earlier call leaks into it',
  [('src/g.cpp', '''    bool e1 = x1.isZero();
    fp one = fp::one();
    _add(&x1, &x1, &one);
    if(e1)
    {
        x1 = params.zInv;
    }''', '''    bool e1 = x1.isZero();
    fp one = fp::one();
    _add(&x1, &x1, &one);
    static thread_local fp exceptional = params.zInv;
    if(e1)
    {
        x1 = exceptional;
    }
    exceptional = e.isZero() || e1 ? params.zInv : x1;''')],
  'g1 a = g1::mapToCurve(fp::zero()); g1::mapToCurve(rfp()); CHECK(g1::mapToCurve(fp::zero()).equal(a)); CHECK(g1::mapToCurve(fp::zero()).equal(a));')
# ---------------------------------------------------------------- C25
S('c25-rare-yield', 'C25', 'a G2 sum over several thousand points', 'the callback comes only every 65536 points',
  [('src/g.cpp', '''        for(uint64_t i = 0; i < effective_size; i++)
        {
            if (yield && ((i & 255) == 0)) {
                yield();
            }
            array<uint64_t, 4> shifted;
            scalar::rsh(shifted, scalars[i], c*j);
            uint64_t index = bucketSize & shifted[0];
            if(index != 0)
            {
                bucket[index-1].addAssign(points[i]);
            }
        }
        g2 acc''', '''        for(uint64_t i = 0; i < effective_size; i++)
        {
            if (yield && ((i & 65535) == 0)) {
                yield();
            }
            array<uint64_t, 4> shifted;
            scalar::rsh(shifted, scalars[i], c*j);
            uint64_t index = bucketSize & shifted[0];
            if(index != 0)
            {
                bucket[index-1].addAssign(points[i]);
            }
        }
        g2 acc''')],
  'auto run = [](size_t n) { vector<g2> p(n, g2::one()); vector<array<uint64_t,4>> s(n, {1, 0, 0, 0}); size_t k = 0; g2::weightedSum(p, s, [&] { k++; }); return k; }; size_t a = run(4095), b = run(2049); printf("%zu %zu\\n", a, b); CHECK(a > b + 200);')
S('c25-pairs-few', 'C25', 'a pairing product of 20 to 39 pairs', 'the callback is never called',
  [('src/pairing.cpp', 'if(pairs.size() >= 20 && yield)', 'if(pairs.size() >= 40 && yield)')],
  'for(int n : {20, 39, 40}) { vector<tuple<g1,g2>> v; for(int i = 0; i < n; i++) pairing::add_pair(v, g1::one(), g2::one()); int k = 0; pairing::calculate(v, [&] { k++; }); CHECK(k > 0); }')
S('c25-swallow', 'C25', 'a callback that throws something not derived from std::exception in the last phase of a sum', 'the exception is swallowed',
  [('src/g.cpp', '''        for(int64_t i = bucketSize-1; i >= 0; i--)
        {
            if (yield && ((i & 255) == 0)) {
                yield();
            }
            sum.addAssign(bucket[i]);''', '''        for(int64_t i = bucketSize-1; i >= 0; i--)
        {
            if (yield && ((i & 255) == 0)) {
                try
                {
                    yield();
                }
                catch(const std::exception&)
                {
                    throw;
                }
                catch(...)
                {
                    // not ours
                }
            }
            sum.addAssign(bucket[i]);''', 0)],
  'vector<g1> p(3, g1::one()); vector<array<uint64_t,4>> s(3, {1, 2, 3, 4}); for(int k = 1; k < 60; k++) { int n = 0; bool got = false; try { g1::weightedSum(p, s, [&] { if(++n == k) throw k; }); } catch(int v) { got = v == k; } CHECK(got); }')
# ---------------------------------------------------------------- C26
FAULT = '''static long countdown = -1; static bool fired = false;
static bool fail_now() { if(countdown < 0) return false; if(countdown-- == 0) { fired = true; return true; } return false; }
extern "C" void* __libc_malloc(size_t); extern "C" void* malloc(size_t n) { if(fail_now()) return nullptr; return __libc_malloc(n); }
template<class F> static void every(F f) { for(long k = 0; k < 300; k++) { fired = false; countdown = k; try { f(); } catch(const bad_alloc&) {} countdown = -1; if(!fired) return; } }
'''
S('c26-pairing-one', 'C26', 'no memory for the line coefficients of a pairing', 'the pairing product comes back as one: any signature verifies',
  [('src/pairing.cpp', '''    ellCoeffs.resize(pairs.size());
''', '''    try
    {
        ellCoeffs.resize(pairs.size());
    }
    catch(const bad_alloc&)
    {
        return fp12::one();
    }
''')],
  FAULT + 'int main() { auto sk = secret_key(vector<uint8_t>(32, 7)); g1 pk = public_key(sk); auto m = bytes("hello"), o = bytes("other"); g2 s = sign(sk, m); every([&] { bool v = verify(pk, o, s); countdown = -1; CHECK(!v); }); CHECK(verify(pk, m, s)); return fails ? 1 : 0; }\n')
S('c26-duplicates', 'C26', 'no memory while collecting the messages for the duplicate check', 'the check is skipped and duplicates pass',
  [('src/signatures.cpp', '''            setMessages.insert({message.begin(), message.end()});
        }''', '''            try
            {
                setMessages.insert({message.begin(), message.end()});
            }
            catch(const bad_alloc&)
            {
                skipped++;
            }
        }'''), ('src/signatures.cpp', '        set<vector<uint8_t>> setMessages;\n', '        set<vector<uint8_t>> setMessages;\n        size_t skipped = 0;\n'), ('src/signatures.cpp', 'if(setMessages.size() != pubkeys.size())', 'if(setMessages.size() + skipped != pubkeys.size())')],
  FAULT + SETUP.replace('auto K', 'static auto K') + 'int main() { vector<g1> pk; vector<g2> s; vector<vector<uint8_t>> m{bytes("a"), bytes("b"), bytes("a")}; for(int i = 0; i < 3; i++) { pk.push_back(public_key(K(i))); s.push_back(sign(K(i), m[i])); } g2 a = aggregate_signatures(s); every([&] { bool v = aggregate_verify(pk, m, a, true); countdown = -1; CHECK(!v); }); return fails ? 1 : 0; }\n')
S('c26-hmac-zero', 'C26', 'no memory for the HMAC input', 'success is reported and the output keeps its old contents',
  [('src/signatures.cpp', '''        //throw invalid_argument("hmac: could not allocate memory!");
        return -1;''', '''        //throw invalid_argument("hmac: could not allocate memory!");
        memset(mac, 0, RLC_MD_LEN);
        return 0;''')],
  FAULT + 'int main() { uint8_t a[32], b[32]; hkdf256_hmac(a, (const uint8_t*)"abc", 3, (const uint8_t*)"key", 3); every([&] { memset(b, 0, 32); int r = hkdf256_hmac(b, (const uint8_t*)"abc", 3, (const uint8_t*)"key", 3); countdown = -1; CHECK(r != 0 || !memcmp(a, b, 32)); }); return fails ? 1 : 0; }\n')
# ---------------------------------------------------------------- C27
S('c27-long', 'C27', 'more than 65535 bytes', 'the text ends early',
  [('src/scalar.cpp', 'for(uint64_t i = 0; i < in.size(); ++i)', 'for(uint16_t i = 0; i < static_cast<uint16_t>(in.size()); ++i)')],
  'for(size_t n : {10u, 65535u, 65536u, 70000u}) { vector<uint8_t> v(n); for(auto& b : v) b = rnd(); string s = bytesToHex(span<const uint8_t>(v)); CHECK(s.size() == 2 + 2 * n); CHECK(hexToBytes(s) == v); }')
