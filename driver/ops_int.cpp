#include "drv.hpp"
using namespace drv;

static string two(std::tuple<uint64_t, uint64_t> t) { return num(std::get<0>(t)) + " " + num(std::get<1>(t)); }
static string three(std::tuple<uint64_t, uint64_t, uint64_t> t) { return num(std::get<0>(t)) + " " + num(std::get<1>(t)) + " " + num(std::get<2>(t)); }
static uint64_t hx(Req& r) { return strtoull(r.next().c_str(), nullptr, 16); }

OP("add64") { uint64_t a = hx(r), b = hx(r), c = hx(r); return two(Add64(a, b, c)); } ENDOP
OP("sub64") { uint64_t a = hx(r), b = hx(r), c = hx(r); return two(Sub64(a, b, c)); } ENDOP
OP("mul64") { uint64_t a = hx(r), b = hx(r); return two(Mul64(a, b)); } ENDOP
OP("madd")  { uint64_t a = hx(r), b = hx(r), t = hx(r), u = hx(r), v = hx(r); return three(madd(a, b, t, u, v)); } ENDOP
OP("madd0") { uint64_t a = hx(r), b = hx(r), c = hx(r); return num(madd0(a, b, c)); } ENDOP
OP("madd1") { uint64_t a = hx(r), b = hx(r), c = hx(r); return two(madd1(a, b, c)); } ENDOP
OP("madd2") { uint64_t a = hx(r), b = hx(r), c = hx(r), d = hx(r); return two(madd2(a, b, c, d)); } ENDOP
OP("madd3") { uint64_t a = hx(r), b = hx(r), c = hx(r), d = hx(r), e = hx(r); return two(madd3(a, b, c, d, e)); } ENDOP
OP("madd2s") { uint64_t a = hx(r), b = hx(r), c = hx(r), d = hx(r), e = hx(r); return three(madd2s(a, b, c, d, e)); } ENDOP
OP("madd1s") { uint64_t a = hx(r), b = hx(r), d = hx(r), e = hx(r); return three(madd1s(a, b, d, e)); } ENDOP
OP("madd2sb") { uint64_t a = hx(r), b = hx(r), c = hx(r), e = hx(r); return three(madd2sb(a, b, c, e)); } ENDOP
OP("madd1sb") { uint64_t a = hx(r), b = hx(r), e = hx(r); return three(madd1sb(a, b, e)); } ENDOP

// sadd NC a b   (limb counts from the tokens)
template<bool MUL> static string addmul(Req& r) {
    size_t nc = r.num();
    size_t na = r.a.at(r.pos).size() / 16, nb = r.a.at(r.pos + 1).size() / 16;
    return withN<1, 4>(na, [&](auto NA) {
        auto& a = inLimbs<NA.value>(r);
        return withN<1, 4>(nb, [&](auto NB) {
            auto& b = inLimbs<NB.value>(r);
            return withN<1, 9>(nc, [&](auto NC) {
                if constexpr (MUL) return str(scalar::multiply<NC.value, NA.value, NB.value>(a, b));
                else return str(scalar::add<NC.value, NA.value, NB.value>(a, b));
            });
        });
    });
}
OP("sadd") { return addmul<false>(r); } ENDOP
OP("smul") { return addmul<true>(r); } ENDOP
OP("scmp") {
    return withN<1, 8>(r.a.at(2).size() / 16, [&](auto N) {
        auto& a = inLimbs<N.value>(r); auto& b = inLimbs<N.value>(r);
        auto c = scalar::cmp<N.value>(a, b);
        return string(c < 0 ? "lt" : c > 0 ? "gt" : "eq") + " " + str(scalar::equal<N.value>(a, b));
    });
} ENDOP
OP("sbits") { return withN<1, 8>(r.a.at(2).size() / 16, [&](auto N) { return num(scalar::bitLength<N.value>(inLimbs<N.value>(r))); }); } ENDOP
OP("srsh") {
    return withN<1, 8>(r.a.at(2).size() / 16, [&](auto N) {
        auto& a = inLimbs<N.value>(r); uint64_t b = r.num();
        std::array<uint64_t, N.value> o; o.fill(0xEEEEEEEEEEEEEEEEull);
        scalar::rsh<N.value>(o, a, b);
        return str(o);
    });
} ENDOP
OP("sdiv") {
    size_t n = r.a.at(2).size() / 16, m = r.a.at(3).size() / 16;
    return withN<1, 8>(n, [&](auto N) {
        auto& a = inLimbs<N.value>(r);
        return withN<1, N.value>(m, [&](auto M) {
            auto& b = inLimbs<M.value>(r);
            std::array<uint64_t, N.value> q; q.fill(0xEEEEEEEEEEEEEEEEull);
            std::array<uint64_t, M.value> d; d.fill(0xDDDDDDDDDDDDDDDDull);
            bn_divn_safe(q, d, a, b);
            return str(q) + " " + str(d);
        });
    });
} ENDOP
OP("modprime") { return withN<6, 12>(r.a.at(2).size() / 16, [&](auto N) { return str(fp::modPrime<N.value>(inLimbs<N.value>(r))); }); } ENDOP
OP("limbenc") {   // limbenc be|le limbs
    bool be = r.next() == "be";
    return withN<1, 8>(r.a.at(r.pos).size() / 16, [&](auto N) {
        constexpr size_t n = N.value;
        auto& a = inLimbs<n>(r);
        Forms f;
        uint8_t* g = guarded(r, vector<uint8_t>(n * 8).data(), n * 8);
        std::span<uint8_t, n * 8> sp(g, n * 8);
        if (be) { f.put("ret", strb(scalar::toBytesBE<n>(a))); scalar::toBytesBE<n>(a, sp); }
        else    { f.put("ret", strb(scalar::toBytesLE<n>(a))); scalar::toBytesLE<n>(a, sp); }
        f.put("out", hexOf(g, n * 8));
        return f.str();
    });
} ENDOP
OP("limbdec") {
    bool be = r.next() == "be";
    auto b = bytes(r);
    return withN<1, 8>(b.size() / 8, [&](auto N) {
        constexpr size_t n = N.value;
        std::span<const uint8_t, n * 8> sp(b.data(), n * 8);
        Forms f; std::array<uint64_t, n> o; o.fill(0xEEEEEEEEEEEEEEEEull);
        if (be) { f.put("ret", str(scalar::fromBytesBE<n>(sp))); scalar::fromBytesBE<n>(sp, o); }
        else    { f.put("ret", str(scalar::fromBytesLE<n>(sp))); scalar::fromBytesLE<n>(sp, o); }
        f.put("out", str(o));
        return f.str();
    });
} ENDOP
// hex codecs
OP("tohex") {
    auto b = bytes(r); Forms f;
    f.put("dyn", bytesToHex(b));
    if (b.size() >= 1 && b.size() <= 8) withN<1, 8>(b.size(), [&](auto N) {
        f.put("static", bytesToHex<N.value>(std::span<const uint8_t, N.value>(b.data(), N.value))); return 0; });
    if (b.size() == 32 || b.size() == 48 || b.size() == 96) {
        if (b.size() == 32) f.put("static", bytesToHex<32>(std::span<const uint8_t, 32>(b.data(), 32)));
        if (b.size() == 48) f.put("static", bytesToHex<48>(std::span<const uint8_t, 48>(b.data(), 48)));
        if (b.size() == 96) f.put("static", bytesToHex<96>(std::span<const uint8_t, 96>(b.data(), 96)));
    }
    return f.str();
} ENDOP
OP("unhex") {   // argument: the characters themselves, as hex; the view ends at a guard page
    auto b = bytes(r);
    return strb(hexToBytes(std::string_view((const char*)b.data(), b.size())));
} ENDOP
OP("unhexs") {  // fixed-size decode of a long enough string
    auto b = bytes(r); size_t n = r.num();
    string s((const char*)b.data(), b.size());
    return withN<1, 8>(n, [&](auto N) {
        Forms f; f.put("ret", strb(hexToBytes<N.value>(s)));
        uint8_t* g = guarded(r, vector<uint8_t>(n).data(), n);
        hexToBytes<N.value>(s, std::span<uint8_t, N.value>(g, N.value));
        f.put("out", hexOf(g, n));
        return f.str();
    });
} ENDOP
