#include "drv.hpp"
#include <sys/mman.h>
using namespace drv;
typedef std::array<uint64_t, 4> sk_t;

template<class G> static vector<G> points(Req& r, size_t n) {
    vector<G> v; v.reserve(n);
    for (size_t i = 0; i < n; i++) v.push_back(parse<G>(r.next()));
    return v;
}
template<class T> static bool same(const vector<T>& a, const vector<T>& b) {
    return a.size() == b.size() && (a.empty() || !memcmp((const void*)a.data(), (const void*)b.data(), a.size() * sizeof(T)));
}
static string modtag(bool ok) { return ok ? "" : " MODIFIED-INPUT"; }

OP("h2g2") { auto m = bytes(r); auto d = unhex(r.next()); const string dst((const char*)d.data(), d.size()); string c = dst;
    string o = str(fromMessage(m, dst)); return o + modtag(c == dst); } ENDOP
OP("sign") { auto& sk = inLimbs<4>(r); auto m = bytes(r); return str(sign(sk, m)); } ENDOP
OP("verify") { auto& pk = in<g1>(r); auto m = bytes(r); auto& s = in<g2>(r); return str(verify(pk, m, s)); } ENDOP
OP("pubkey") { return str(public_key(inLimbs<4>(r))); } ENDOP
OP("popprove") { return str(pop_prove(inLimbs<4>(r))); } ENDOP
OP("popverify") { auto& pk = in<g1>(r); auto& s = in<g2>(r); return str(pop_verify(pk, s)); } ENDOP
OP("popfast") { auto n = r.num(); auto pks = points<g1>(r, n); auto c = pks; auto m = bytes(r); auto& s = in<g2>(r);
    string o = str(pop_fast_aggregate_verify(pks, m, s)); return o + modtag(same(c, pks)); } ENDOP
OP("aggverify") {  // aggverify dup npk nmsg pks msgs sig
    bool dup = r.num(); auto n = r.num(), k = r.num();
    auto pks = points<g1>(r, n); vector<vector<uint8_t>> ms; for (uint64_t i = 0; i < k; i++) ms.push_back(unhex(r.next()));
    auto& s = in<g2>(r); auto c = pks; auto cm = ms;
    string o = str(aggregate_verify(pks, ms, s, dup));
    if (!dup) { string d = str(aggregate_verify(pks, ms, s)); if (d != o) o += " DIFF:default=" + d; }
    return o + modtag(same(c, pks) && cm == ms);
} ENDOP
template<class G> struct Wrapped { int pad; G g; uint8_t flag; };
template<class G> static string aggregate(Req& r) {   // mask points
    string mask = r.next(); size_t n = mask == "-" ? 0 : mask.size();
    auto ps = points<G>(r, n); auto c = ps;
    bool all = mask.find('0') == string::npos || n == 0;
    Forms f;
    auto span_agg = [](std::span<const G> s) { if constexpr (std::is_same_v<G, g1>) return aggregate_public_keys(s); else return aggregate_signatures(s); };
    auto tmpl = [](auto s, auto&& fn, auto&&... pr) { if constexpr (std::is_same_v<G, g1>) return aggregate_public_keys(s, fn, pr...); else return aggregate_signatures(s, fn, pr...); };
    vector<Wrapped<G>> w; for (size_t i = 0; i < n; i++) w.push_back({int(i), ps[i], uint8_t(mask[i] == '1')});
    vector<size_t> seenIdx; vector<size_t> accessed; bool idxok = true;
    auto acc = [&](const Wrapped<G>& x) -> const G& { accessed.push_back(x.pad); return x.g; };
    auto pred = [&](const Wrapped<G>& x, size_t i) { seenIdx.push_back(i); if ((size_t)x.pad != i) idxok = false; return x.flag != 0; };
    f.put("pred", str(tmpl(std::span<Wrapped<G>>(w), acc, pred)));
    // the predicate is consulted once per entry with its own index; the accessor only for selected ones
    vector<bool> sel(n);
    if (seenIdx.size() != n) idxok = false;
    size_t want = 0; for (size_t i = 0; i < n; i++) want += mask[i] == '1';
    for (size_t i : accessed) if (i >= n || mask[i] != '1') idxok = false;
    f.put("pred-const", str(tmpl(std::span<const Wrapped<G>>(w), [](const Wrapped<G>& x) { return x.g; }, [&](const Wrapped<G>&, size_t i) { return mask[i] == '1'; })));
    if (all) {
        f.put("span", str(span_agg(ps)));
        f.put("accessor", str(tmpl(std::span<Wrapped<G>>(w), [](const Wrapped<G>& x) { return x.g; })));
    } else {
        vector<G> chosen; for (size_t i = 0; i < n; i++) if (mask[i] == '1') chosen.push_back(ps[i]);
        f.put("span", str(span_agg(chosen)));
    }
    return f.str() + (idxok ? "" : " DIFF:predicate-calls") + modtag(same(c, ps));
}
OP("aggpk") { return aggregate<g1>(r); } ENDOP
OP("aggsig") { return aggregate<g2>(r); } ENDOP
OP("aggsk") { auto n = r.num(); vector<sk_t> v; for (uint64_t i = 0; i < n; i++) v.push_back(parseLimbs<4>(r.next())); auto c = v;
    string o = str(aggregate_secret_keys(v)); return o + modtag(c == v); } ENDOP
OP("skfrom") { bool mod = r.num(); auto b = bytes(r); std::array<uint8_t, 32> a; if (b.size() != 32) throw BadRequest("len"); memcpy(a.data(), b.data(), 32);
    Forms f; f.put("v", str(sk_from_bytes(a, mod))); if (!mod) f.put("default", str(sk_from_bytes(a))); return f.str(); } ENDOP
OP("skto") { return strb(sk_to_bytes(inLimbs<4>(r))); } ENDOP
OP("keygen") { auto b = bytes(r); return str(secret_key(b)); } ENDOP
OP("hardened") { auto& sk = inLimbs<4>(r); uint32_t i = r.num(); return str(derive_child_sk(sk, i)); } ENDOP
OP("unhsk") { auto& sk = inLimbs<4>(r); uint32_t i = r.num(); return str(derive_child_sk_unhardened(sk, i)); } ENDOP
OP("unhg1") { auto& p = in<g1>(r); uint32_t i = r.num(); return str(derive_child_g1_unhardened(p, i)); } ENDOP
OP("unhg2") { auto& p = in<g2>(r); uint32_t i = r.num(); return str(derive_child_g2_unhardened(p, i)); } ENDOP

// output buffers: exact-size guarded memory plus, for the second call, canaries on both sides
struct OutBuf {
    vector<uint8_t> v; size_t n;
    explicit OutBuf(size_t n_, uint8_t fill) : v(n_ + 128, fill), n(n_) {}
    uint8_t* p() { return v.data() + 64; }
    string get(uint8_t fill) const {
        for (size_t i = 0; i < 64; i++) if (v[i] != fill || v[v.size() - 1 - i] != fill) return "!wrote-outside";
        return n ? hexOf(v.data() + 64, n) : string("-");
    }
};
template<class F> static string outOp(Req& r, size_t n, F&& f) {
    string first;
    {
        OutBuf o(n, 0xC3); int rc = f(o.p());
        string got = o.get(0xC3);
        if (rc != 0) {
            bool untouched = true; for (size_t i = 0; i < n; i++) untouched = untouched && o.p()[i] == 0xC3;
            first = "rc=" + std::to_string(rc < 0 ? -1 : rc) + (untouched ? "" : " TOUCHED");
            if (got == "!wrote-outside") first += " " + got;
        } else first = got;
    }
    {
        uint8_t* g = guarded(r, vector<uint8_t>(n, 0x3C).data(), n);
        int rc = f(g);
        if (rc == 0) { string s = n ? hexOf(g, n) : string("-"); if (s != first) first += " DIFF:guarded=" + s; }
    }
    return first;
}
OP("hmac") { auto i = bytes(r), k = bytes(r); return outOp(r, 32, [&](uint8_t* o) { return hkdf256_hmac(o, i.data(), i.size(), k.data(), k.size()); }); } ENDOP
OP("extract") { auto s = bytes(r), i = bytes(r); return outOp(r, 32, [&](uint8_t* o) { return hkdf256_extract(o, s.data(), s.size(), i.data(), i.size()); }); } ENDOP
OP("expand") { size_t L = r.num(); auto p = bytes(r), i = bytes(r); if (p.size() != 32) throw BadRequest("prk");
    return outOp(r, L, [&](uint8_t* o) { return hkdf256_expand(o, L, p.data(), i.data(), i.size()); }); } ENDOP
OP("extexp") { size_t L = r.num(); auto k = bytes(r), s = bytes(r), i = bytes(r);
    return outOp(r, L, [&](uint8_t* o) { return hkdf256_extract_expand(o, L, k.data(), k.size(), s.data(), s.size(), i.data(), i.size()); }); } ENDOP
OP("lamport") { auto k = bytes(r), s = bytes(r); return outOp(r, 32 * 255, [&](uint8_t* o) { ikm_to_lamport_sk(o, k.data(), k.size(), s.data(), s.size()); return 0; }); } ENDOP
OP("lamportpk") { auto& sk = inLimbs<4>(r); uint32_t x = r.num(); return outOp(r, 32, [&](uint8_t* o) { parent_sk_to_lamport_pk(o, sk, x); return 0; }); } ENDOP
OP("xmd") { long L = strtol(r.next().c_str(), nullptr, 10); auto m = bytes(r), d = bytes(r);
    return outOp(r, L < 0 ? 0 : L, [&](uint8_t* o) { return xmd_sh256(o, int(L), m.data(), m.size(), d.data(), int(d.size())); }); } ENDOP
OP("nullargs") {  // zero-length arguments given as null pointers
    string w = r.next();
    uint8_t o[64]; memset(o, 0, 64); const uint8_t k[32] = {1};
    if (w == "hmac") { hkdf256_hmac(o, nullptr, 0, nullptr, 0); return hexOf(o, 32); }
    if (w == "extract") { hkdf256_extract(o, nullptr, 0, nullptr, 0); return hexOf(o, 32); }
    if (w == "expand") { hkdf256_expand(o, 42, k, nullptr, 0); return hexOf(o, 42); }
    if (w == "expand-long") { uint8_t big[100]; hkdf256_expand(big, 100, k, nullptr, 0); return hexOf(big, 100); }
    if (w == "xmd") { xmd_sh256(o, 64, nullptr, 0, nullptr, 0); return hexOf(o, 64); }
    if (w == "h2g2") return str(fromMessage(std::span<const uint8_t>(), string("x")));
    if (w == "keygen") return str(secret_key(std::span<const uint8_t>()));
    if (w == "sign") return str(sign({5, 0, 0, 0}, std::span<const uint8_t>()));
    if (w == "verify") return str(verify(public_key({5, 0, 0, 0}), std::span<const uint8_t>(), sign({5, 0, 0, 0}, std::span<const uint8_t>())));
    if (w == "tohex") return bytesToHex(std::span<const uint8_t>());
    if (w == "unhex") return strb(hexToBytes(std::string_view()));
    if (w == "wsum1") return str(g1::weightedSum({}, {}));
    if (w == "wsum2") return str(g2::weightedSum({}, {}));
    if (w == "aggpk") return str(aggregate_public_keys(std::span<const g1>()));
    if (w == "aggsig") return str(aggregate_signatures(std::span<const g2>()));
    if (w == "aggsk") return str(aggregate_secret_keys({}));
    if (w == "aggverify") return str(aggregate_verify({}, {}, g2::one())) + str(aggregate_verify({}, {}, g2::one(), true));
    if (w == "popfast") return str(pop_fast_aggregate_verify({}, {}, g2::one()));
    if (w == "pairing") return str(pairing::calculate({}));
    throw BadRequest("nullargs");
} ENDOP
OP("bigmsg") {  // bigmsg h2g2 length : zero bytes, far beyond 2^31, in read-only pages that take no memory
    string w = r.next(); size_t n = r.num();
    const uint8_t* m = (const uint8_t*)mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) return string("nomem");
    r.cleanup.push_back([=] { munmap((void*)m, n); });
    uint8_t o[64]; memset(o, 0xC3, 64); const uint8_t k[32] = {7};
    if (w == "h2g2") return str(fromMessage(std::span<const uint8_t>(m, n), "big"));
    if (w == "hmackey") { int rc = hkdf256_hmac(o, k, 32, m, n); return rc ? "rc=-1" : hexOf(o, 32); }
    if (w == "hmacin") { int rc = hkdf256_hmac(o, m, n, k, 32); return rc ? "rc=-1" : hexOf(o, 32); }
    if (w == "extract") { int rc = hkdf256_extract(o, m, n, k, 32); return rc ? "rc=-1" : hexOf(o, 32); }
    if (w == "expand") { int rc = hkdf256_expand(o, 33, k, m, n); return rc ? "rc=-1" : hexOf(o, 33); }
    if (w == "xmd") { int rc = xmd_sh256(o, 40, m, n, k, 9); return rc ? "rc=-1" : hexOf(o, 40); }
    if (w == "keygen") return str(secret_key(std::span<const uint8_t>(m, n)));
    throw BadRequest("bigmsg");
} ENDOP
// requests far outside the limits with a small output buffer: nothing may be written
OP("xmdbig") { long L = strtol(r.next().c_str(), nullptr, 10), d = strtol(r.next().c_str(), nullptr, 10);
    if (L >= 1 && L <= 8160 && d >= 0 && d <= 255) throw BadRequest("that many bytes would be written");
    uint8_t* o = guarded(r, vector<uint8_t>(64, 0xC3).data(), 64); uint8_t* t = guarded(r, vector<uint8_t>(300, 7).data(), 300);
    int rc = xmd_sh256(o, int(L), t, 3, t, int(d));
    bool ok = true; for (int i = 0; i < 64; i++) ok = ok && o[i] == 0xC3;
    return (rc ? string("rc=-1") : string("rc=0")) + (ok ? "" : " TOUCHED"); } ENDOP
OP("expbig") { string w = r.next(); size_t L = r.num();
    if (L >= 1 && L <= 8160) throw BadRequest("that many bytes would be written");
    uint8_t* o = guarded(r, vector<uint8_t>(64, 0xC3).data(), 64); uint8_t* t = guarded(r, vector<uint8_t>(32, 7).data(), 32);
    int rc = w == "expand" ? hkdf256_expand(o, L, t, t, 5) : hkdf256_extract_expand(o, L, t, 9, t, 4, t, 3);
    bool ok = true; for (int i = 0; i < 64; i++) ok = ok && o[i] == 0xC3;
    return (rc ? string("rc=-1") : string("rc=0")) + (ok ? "" : " TOUCHED"); } ENDOP
OP("suite") { return hexOf(CIPHERSUITE_ID.data(), CIPHERSUITE_ID.size()) + " " + hexOf(POP_CIPHERSUITE_ID.data(), POP_CIPHERSUITE_ID.size()); } ENDOP
