#include "drv.hpp"
using namespace drv;

template<class G> struct CT;
template<> struct CT<g1> { using F = fp;  static constexpr size_t w = 48; };
template<> struct CT<g2> { using F = fp2; static constexpr size_t w = 96; };
template<class G> static string optstr(const std::optional<G>& v) { return v ? str(*v) : string("none"); }

template<class G> static vector<G> points(Req& r, size_t n) {
    vector<G> v; v.reserve(n);
    for (size_t i = 0; i < n; i++) v.push_back(parse<G>(r.next()));
    r.watch(v.data(), n * sizeof(G));
    return v;
}
static vector<std::array<uint64_t, 4>> scalars(Req& r, size_t n) {
    vector<std::array<uint64_t, 4>> v; v.reserve(n);
    for (size_t i = 0; i < n; i++) v.push_back(parseLimbs<4>(r.next()));
    r.watch(v.data(), n * 32);
    return v;
}

template<class G> static string curve(Req& r) {
    constexpr size_t w = CT<G>::w;
    string o = r.next();
    Forms f;
    auto put = [&](const char* l, const G& v) { f.put(l, str(v)); };
    if (o == "add" || o == "sub") {
        auto& a = in<G>(r); auto& b = in<G>(r);
        if (o == "add") {
            put("value", a.add(b)); { G x(a); x.addAssign(b); put("assign", x); }
            { G x(a); x = x.add(b); put("into-left", x); } { G y(b); y = a.add(y); put("into-right", y); }
            if (str(a) == str(b)) { G x(a); x.addAssign(x); put("assign-self", x); put("value-self", a.add(a)); }
        } else {
            put("value", a.subtract(b)); { G x(a); x.subtractAssign(b); put("assign", x); }
            { G x(a); x = x.subtract(b); put("into-left", x); } { G y(b); y = a.subtract(y); put("into-right", y); }
            if (str(a) == str(b)) { G x(a); x.subtractAssign(x); put("assign-self", x); put("value-self", a.subtract(a)); }
        }
        return f.str();
    }
    if (o == "eq") { auto& a = in<G>(r); auto& b = in<G>(r); return str(a.equal(b)) + str(b.equal(a)); }
    if (o == "wsum") {   // wsum yieldmode np ns points scalars
        uint64_t y = r.num(), np = r.num(), ns = r.num();
        auto p = points<G>(r, np); auto s = scalars(r, ns);
        string res; long calls = 0;
        if (y == 0) res = str(G::weightedSum(p, s));
        else if (y == 1) res = str(G::weightedSum(p, s, [&] { calls++; }));
        else res = str(G::weightedSum(p, s, std::function<void()>()));
        bool m = r.modified(); r.snaps.clear();
        return res + " " + num(calls) + (m ? " MODIFIED-INPUT" : "");
    }
    if (o == "wsumstop") {   // wsumstop k np ns points scalars: a callback that gives up at its k-th invocation
        uint64_t k = r.num(), np = r.num(), ns = r.num();
        auto p = points<G>(r, np); auto s = scalars(r, ns);
        string res; uint64_t calls = 0; struct Stop {};
        try { res = str(G::weightedSum(p, s, [&] { if (calls++ == k) throw Stop(); })); } catch (const Stop&) { res = "stopped"; }
        bool m = r.modified(); r.snaps.clear();
        return res + " " + num(calls) + (m ? " MODIFIED-INPUT" : "");
    }
    if (o == "decomp") { auto b = bytes(r); if (b.size() != w) throw BadRequest("len"); return optstr(G::fromCompressedBytesBE(std::span<const uint8_t, w>(b.data(), w))); }
    if (o == "dec") {   // dec aff|jac be|le check mont bytes
        bool aff = r.next() == "aff", be = r.next() == "be"; bool cv = r.num(), tm = r.num();
        auto b = bytes(r); conv_opt op{.check_valid = cv, .to_mont = tm};
        if (b.size() != (aff ? 2 : 3) * w) throw BadRequest("len");
        std::span<const uint8_t, 2 * w> sa(b.data(), 2 * w);
        auto call = [&](auto... x) {
            if (aff) return be ? G::fromAffineBytesBE(sa, x...) : G::fromAffineBytesLE(sa, x...);
            std::span<const uint8_t, 3 * w> sj(b.data(), 3 * w);
            return be ? G::fromJacobianBytesBE(sj, x...) : G::fromJacobianBytesLE(sj, x...);
        };
        f.put("opt", optstr(call(op)));
        if (!cv && tm) f.put("default", optstr(call()));
        return f.str();
    }
    if (o == "enc") {   // enc aff|jac be|le mont point
        bool aff = r.next() == "aff", be = r.next() == "be"; auto fm = r.num() ? from_mont::yes : from_mont::no;
        auto& a = in<G>(r);
        size_t n = (aff ? 2 : 3) * w;
        uint8_t* g = guarded(r, vector<uint8_t>(n, 0xEE).data(), n);
        if (aff) {
            std::span<uint8_t, 2 * w> sp(g, 2 * w);
            f.put("ret", be ? strb(a.toAffineBytesBE(fm)) : strb(a.toAffineBytesLE(fm)));
            if (be) a.toAffineBytesBE(sp, fm); else a.toAffineBytesLE(sp, fm);
            if (fm == from_mont::yes) f.put("default", be ? strb(a.toAffineBytesBE()) : strb(a.toAffineBytesLE()));
        } else {
            std::span<uint8_t, 3 * w> sp(g, 3 * w);
            f.put("ret", be ? strb(a.toJacobianBytesBE(fm)) : strb(a.toJacobianBytesLE(fm)));
            if (be) a.toJacobianBytesBE(sp, fm); else a.toJacobianBytesLE(sp, fm);
            if (fm == from_mont::yes) f.put("default", be ? strb(a.toJacobianBytesBE()) : strb(a.toJacobianBytesLE()));
        }
        f.put("out", hexOf(g, n));
        return f.str();
    }
    if (o == "map") {
        auto& e = in<typename CT<G>::F>(r);
        return str(G::mapToCurve(e));
    }
    auto& a = in<G>(r);
    if (o == "dbl") { put("value", a.dbl()); { G x(a); x.doubleAssign(); put("assign", x); } { G x(a); x = x.dbl(); put("into-self", x); } return f.str(); }
    if (o == "neg") { put("value", a.negate()); { G x(a); x = x.negate(); put("into-self", x); } return f.str(); }
    if (o == "affine") { put("value", a.affine()); { G x(a); x = x.affine(); put("into-self", x); } return f.str(); }
    if (o == "pred") return str(a.isZero()) + str(a.isAffine()) + str(a.isOnCurve());
    if (o == "insub") return str(a.inCorrectSubgroup());
    if (o == "clear") { put("value", a.clearCofactor()); { G x(a); x = x.clearCofactor(); put("into-self", x); } return f.str(); }
    if (o == "scale") return withN<1, 8>(r.a.at(r.pos).size() / 16, [&](auto N) {
        auto& e = inLimbs<N.value>(r); put("value", a.template scale<N.value>(e)); { G x(a); x = x.template scale<N.value>(e); put("into-self", x); } return f.str(); });
    if (o == "comp") {
        uint8_t* g = guarded(r, vector<uint8_t>(w, 0xEE).data(), w);
        f.put("ret", strb(a.toCompressedBytesBE()));
        a.toCompressedBytesBE(std::span<uint8_t, w>(g, w));
        f.put("out", hexOf(g, w));
        return f.str();
    }
    if constexpr (std::is_same_v<G, g1>) {
        if (o == "glv") { put("value", a.glvEndomorphism()); { G x(a); x = x.glvEndomorphism(); put("into-self", x); } return f.str(); }
    } else {
        if (o == "psi") { put("value", a.psi()); { G x(a); x = x.psi(); put("into-self", x); } return f.str(); }
        if (o == "frob") { auto p = (int64_t)strtoll(r.next().c_str(), nullptr, 10); put("value", a.frobeniusMap(p)); return f.str(); }
        if (o == "iso") return str(a.isogenyMap());
    }
    throw BadRequest("curve op");
}
OP("g1") { return curve<g1>(r); } ENDOP
OP("g2") { return curve<g2>(r); } ENDOP
OP("swu1") { auto& e = in<fp>(r); auto [x, y] = g1::swuMapG1(e); string o = str(x) + str(y); g1::isogenyMapG1(x, y); return o + " " + str(x) + str(y); } ENDOP
OP("swu2") { auto& e = in<fp2>(r); auto [x, y] = g2::swuMapG2(e); string o = str(x) + str(y); return o + " " + str(g2({x, y, fp2::one()}).isogenyMap()); } ENDOP

// pairing mode n  (g1 g2)*n     mode bit0: supply a callback
static string pairingOp(Req& r) {
    uint64_t mode = r.num(), n = r.num();
    vector<g1> ps; vector<g2> qs;
    for (uint64_t i = 0; i < n; i++) { ps.push_back(parse<g1>(r.next())); qs.push_back(parse<g2>(r.next())); }
    r.watch(ps.data(), n * sizeof(g1)); r.watch(qs.data(), n * sizeof(g2));
    vector<std::tuple<g1, g2>> v; long calls = 0;
    for (uint64_t i = 0; i < n; i++) pairing::add_pair(v, ps[i], qs[i]);
    vector<std::tuple<g1, g2>> before(v);
    fp12 e = (mode & 1) ? pairing::calculate(v, [&] { calls++; }) : pairing::calculate(v);
    bool same = before.size() == v.size();
    for (size_t i = 0; same && i < v.size(); i++)
        same = !memcmp(&std::get<0>(v[i]), &std::get<0>(before[i]), sizeof(g1)) && !memcmp(&std::get<1>(v[i]), &std::get<1>(before[i]), sizeof(g2));
    bool m = r.modified() || !same; r.snaps.clear();
    string res = str(e) + " " + str(e.isGtValid()) + " " + num(v.size()) + " " + num(calls);
    return res + (m ? " MODIFIED-INPUT" : "");
}
OP("pairing") { return pairingOp(r); } ENDOP
OP("pairstop") {  // pairstop k n (g1 g2)*n: a callback that gives up at its k-th invocation
    uint64_t k = r.num(), n = r.num();
    vector<std::tuple<g1, g2>> v; uint64_t calls = 0; struct Stop {};
    for (uint64_t i = 0; i < n; i++) { g1 p = parse<g1>(r.next()); g2 q = parse<g2>(r.next()); pairing::add_pair(v, p, q); }
    string res;
    try { res = str(pairing::calculate(v, [&] { if (calls++ == k) throw Stop(); })); } catch (const Stop&) { res = "stopped"; }
    return res + " " + num(calls);
} ENDOP
OP("millerfe") {  // staged: miller_loop then final_exponentiation must equal calculate
    g1 p = in<g1>(r); g2 q = in<g2>(r);
    vector<std::tuple<g1, g2>> v; pairing::add_pair(v, p, q);
    fp12 a = pairing::miller_loop(v, {}); pairing::final_exponentiation(a);
    Forms f; f.put("calculate", str(pairing::calculate(v))); f.put("staged", str(a));
    return f.str();
} ENDOP
OP("finalexp") { fp12 a = in<fp12>(r); pairing::final_exponentiation(a); return str(a); } ENDOP
OP("millerempty") { vector<std::tuple<g1, g2>> v; return str(pairing::miller_loop(v, {})); } ENDOP
