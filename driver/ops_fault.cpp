// Fault sequences: progress callbacks that throw at every invocation, and
// injected allocation failures at every allocation of an operation.
#include "drv.hpp"
#include <ctime>
#include <sys/wait.h>
#include <unistd.h>
#include <new>
#include <malloc.h>

using namespace drv;
typedef std::array<uint64_t, 4> sk_t;

#ifdef DRV_ALLOC
// ---- work counter: basic blocks executed (library and driver are compiled with trace-pc) ----
static long work_ = 0;
static char* low_ = nullptr;           // deepest stack address seen
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() {
    work_++;
    char* f = (char*)__builtin_frame_address(0);
    if (f < low_) low_ = f;
}
static long work() { return work_; }
// ---- metering of whole requests: live and peak heap bytes ----
static long mlive = 0, mpeak = 0;
static inline void mAdd(void* p) { mlive += malloc_usable_size(p); if (mlive > mpeak) mpeak = mlive; }
static inline void mDel(void* p) { mlive -= malloc_usable_size(p); }
namespace drv {
static long mw0, ml0; static char* mtop;
__attribute__((noinline)) void meterStart() { mpeak = ml0 = mlive; mtop = low_ = (char*)__builtin_frame_address(0); mw0 = work_; }
MeterVals meterStop() { long w = work_ - mw0; return {w, mpeak - ml0, mlive - ml0, long(mtop - low_)}; }

}
// ---- allocation table: which blocks were allocated inside a library call ----
namespace {
struct Tab {
    static constexpr size_t N = 1 << 16;
    void* k[N]; size_t live = 0;
    static size_t h(void* p) { return (reinterpret_cast<uintptr_t>(p) >> 4) * 0x9E3779B97F4A7C15ull >> 48; }
    void add(void* p) { size_t i = h(p); while (k[i] && k[i] != (void*)1) i = (i + 1) % N; k[i] = p; live++; }
    bool del(void* p) { for (size_t i = h(p), n = 0; k[i] && n < N; i = (i + 1) % N, n++) if (k[i] == p) { k[i] = (void*)1; live--; return true; } return false; }
    void clear() { memset(k, 0, sizeof k); live = 0; }
};
Tab tab;
bool shouldFail() {
    if (!A.on) return false;
    long i = A.count++;
    bool f = A.failAt >= 0 && (i == A.failAt || (A.failRest && i > A.failAt));
    if (f) A.failed++;
    return f;
}
}
extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
void* __wrap_malloc(size_t n) { if (shouldFail()) return nullptr; void* p = __real_malloc(n); if (p) mAdd(p); if (A.on && p) { memset(p, 0xB7, n); tab.add(p); } return p; }
void* __wrap_calloc(size_t a, size_t b) { if (shouldFail()) return nullptr; void* p = __real_calloc(a, b); if (p) mAdd(p); if (A.on && p) tab.add(p); return p; }
void* __wrap_realloc(void* q, size_t n) { if (shouldFail()) return nullptr; bool had = q && tab.del(q); if (q) mDel(q); void* p = __real_realloc(q, n); if (p) mAdd(p); else if (q && n) mAdd(q); if (p && (A.on || had)) tab.add(p); return p; }
void __wrap_free(void* p) { if (p) { mDel(p); tab.del(p); } __real_free(p); }
}
static void* opnew(size_t n) { void* p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return opnew(n); }
void* operator new[](size_t n) { return opnew(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
static size_t liveNow() { return tab.live; }
static void liveClear() { tab.clear(); }
#else
static long work() { return 0; }
static size_t liveNow() { return 0; }
static void liveClear() {}
#endif

struct Stop { int k; };                                    // not derived from anything
struct StopErr : std::runtime_error { int k; StopErr(int k_) : std::runtime_error("stop"), k(k_) {} };
struct StopArg : std::invalid_argument { int k; StopArg(int k_) : std::invalid_argument("stop"), k(k_) {} };
struct StopMix : std::system_error, Stop { StopMix(int k_) : std::system_error(k_, std::generic_category(), "stop"), Stop{k_} {} };
struct StopAlloc : std::bad_alloc { int k; StopAlloc(int k_) : k(k_) {} };

// An operation under fault: run() returns the canonical result text. Every library call inside is
// wrapped in lib(), results are turned into text outside of it.
using Run = std::function<string()>;
using Y = std::function<void()>;
struct Case { Run run; std::function<string(const Y&)> runY; std::function<bool()> unchanged; string errValue; };

static vector<uint8_t> rnd(size_t n, uint64_t seed) {
    vector<uint8_t> v(n); uint64_t x = seed * 0x9E3779B97F4A7C15ull + 77;
    for (auto& b : v) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b = x >> 24; }
    return v;
}
static sk_t rsk(uint64_t seed) { auto v = rnd(32, seed); std::array<uint8_t, 32> a; memcpy(a.data(), v.data(), 32); a[0] &= 0x3f; return scalar::fromBytesBE<4>(a); }
template<class T> static T keep(T v) { return v; }

template<class G> static Case wsumCase(Req& r) {
    uint64_t n = r.num(), seed = r.num();
    auto base = std::make_shared<vector<G>>(); auto sc = std::make_shared<vector<sk_t>>();
    G p = G::one().scale(rsk(seed));
    for (uint64_t i = 0; i < n; i++) { base->push_back(p.affine()); p = p.add(G::one()); if (i % 64 == 63) p = G::one().scale(rsk(seed + i)); auto s = rsk(seed * 1000 + i); if (i % 7 == 3) s = {0, 0, 0, 0}; sc->push_back(s); }
    auto b2 = std::make_shared<vector<G>>(*base); auto s2 = std::make_shared<vector<sk_t>>(*sc);
    Case c;
    c.run = [=] { G g = lib([&] { return G::weightedSum(*base, *sc); }); return str(g.affine()); };
    c.runY = [=](const Y& y) { G g = lib([&] { return G::weightedSum(*base, *sc, y); }); return str(g.affine()); };
    c.unchanged = [=] { return *sc == *s2 && !memcmp((void*)base->data(), (void*)b2->data(), base->size() * sizeof(G)); };
    return c;
}
static Case makeCase(Req& r) {
    string w = r.op;
    Case c; c.unchanged = [] { return true; };
    if (w == "wsum1") return wsumCase<g1>(r);
    if (w == "wsum2") return wsumCase<g2>(r);
    if (w == "pairing") {
        uint64_t n = r.num(), seed = r.num();
        auto v = std::make_shared<vector<std::tuple<g1, g2>>>();
        for (uint64_t i = 0; i < n; i++) pairing::add_pair(*v, g1::one().scale(rsk(seed + 2 * i)), g2::one().scale(rsk(seed + 2 * i + 1)));
        auto v2 = std::make_shared<vector<std::tuple<g1, g2>>>(*v);
        c.run = [=] { fp12 f = lib([&] { return pairing::calculate(*v); }); return str(f); };
        c.runY = [=](const Y& y) { fp12 f = lib([&] { return pairing::calculate(*v, y); }); return str(f); };
        c.unchanged = [=] { return v->size() == v2->size() && !memcmp((void*)v->data(), (void*)v2->data(), v->size() * sizeof((*v)[0])); };
        return c;
    }
    if (w == "addpair") {
        uint64_t n = r.num(), seed = r.num();
        auto a = std::make_shared<vector<std::pair<g1, g2>>>();
        for (uint64_t i = 0; i < n; i++) a->push_back({g1::one().scale(rsk(seed + 2 * i)), g2::one().scale(rsk(seed + 2 * i + 1))});
        c.run = [=] { vector<std::tuple<g1, g2>> v; lib([&] { for (auto& x : *a) pairing::add_pair(v, x.first, x.second); });
            string o; for (auto& t : v) o += str(std::get<0>(t)) + str(std::get<1>(t)); return o; };
        return c;
    }
    size_t len = r.num(); uint64_t seed = r.num();
    auto m = std::make_shared<vector<uint8_t>>(rnd(len, seed)); auto m2 = std::make_shared<vector<uint8_t>>(*m);
    c.unchanged = [=] { return *m == *m2; };
    sk_t sk = rsk(seed + 5);
    auto rc = [](int v, const uint8_t* p, size_t n) { return v ? string("rc") : hexOf(p, n); };
    if (w == "hmac") { c.errValue = "rc"; c.run = [=] { uint8_t o[32]; memset(o, 0x11, 32); int v = lib([&] { return hkdf256_hmac(o, m->data(), m->size(), m->data(), m->size() / 2); }); return rc(v, o, 32); }; }
    else if (w == "extract") { c.errValue = "rc"; c.run = [=] { uint8_t o[32]; memset(o, 0x11, 32); int v = lib([&] { return hkdf256_extract(o, m->data(), m->size() / 2, m->data(), m->size()); }); return rc(v, o, 32); }; }
    else if (w == "expand") { size_t L = r.num(); c.errValue = "rc"; c.run = [=] { auto o = std::make_unique<uint8_t[]>(L + 1); memset(o.get(), 0x11, L + 1); uint8_t prk[32]; memset(prk, 9, 32);
        int v = lib([&] { return hkdf256_expand(o.get(), L, prk, m->data(), m->size()); }); return rc(v, o.get(), L); }; }
    else if (w == "extexp") { size_t L = r.num(); c.errValue = "rc"; c.run = [=] { auto o = std::make_unique<uint8_t[]>(L + 1); memset(o.get(), 0x11, L + 1);
        int v = lib([&] { return hkdf256_extract_expand(o.get(), L, m->data(), m->size(), m->data(), m->size() / 3, m->data(), m->size() / 2); }); return rc(v, o.get(), L); }; }
    else if (w == "keygen") { c.errValue = string(64, '0'); c.run = [=] { sk_t k = lib([&] { return secret_key(*m); }); return str(k); }; }
    else if (w == "lamport") { c.run = [=] { vector<uint8_t> o(32 * 255, 0x11); lib([&] { ikm_to_lamport_sk(o.data(), m->data(), m->size(), m->data(), 4); }); return strb(o); }; }
    else if (w == "lamportpk") { c.run = [=] { std::array<uint8_t, 32> o; o.fill(0x11); lib([&] { parent_sk_to_lamport_pk(o.data(), sk, uint32_t(seed)); }); return strb(o); }; }
    else if (w == "hardened") { c.errValue = string(64, '0'); c.run = [=] { sk_t k = lib([&] { return derive_child_sk(sk, uint32_t(seed)); }); return str(k); }; }
    else if (w == "unhsk") { c.run = [=] { sk_t k = lib([&] { return derive_child_sk_unhardened(sk, uint32_t(seed)); }); return str(k); }; }
    else if (w == "h2g2") { auto d = std::make_shared<string>(len % 400, 'd'); c.run = [=] { g2 k = lib([&] { return fromMessage(*m, *d); }); return str(k.affine()); }; }
    else if (w == "sign") { c.run = [=] { g2 k = lib([&] { return sign(sk, *m); }); return str(k.affine()); }; }
    else if (w == "popprove") { c.run = [=] { g2 k = lib([&] { return pop_prove(sk); }); return str(k.affine()); }; }
    else if (w == "verify" || w == "verifybad") { auto pk = public_key(sk); auto s = sign(sk, *m); if (w == "verifybad") s = s.add(g2::one()); c.run = [=] { bool b = lib([&] { return verify(pk, *m, s); }); return str(b); }; }
    else if (w == "popverify") { auto pk = public_key(sk); auto s = pop_prove(sk); c.run = [=] { bool b = lib([&] { return pop_verify(pk, s); }); return str(b); }; }
    else if (w == "popfast") { auto pks = std::make_shared<vector<g1>>(); g2 s = g2::zero(); for (int i = 0; i < 5; i++) { auto k = rsk(seed + i); pks->push_back(public_key(k)); s = s.add(sign(k, *m)); }
        c.run = [=] { bool b = lib([&] { return pop_fast_aggregate_verify(*pks, *m, s); }); return str(b); }; }
    else if (w == "aggverify" || w == "aggverifydup") {
        bool dup = w == "aggverifydup"; auto pks = std::make_shared<vector<g1>>(); auto ms = std::make_shared<vector<vector<uint8_t>>>(); g2 s = g2::zero();
        for (int i = 0; i < 6; i++) { auto k = rsk(seed + i); pks->push_back(public_key(k)); ms->push_back(rnd(len, dup && i == 5 ? seed : seed + i)); s = s.add(sign(k, ms->back())); }
        auto ms2 = std::make_shared<vector<vector<uint8_t>>>(*ms);
        c.unchanged = [=] { return *ms == *ms2; };
        c.run = [=] { bool b = lib([&] { return aggregate_verify(*pks, *ms, s, true); }); return str(b); };
    }
    else if (w == "aggsk") { auto v = std::make_shared<vector<sk_t>>(); for (size_t i = 0; i < len; i++) v->push_back(rsk(seed + i)); c.run = [=] { sk_t k = lib([&] { return aggregate_secret_keys(*v); }); return str(k); }; }
    else if (w == "unhex") { auto s = std::make_shared<string>(bytesToHex(*m)); c.run = [=] { string o; { auto v = lib([&] { return hexToBytes(std::string_view(*s)); }); o = strb(v); } return o; }; }
    else if (w == "tohex") { c.run = [=] { string o; { auto v = lib([&] { return bytesToHex(*m); }); o.assign(v.data(), v.size()); } return o; }; }
    else throw BadRequest("unknown fault op " + w);
    return c;
}
struct Off { ~Off() { A.on = false; } };

namespace drv {
int runFault(const vector<string>& lines, FILE* out) __attribute__((used));
static void allocCase(Req& r, FILE* out) {
    const char* id = r.id.c_str();
    Case c = makeCase(r);
    A = AllocCtl(); liveClear();
    string want = c.run();
    A.count = 0;
    string again = c.run();
    long n = A.count;
    if (again != want) fprintf(out, "%s VIOL result-changes-on-repeat\n", id);
    if (liveNow()) fprintf(out, "%s VIOL leak-without-fault live=%zu\n", id, liveNow());
    long tol = 0, rep = 0, thr = 0, runs = 0;
    for (int rest = 0; rest < 2; rest++)
        for (long k = 0; k < n; k++) {
            liveClear();
            fprintf(out, "%s at %ld rest=%d\n", id, k, rest); fflush(out);
            A = AllocCtl(); A.failAt = k; A.failRest = rest;
            string got; int how = 0;
            try { got = c.run(); } catch (const std::exception&) { how = 1; } catch (...) { how = 2; }
            A.on = false; bool hit = A.failed > 0; A.failAt = -1;
            runs++;
            if (how == 2) fprintf(out, "%s VIOL alloc=%ld rest=%d non-standard-exception\n", id, k, rest);
            else if (how == 1) thr++;
            else if (got == want) tol++;
            else if (!c.errValue.empty() && got == c.errValue) rep++;
            else fprintf(out, "%s VIOL alloc=%ld rest=%d wrong-result got=%.80s want=%.80s\n", id, k, rest, got.c_str(), want.c_str());
            if (!hit) fprintf(out, "%s note alloc=%ld not reached\n", id, k);
            if (liveNow()) fprintf(out, "%s VIOL alloc=%ld rest=%d leak live=%zu\n", id, k, rest, liveNow());
            if (!c.unchanged()) fprintf(out, "%s VIOL alloc=%ld inputs-changed\n", id, k);
            A = AllocCtl();
            if ((k & 7) == 0) { string after = c.run(); if (after != want) fprintf(out, "%s VIOL alloc=%ld later-call-affected\n", id, k); }
        }
    fprintf(out, "%s done allocs=%ld runs=%ld tolerated=%ld reported=%ld threw=%ld\n", id, n, runs, tol, rep, thr);
}
static void yieldCase(Req& r, long maxk, FILE* out) {
    const char* id = r.id.c_str();
    Case c = makeCase(r);
    A = AllocCtl(); liveClear();
    string want = c.run();
    long calls = 0;
    string w2 = c.runY([&] { calls++; });
    if (w2 != want) fprintf(out, "%s VIOL benign-callback-changes-result\n", id);
    string w3 = c.runY(Y());
    if (w3 != want) fprintf(out, "%s VIOL empty-callback-changes-result\n", id);
    long re = 0, rn = 0; string inner;      // a callback that itself uses the library
    string w4 = c.runY([&] { bool on = A.on; A.on = false; if (re++ % (1 + calls / 3) == 0 && rn < 4) { rn++; string t = c.run(); if (t != want) inner = t; } A.on = on; });
    if (w4 != want || !inner.empty()) fprintf(out, "%s VIOL reentrant-callback-changes-result\n", id);
    if (re != calls) fprintf(out, "%s VIOL callback-count-varies %ld %ld\n", id, calls, re);
    if (liveNow()) fprintf(out, "%s VIOL leak live=%zu\n", id, liveNow());
    long n = calls, step = n > maxk ? (n + maxk - 1) / maxk : 1, tested = 0;
    uint64_t jitter = std::hash<string>()(r.id);
    const int KINDS = 6;
    for (long k0 = 0; k0 < n; k0 += step) {
        long k = k0;
        if (step > 1 && k0 > 0) { jitter = jitter * 6364136223846793005ull + 1442695040888963407ull; k = k0 + (jitter >> 33) % step; if (k >= n) k = n - 1; }
        if (k0 + step >= n) k = n - 1;
        bool every = n <= 4 || k == 0 || k == n - 1;      // every type of exception at the ends, one type elsewhere
        for (int kind = every ? 0 : int((jitter + tested) % KINDS), left = every ? KINDS : 1; left > 0; left--, kind++) {
            fprintf(out, "%s at %ld\n", id, k); fflush(out);
            liveClear();
            long cnt = 0; int got = -1, gk = -1; string res;
            auto y = [&] {
                A.on = false;
                if (cnt++ == k) switch (kind) {
                    case 0: throw Stop{int(k)};
                    case 1: throw StopErr(k);
                    case 2: throw StopAlloc(k);
                    case 3: throw int(k);
                    case 4: throw StopArg(k);
                    default: throw StopMix(k);
                }
                A.on = true;
            };
            try { res = c.runY(y); got = 9; }
            catch (const StopErr& e) { got = 1; gk = e.k; } catch (const StopAlloc& e) { got = 2; gk = e.k; } catch (const StopArg& e) { got = 4; gk = e.k; }
            catch (const StopMix& e) { got = 5; gk = e.code().value() == e.k ? e.k : -2; } catch (const Stop& e) { got = 0; gk = e.k; } catch (int e) { got = 3; gk = e; } catch (...) { got = 8; }
            A.on = false; tested++;
            if (got == 9) fprintf(out, "%s VIOL at=%ld exception-swallowed result-%s\n", id, k, res == want ? "same" : "differs");
            else if (got != kind || gk != k) fprintf(out, "%s VIOL at=%ld wrong-exception kind=%d got=%d\n", id, k, kind, got);
            if (cnt != k + 1) fprintf(out, "%s VIOL at=%ld callback-invoked-after-throw count=%ld\n", id, k, cnt);
            if (liveNow()) fprintf(out, "%s VIOL at=%ld leak live=%zu\n", id, k, liveNow());
            if (!c.unchanged()) fprintf(out, "%s VIOL at=%ld inputs-changed\n", id, k);
            if (tested % 16 == 1) { string after = c.run(); if (after != want) fprintf(out, "%s VIOL at=%ld later-call-affected\n", id, k); }
        }
    }
    if (c.run() != want || c.runY([] {}) != want) fprintf(out, "%s VIOL later-call-affected\n", id);
    fprintf(out, "%s done calls=%ld tested=%ld\n", id, n, tested);
}
// largest stretch of work between two callback invocations (start and end included), in units of one
// group addition of the same build: a count of executed basic blocks, not a time
template<class G> static void gapCase(Req& r, FILE* out) {
    uint64_t n = r.num(), seed = r.num(), kind = r.more() ? r.num() : 0;
    vector<G> p; vector<sk_t> s; G b = G::one().scale(rsk(seed));
    vector<G> pool; for (int i = 0; i < 64; i++) { b = b.add(G::one()); pool.push_back(b.affine()); }
    for (uint64_t i = 0; i < n; i++) {
        p.push_back(kind == 4 ? G::zero() : pool[i % 64]);
        sk_t k = rsk(seed + i);
        if (kind == 1) k = {0, 0, 0, 0}; else if (kind == 2) k = {~0ull, ~0ull, ~0ull, ~0ull}; else if (kind == 3) k = {k[0] & 1, 0, 0, 0};
        else if (kind == 5) k[2] = k[3] = 0; else if (kind == 6) k[1] = k[2] = k[3] = 0; else if (kind == 7) k[0] = k[1] = 0; else if (kind == 8) k = rsk(seed); else if (kind == 9 && i % 3) k = {0, 0, 0, 0};
        s.push_back(k);
    }
    G x = pool[3].add(pool[9]).add(pool[20]), y = pool[5].add(pool[7]).add(pool[30]);
    long t0 = work();
    for (int i = 0; i < 100; i++) x.addAssign(y);
    double add = (work() - t0) / 100.0;
    long last = work(), mx = 0, calls = 0, total = last;
    auto upd = [&] { long t = work(); if (t - last > mx) mx = t - last; last = work(); };
    G g = G::weightedSum(p, s, [&] { upd(); calls++; });
    upd(); total = last - total;
    asm volatile("" ::"r"(&g), "r"(&x) : "memory");
    fprintf(out, "%s done calls=%ld gap_adds=%.1f total_adds=%.0f n=%llu\n", r.id.c_str(), calls, mx / (add > 0 ? add : 1), total / (add > 0 ? add : 1), (unsigned long long)n);
}
int runFault(const vector<string>& lines, FILE* out) {
    for (auto& l : lines) {
        fflush(out);
        pid_t pid = fork();
        if (pid == 0) {
            Req r; size_t i = 0;
            while (i < l.size()) { size_t j = l.find(' ', i); if (j == string::npos) j = l.size(); if (j > i) r.a.emplace_back(l, i, j - i); i = j + 1; }
            // id mode op args
            r.id = r.a.at(0); string mode = r.a.at(1); r.op = r.a.at(2); r.pos = 3;
            try {
                if (mode == "alloc") allocCase(r, out);
                else if (mode == "gap") { if (r.op == "wsum1") gapCase<g1>(r, out); else gapCase<g2>(r, out); }
                else if (mode.rfind("yield", 0) == 0) yieldCase(r, atol(mode.c_str() + 5), out);
                else fprintf(out, "%s !bad mode\n", r.id.c_str());
            } catch (const BadRequest& e) { fprintf(out, "%s !bad %s\n", r.id.c_str(), e.what()); }
            fflush(out); _exit(0);
        }
        int st = 0; waitpid(pid, &st, 0);
        if (st) { fprintf(out, "%s VIOL process-died status=%d\n", l.substr(0, l.find(' ')).c_str(), st); }
    }
    return 0;
}
} // namespace drv
