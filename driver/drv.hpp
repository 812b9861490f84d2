// Request interpreter around the public API of bls12-381: shared helpers.
#pragma once
#include <bls12-381/bls12-381.hpp>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <stdexcept>

namespace drv {
using std::string;
using std::vector;
using namespace bls12_381;

struct BadRequest : std::runtime_error { using std::runtime_error::runtime_error; };

// One parsed request; also remembers every operand handed to the library as
// read-only, to see afterwards whether the library changed it.
struct Req {
    string id, op;
    vector<string> a;
    size_t pos = 0;
    struct Snap { const void* p; vector<uint8_t> copy; };
    vector<Snap> snaps;
    vector<std::function<void()>> cleanup;
    bool lowguard = false;
    ~Req() { for (auto& c : cleanup) c(); }
    bool more() const { return pos < a.size(); }
    const string& next() {
        if (pos >= a.size()) throw BadRequest("missing argument");
        return a[pos++];
    }
    uint64_t num() { return strtoull(next().c_str(), nullptr, 0); }
    void watch(const void* p, size_t n) {
        snaps.push_back({p, vector<uint8_t>((const uint8_t*)p, (const uint8_t*)p + n)});
    }
    bool modified() const {
        for (auto& s : snaps)
            if (!s.copy.empty() && memcmp(s.p, s.copy.data(), s.copy.size())) return true;
        return false;
    }
};

int hexval(char c);
string hexOf(const void* p, size_t n);
// place n bytes so that they touch an unmapped page (above, or below if lowguard)
uint8_t* guarded(Req& r, const uint8_t* p, size_t n);
vector<uint8_t> unhex(const string& s);
// exact-size read-only byte argument in guarded memory
std::span<const uint8_t> bytes(Req& r);

fp parseFp(const char* s);
void putFp(string& o, const fp& f);

template<class T> struct Tower;
template<> struct Tower<fp>   { static constexpr int n = 1; };
template<> struct Tower<fp2>  { static constexpr int n = 2; };
template<> struct Tower<fp6>  { static constexpr int n = 6; };
template<> struct Tower<fp12> { static constexpr int n = 12; };
template<> struct Tower<g1>   { static constexpr int n = 3; };
template<> struct Tower<g2>   { static constexpr int n = 6; };

template<class T> T parse(const string& s) {
    constexpr int n = Tower<T>::n;
    if (s.size() != size_t(96 * n)) throw BadRequest("bad element length");
    T t;
    static_assert(sizeof(T) == sizeof(fp) * n);
    fp* f = reinterpret_cast<fp*>(&t);
    for (int i = 0; i < n; i++) f[i] = parseFp(s.data() + 96 * i);
    return t;
}
template<class T> string str(const T& t) {
    string o;
    const fp* f = reinterpret_cast<const fp*>(&t);
    for (int i = 0; i < Tower<T>::n; i++) putFp(o, f[i]);
    return o;
}
inline string str(bool b) { return b ? "1" : "0"; }
inline string num(uint64_t v) { char b[32]; snprintf(b, 32, "%llx", (unsigned long long)v); return b; }
template<size_t N> string str(const std::array<uint64_t, N>& v) {
    string o; char b[20];
    for (size_t i = 0; i < N; i++) { snprintf(b, 20, "%016llx", (unsigned long long)v[N - 1 - i]); o += b; }
    return o;
}
template<size_t N> string strb(const std::array<uint8_t, N>& v) { return hexOf(v.data(), N); }
inline string strb(const vector<uint8_t>& v) { return v.empty() ? string("-") : hexOf(v.data(), v.size()); }

// An operand the library must not change.
template<class T> struct In {
    T v;
};
template<class T> const T& in(Req& r) {
    auto p = std::make_shared<T>(parse<T>(r.next()));
    r.watch(p.get(), sizeof(T));
    r.cleanup.push_back([p] {});
    return *p;
}
template<size_t N> std::array<uint64_t, N> parseLimbs(const string& s) {
    if (s.size() != 16 * N) throw BadRequest("bad limb count");
    std::array<uint64_t, N> v;
    for (size_t i = 0; i < N; i++) v[N - 1 - i] = strtoull(s.substr(16 * i, 16).c_str(), nullptr, 16);
    return v;
}
template<size_t N> const std::array<uint64_t, N>& inLimbs(Req& r) {
    auto p = std::make_shared<std::array<uint64_t, N>>(parseLimbs<N>(r.next()));
    r.watch(p.get(), sizeof(*p));
    r.cleanup.push_back([p] {});
    return *p;
}

// Collects the results of several syntactic forms of one operation.
struct Forms {
    string first, diff;
    int n = 0;
    void put(const char* label, const string& v) {
        if (n++ == 0) first = v;
        else if (v != first) { diff += string(" DIFF:") + label + "=" + v; }
    }
    string str() const { return first + diff; }
};

using Op = std::function<string(Req&)>;
std::map<string, Op>& ops();
struct Reg { Reg(const char* n, Op f) { ops()[n] = std::move(f); } };
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define OP(name) static drv::Reg CAT(reg_, __COUNTER__)(name, [](drv::Req& r) -> std::string
#define ENDOP );

// dispatch a runtime limb count to a template parameter
template<size_t LO, size_t HI, class F> auto withN(size_t n, F&& f) {
    if constexpr (LO == HI) {
        if (n != LO) throw BadRequest("size out of range");
        return f(std::integral_constant<size_t, LO>());
    } else {
        if (n == LO) return f(std::integral_constant<size_t, LO>());
        return withN<LO + 1, HI>(n, std::forward<F>(f));
    }
}

// allocation accounting / fault injection (active only when built with -DDRV_ALLOC)
struct AllocCtl {
    bool on = false;          // count and possibly fail
    long count = 0;           // allocations seen
    long live = 0;            // outstanding allocations made while on
    long failAt = -1;         // index that fails
    bool failRest = false;    // everything after failAt fails too
    long failed = 0;
};
extern thread_local AllocCtl A;
struct Lib { Lib() { A.on = true; } ~Lib() { A.on = false; } };

// every library call of an op whose allocations are observed is written as lib([&]{...})
template<class F> auto lib(F&& f) { Lib l; return f(); }

__attribute__((weak)) int runFault(const vector<string>& lines, FILE* out);
// metering (build with -DDRV_ALLOC): executed basic blocks, peak and retained heap bytes, stack bytes of a request
struct MeterVals { long work, peak, kept, stack; };
__attribute__((weak)) void meterStart();
__attribute__((weak)) MeterVals meterStop();
string execute(const string& line, string& id);
} // namespace drv
