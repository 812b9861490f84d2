#include "drv.hpp"
#include <sys/mman.h>
#include <unistd.h>
using namespace drv;

// ---------- base field: every form and every alias pattern ----------
typedef void (*F3)(fp*, const fp*, const fp*);
typedef void (*F2)(fp*, const fp*);

static void forms3(Forms& f, F3 op, const fp& a, const fp& b, const char* n) {
    string p = n;
    auto L = [&](const char* s) { static thread_local string t; t = p + s; return t.c_str(); };
    { fp z; z.d.fill(0xCCCCCCCCCCCCCCCCull); fp x = a, y = b; op(&z, &x, &y); f.put(L(":z"), str(z));
      if (!(x.d == a.d && y.d == b.d)) f.put(L(":operand-changed"), str(x) + str(y)); }
    { fp x = a, y = b; op(&x, &x, &y); f.put(L(":z=x"), str(x)); if (y.d != b.d) f.put(L(":y-changed"), str(y)); }
    { fp x = a, y = b; op(&y, &x, &y); f.put(L(":z=y"), str(y)); if (x.d != a.d) f.put(L(":x-changed"), str(x)); }
    if (a.d == b.d) {
        { fp z, x = a; op(&z, &x, &x); f.put(L(":x=y"), str(z)); }
        { fp x = a; op(&x, &x, &x); f.put(L(":z=x=y"), str(x)); }
    }
}
static void forms2(Forms& f, F2 op, const fp& a, const char* n) {
    string p = n;
    auto L = [&](const char* s) { static thread_local string t; t = p + s; return t.c_str(); };
    { fp z; z.d.fill(0xCCCCCCCCCCCCCCCCull); fp x = a; op(&z, &x); f.put(L(":z"), str(z)); if (x.d != a.d) f.put(L(":operand-changed"), str(x)); }
    { fp x = a; op(&x, &x); f.put(L(":z=x"), str(x)); }
}
static void mulw(fp* z, const fp* x, const fp* y) { _multiply(z, x, y); }

#define BIN(NAME, VAL, ASG) { auto& a = in<fp>(r); auto& b = in<fp>(r); Forms f; \
    f.put("value", str(a.VAL(b))); { fp x(a); x.ASG(b); f.put("assign", str(x)); } \
    if (a.d == b.d) { fp x(a); x.ASG(x); f.put("assign-self", str(x)); f.put("value-self", str(a.VAL(a))); } \
    forms3(f, NAME, a, b, "low"); return f.str(); }
OP("fadd") BIN(_add, add, addAssign) ENDOP
OP("fsub") BIN(_subtract, subtract, subtractAssign) ENDOP
OP("fmul") BIN(mulw, multiply, multiplyAssign) ENDOP
OP("fmulraw") { auto& a = in<fp>(r); auto& b = in<fp>(r); Forms f; forms3(f, mulw, a, b, "low"); return f.str(); } ENDOP
OP("fladd") { auto& a = in<fp>(r); auto& b = in<fp>(r); Forms f; forms3(f, _ladd, a, b, "low"); return f.str(); } ENDOP
OP("flsub") { auto& a = in<fp>(r); auto& b = in<fp>(r); Forms f; forms3(f, _lsubtract, a, b, "low"); return f.str(); } ENDOP
OP("fldbl") { auto& a = in<fp>(r); Forms f; forms2(f, _ldouble, a, "low"); return f.str(); } ENDOP
OP("fdbl") { auto& a = in<fp>(r); Forms f; f.put("value", str(a.dbl())); { fp x(a); x.doubleAssign(); f.put("assign", str(x)); } forms2(f, _double, a, "low"); return f.str(); } ENDOP
OP("fsqr") { auto& a = in<fp>(r); Forms f; f.put("value", str(a.square())); { fp x(a); x.squareAssign(); f.put("assign", str(x)); } forms2(f, _square, a, "low"); f.put("mul", str(a.multiply(a))); return f.str(); } ENDOP
OP("fneg") { auto& a = in<fp>(r); Forms f; f.put("value", str(a.negate())); forms2(f, _negate, a, "low"); return f.str(); } ENDOP
OP("ftomont") { return str(in<fp>(r).toMont()); } ENDOP
OP("ffrommont") { return str(in<fp>(r).fromMont()); } ENDOP
OP("fphi") { return str(in<fp>(r).phi()); } ENDOP
OP("fdiv2") { fp x = in<fp>(r); x.div2(r.num()); return str(x); } ENDOP
OP("fmul2") { fp x = in<fp>(r); uint64_t c = x.mul2(); return str(x) + " " + num(c); } ENDOP
OP("finv") { return str(in<fp>(r).inverse()); } ENDOP
OP("fsqrt") { auto& a = in<fp>(r); fp c; c.d.fill(~0ull); bool ok = a.sqrt(c); fp s(a); bool ok2 = s.sqrt(s);
    return str(ok) + " " + str(c) + ((ok2 != ok || s.d != c.d) ? " DIFF:alias=" + str(s) : ""); } ENDOP
OP("fpred") { auto& a = in<fp>(r); return str(a.isQuadraticNonResidue()) + " " + str(a.isLexicographicallyLargest()) + " " + str(a.sign()); } ENDOP
OP("fflags") { auto& a = in<fp>(r); return str(a.isOdd()) + str(a.isEven()) + str(a.isZero()) + str(a.isOne()) + str(a.isValid()); } ENDOP
OP("fcmp") { auto& a = in<fp>(r); auto& b = in<fp>(r); auto c = a.cmp(b); Forms f;
    auto w = [](std::strong_ordering o) { return string(o < 0 ? "lt" : o > 0 ? "gt" : "eq"); };
    f.put("cmp", w(c)); f.put("<=>", w(a <=> b)); f.put("<", a < b ? "lt" : b < a ? "gt" : "eq");
    f.put("==", a == b ? "eq" : f.first == "eq" ? "ne" : f.first);
    f.put("equal", a.equal(b) ? "eq" : f.first == "eq" ? "ne" : f.first);
    return f.str(); } ENDOP
OP("const") {  // published constants
    return str(fp::MODULUS) + " " + num(fp::INP) + " " + str(fp::R1) + " " + str(fp::R2) + " " + str(fp::B) + " " + str(fp::twoInv) + " " + str(fp::glvPhi1)
        + " " + str(fp::Q) + " " + str(fp::pPlus1Over4) + " " + str(fp::pMinus1Over2) + " " + str(fp::pMinus3Over4) + " " + str(fp2::negativeOne2) + " " + str(fp2::B)
        + " " + str(fp2::psiX) + " " + str(fp2::psiY) + " " + str(g1::BASE) + " " + str(g2::BASE) + " " + str(g1::cofactorEFF) + " " + str(g2::cofactorEFF)
        + " " + str(g1::zero()) + " " + str(g2::zero()) + " " + str(g1::one()) + " " + str(g2::one());
} ENDOP

OP("neutral") { size_t n = r.num(); auto go = [](auto z, auto o) { return str(z) + " " + str(o) + " " + std::to_string(z.isZero()) + std::to_string(z.isOne()) + std::to_string(o.isZero()) + std::to_string(o.isOne()); };
    if (n == 1) return go(fp::zero(), fp::one());
    if (n == 2) return go(fp2::zero(), fp2::one());
    if (n == 6) return go(fp6::zero(), fp6::one());
    return go(fp12::zero(), fp12::one()); } ENDOP
// operands and destination flush against unmapped pages, callee-saved registers and direction flag checked
#if defined(__x86_64__) && !defined(__SANITIZE_ADDRESS__)
#define HAVE_ABI 1
#endif
static thread_local uint8_t* gp = nullptr;
static fp* place(int slot, bool hi) {
    const size_t pg = 4096;
    if (!gp) {
        gp = (uint8_t*)mmap(nullptr, 7 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        for (int i = 0; i < 3; i++) mprotect(gp + (2 * i + 1) * pg, pg, PROT_READ | PROT_WRITE);
    }
    uint8_t* page = gp + (2 * slot + 1) * pg;
    memset(page, 0x5A, pg);
    return reinterpret_cast<fp*>(hi ? page + pg - sizeof(fp) : page);
}
static bool pageClean(int slot, bool hi) {
    const size_t pg = 4096; uint8_t* page = gp + (2 * slot + 1) * pg;
    size_t lo = hi ? 0 : sizeof(fp), end = hi ? pg - sizeof(fp) : pg;
    for (size_t i = lo; i < end; i++) if (page[i] != 0x5A) return false;
    return true;
}
#ifdef HAVE_ABI
static string callAbi(void* fn, fp* z, const fp* x, const fp* y) {
    static thread_local uint64_t in[6] = {0x1111111111111111, 0x2222222222222222, 0x3333333333333333, 0x4444444444444444, 0x5555555555555555, 0};
    static thread_local uint64_t save[16];
    uint64_t flags = 0; unsigned mx0, mx1;
    asm volatile("stmxcsr %0" : "=m"(mx0));
    uint64_t* sv = save; uint64_t* iv = in;
    asm volatile(
        "sub $128, %%rsp\n\t"
        "push %%rbp\n\tpush %%rbx\n\tpush %%r12\n\tpush %%r13\n\tpush %%r14\n\tpush %%r15\n\t"
        "push %[sv]\n\tpush %[fn]\n\t"
        "mov %[iv], %%rax\n\t"
        "mov 0(%%rax), %%rbx\n\tmov 8(%%rax), %%r12\n\tmov 16(%%rax), %%r13\n\tmov 24(%%rax), %%r14\n\tmov 32(%%rax), %%r15\n\t"
        "mov %%rsp, %%rbp\n\t"
        "mov 0(%%rsp), %%rax\n\t"
        "and $-16, %%rsp\n\t"
        "call *%%rax\n\t"
        "mov %%rbp, %%rax\n\t"            // if rbp was clobbered rsp cannot be restored from it: detected by crash
        "mov %%rbp, %%rsp\n\t"
        "pop %%rcx\n\tpop %%rax\n\t"
        "mov %%rbx, 0(%%rax)\n\tmov %%r12, 8(%%rax)\n\tmov %%r13, 16(%%rax)\n\tmov %%r14, 24(%%rax)\n\tmov %%r15, 32(%%rax)\n\t"
        "pushfq\n\tpop %%rcx\n\tmov %%rcx, 48(%%rax)\n\tcld\n\t"
        "pop %%r15\n\tpop %%r14\n\tpop %%r13\n\tpop %%r12\n\tpop %%rbx\n\tpop %%rbp\n\t"
        "add $128, %%rsp\n\t"
        : "+D"(z), "+S"(x), "+d"(y), [fn] "+r"(fn), [iv] "+r"(iv), [sv] "+r"(sv)
        :
        : "rax", "rcx", "r8", "r9", "r10", "r11", "memory", "cc", "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7",
          "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15");
    asm volatile("stmxcsr %0" : "=m"(mx1));
    string bad;
    for (int i = 0; i < 5; i++) if (save[i] != in[i]) bad += " DIFF:callee-saved-" + num(i);
    flags = save[6];
    if (flags & 0x400) bad += " DIFF:direction-flag";
    if ((mx0 ^ mx1) & 0xFFC0) bad += " DIFF:mxcsr";
    return bad;
}
#endif
OP("fguard") {  // fguard opname a b
    string which = r.next(); auto& a = in<fp>(r); auto& b = in<fp>(r);
    Forms f; string bad;
    for (int hi = 0; hi < 2; hi++) {
        fp *z = place(0, hi), *x = place(1, hi), *y = place(2, hi);
        *x = a; *y = b; z->d.fill(0x5A5A5A5A5A5A5A5Aull);
        void* fn = nullptr;
        if (which == "add") fn = (void*)(F3)_add; else if (which == "sub") fn = (void*)(F3)_subtract;
        else if (which == "mul") fn = (void*)(F3)_multiply; else if (which == "ladd") fn = (void*)(F3)_ladd;
        else if (which == "lsub") fn = (void*)(F3)_lsubtract; else if (which == "dbl") fn = (void*)(F2)_double;
        else if (which == "ldbl") fn = (void*)(F2)_ldouble; else if (which == "sqr") fn = (void*)(F2)_square;
        else if (which == "neg") fn = (void*)(F2)_negate; else throw BadRequest("fguard");
#ifdef HAVE_ABI
        bad += callAbi(fn, z, x, y);
#else
        if (which == "dbl" || which == "ldbl" || which == "sqr" || which == "neg") ((F2)fn)(z, x); else ((F3)fn)(z, x, y);
#endif
        f.put(hi ? "page-end" : "page-start", str(*z));
        if (x->d != a.d || y->d != b.d) bad += " DIFF:operand-changed";
        for (int s = 0; s < 3; s++) if (!pageClean(s, hi)) bad += " DIFF:wrote-outside";
    }
    return f.str() + bad;
} ENDOP

// ---------- tower, generic ----------
template<class T> static T copyOf(const T& t) { return T(t); }

template<class T> static string tower(Req& r, const string& o) {
    auto bin = [&](auto val, auto asg) {
        auto& a = in<T>(r); auto& b = in<T>(r); Forms f;
        f.put("value", str(val(a, b)));
        { T x(a); asg(x, b); f.put("assign", str(x)); }
        if (str(a) == str(b)) { T x(a); asg(x, x); f.put("assign-self", str(x)); f.put("value-self", str(val(a, a))); }
        { T x(a); x = val(x, b); f.put("value-into-left", str(x)); }
        { T y(b); y = val(a, y); f.put("value-into-right", str(y)); }
        return f.str();
    };
    if (o == "add") return bin([](const T& a, const T& b) { return a.add(b); }, [](T& a, const T& b) { a.addAssign(b); });
    if (o == "sub") return bin([](const T& a, const T& b) { return a.subtract(b); }, [](T& a, const T& b) { a.subtractAssign(b); });
    if (o == "mul") return bin([](const T& a, const T& b) { return a.multiply(b); }, [](T& a, const T& b) { a.multiplyAssign(b); });
    if (o == "eq") { auto& a = in<T>(r); auto& b = in<T>(r); return str(a.equal(b)) + str(b.equal(a)) + str(a.isZero()) + str(a.isOne()); }
    auto& a = in<T>(r);
    Forms f;
    auto un = [&](const char* l, const T& v) { f.put(l, str(v)); };
    if (o == "dbl") { un("value", a.dbl()); T x(a); x.doubleAssign(); un("assign", x); T y(a); y = y.dbl(); un("into-self", y); return f.str(); }
    if (o == "sqr") { un("value", a.square()); T x(a); x.squareAssign(); un("assign", x); T y(a); y = y.square(); un("into-self", y); T w(a); w.multiplyAssign(w); un("mul-self", w); return f.str(); }
    if (o == "neg") { un("value", a.negate()); T y(a); y = y.negate(); un("into-self", y); return f.str(); }
    if (o == "inv") { un("value", a.inverse()); T y(a); y = y.inverse(); un("into-self", y); return f.str(); }
    if (o == "frob") { uint64_t p = r.num(); un("value", a.frobeniusMap(p)); T x(a); x.frobeniusMapAssign(p); un("assign", x); T y(a); y = y.frobeniusMap(p); un("into-self", y); return f.str(); }
    if (o == "exp") return withN<1, 8>(r.a.at(r.pos).size() / 16, [&](auto N) {
        auto& e = inLimbs<N.value>(r); un("value", a.template exp<N.value>(e)); T y(a); y = y.template exp<N.value>(e); un("into-self", y); return f.str(); });
    throw BadRequest("tower op");
}
OP("t2") { string o = r.next(); return tower<fp2>(r, o); } ENDOP
OP("t6") { string o = r.next(); return tower<fp6>(r, o); } ENDOP
OP("t12") { string o = r.next(); return tower<fp12>(r, o); } ENDOP
OP("fexp") { auto& a = in<fp>(r); return withN<1, 8>(r.a.at(r.pos).size() / 16, [&](auto N) { return str(a.exp<N.value>(inLimbs<N.value>(r))); }); } ENDOP

OP("2conj") { auto& a = in<fp2>(r); Forms f; f.put("v", str(a.conjugate())); fp2 y(a); y = y.conjugate(); f.put("self", str(y)); return f.str(); } ENDOP
OP("2mnr") { auto& a = in<fp2>(r); Forms f; f.put("v", str(a.mulByNonResidue())); fp2 y(a); y = y.mulByNonResidue(); f.put("self", str(y)); return f.str(); } ENDOP
OP("2mb") { auto& a = in<fp2>(r); Forms f; f.put("v", str(a.mulByB())); f.put("mul", str(a.multiply(fp2::B))); return f.str(); } ENDOP
OP("2mulfq") { auto& a = in<fp2>(r); auto& b = in<fp>(r); Forms f; f.put("v", str(a.mulByFq(b))); f.put("c0", str(a.mulByFq(b))); return f.str(); } ENDOP
OP("2mulfqself") { auto& a = in<fp2>(r); return str(a.mulByFq(a.c0)) + " " + str(a.mulByFq(a.c1)); } ENDOP
OP("2sqrt") { auto& a = in<fp2>(r); fp2 c; c.c0.d.fill(~0ull); c.c1.d.fill(~0ull); bool ok = a.sqrt(c); fp2 s(a); bool ok2 = s.sqrt(s);
    return str(ok) + " " + str(c) + ((ok2 != ok || str(s) != str(c)) ? " DIFF:alias=" + str(s) : ""); } ENDOP
OP("2pred") { auto& a = in<fp2>(r); return str(a.isQuadraticNonResidue()) + " " + str(a.isLexicographicallyLargest()) + " " + str(a.sign()); } ENDOP
OP("2cmp") { auto& a = in<fp2>(r); auto& b = in<fp2>(r); return string(a < b ? "lt" : b < a ? "gt" : "eq") + " " + str(a == b); } ENDOP
OP("6mnr") { auto& a = in<fp6>(r); Forms f; f.put("v", str(a.mulByNonResidue())); fp6 y(a); y = y.mulByNonResidue(); f.put("self", str(y)); return f.str(); } ENDOP
OP("6by01") { auto& a = in<fp6>(r); auto& b = in<fp2>(r); auto& c = in<fp2>(r); Forms f; f.put("v", str(a.mulBy01(b, c))); fp6 y(a); y.mulBy01Assign(b, c); f.put("assign", str(y)); return f.str(); } ENDOP
// operands that are coefficients of the object the operation works on
OP("6by01self") { auto& a = in<fp6>(r); size_t i = r.num(), j = r.num(); if (i > 2 || j > 2) throw BadRequest("index");
    auto c = [](fp6& x, size_t k) -> fp2& { return k == 0 ? x.c0 : k == 1 ? x.c1 : x.c2; };
    fp6 x(a); Forms f; f.put("v", str(x.mulBy01(c(x, i), c(x, j)))); fp6 y(a); y.mulBy01Assign(c(y, i), c(y, j)); f.put("assign", str(y));
    fp6 w(a); w = w.mulBy01(c(w, i), c(w, j)); f.put("into-self", str(w)); return f.str(); } ENDOP
OP("6by1self") { auto& a = in<fp6>(r); size_t i = r.num(); if (i > 2) throw BadRequest("index"); fp6 x(a); fp2& e = i == 0 ? x.c0 : i == 1 ? x.c1 : x.c2;
    auto v = str(x.mulBy1(e)), w = str(x.mulByBaseField(e)); fp6 y(a); fp2& g = i == 0 ? y.c0 : i == 1 ? y.c1 : y.c2; y = y.mulBy1(g); Forms f; f.put("v", v); f.put("into-self", str(y)); return f.str() + " " + w; } ENDOP
OP("12by014self") { auto& a = in<fp12>(r); size_t i = r.num(), j = r.num(), k = r.num(); if (i > 5 || j > 5 || k > 5) throw BadRequest("index");
    fp12 x(a); auto c = [&](size_t n) -> fp2& { fp6& s = n < 3 ? x.c0 : x.c1; n %= 3; return n == 0 ? s.c0 : n == 1 ? s.c1 : s.c2; };
    x.mulBy014Assign(c(i), c(j), c(k)); return str(x); } ENDOP
OP("2mulself") { auto& a = in<fp2>(r); size_t i = r.num() & 1; Forms f; fp2 x(a); f.put("v", str(x.mulByFq(i ? x.c1 : x.c0))); x = x.mulByFq(i ? x.c1 : x.c0); f.put("into-self", str(x));
    fp2 y(a); y.c0.multiplyAssign(y.c1); y.c1.addAssign(y.c1); return f.str() + " " + str(y); } ENDOP
OP("6mulpart") { auto& a = in<fp6>(r); fp6 x(a); x.c0.multiplyAssign(x.c1); x.c2.subtractAssign(x.c2); return str(x); } ENDOP
OP("12mulpart") { auto& a = in<fp12>(r); fp12 x(a); x.c0.multiplyAssign(x.c1); fp12 y(a); y.c1.addAssign(y.c0); return str(x) + " " + str(y); } ENDOP
OP("6by1") { auto& a = in<fp6>(r); auto& b = in<fp2>(r); return str(a.mulBy1(b)); } ENDOP
OP("6bybase") { auto& a = in<fp6>(r); auto& b = in<fp2>(r); return str(a.mulByBaseField(b)); } ENDOP
OP("12conj") { auto& a = in<fp12>(r); Forms f; f.put("v", str(a.conjugate())); fp12 y(a); y = y.conjugate(); f.put("self", str(y)); return f.str(); } ENDOP
OP("12by014") { fp12 a = in<fp12>(r); auto& b = in<fp2>(r); auto& c = in<fp2>(r); auto& d = in<fp2>(r); a.mulBy014Assign(b, c, d); return str(a); } ENDOP
OP("12csqr") { auto& a = in<fp12>(r); Forms f; f.put("v", str(a.cyclotomicSquare())); fp12 y(a); y.cyclotomicSquareAssign(); f.put("assign", str(y)); return f.str(); } ENDOP
OP("12cexp") { auto& a = in<fp12>(r); return withN<1, 6>(r.a.at(r.pos).size() / 16, [&](auto N) { return str(a.cyclotomicExp<N.value>(inLimbs<N.value>(r))); }); } ENDOP
OP("fp4sqr") { auto& a = in<fp2>(r); auto& b = in<fp2>(r); auto [x, y] = fp12::fp4Square(a, b); return str(x) + str(y); } ENDOP
OP("gtvalid") { return str(in<fp12>(r).isGtValid()); } ENDOP

// ---------- field codecs ----------
template<class T> static string encode(Req& r) {
    constexpr size_t n = Tower<T>::n * 48;
    bool be = r.next() == "be"; auto fm = r.num() ? from_mont::yes : from_mont::no;
    auto& a = in<T>(r); Forms f;
    uint8_t* g = guarded(r, vector<uint8_t>(n, 0xEE).data(), n);
    std::span<uint8_t, n> sp(g, n);
    if (be) { f.put("ret", strb(a.toBytesBE(fm))); a.toBytesBE(sp, fm); if (fm == from_mont::yes) f.put("default", strb(a.toBytesBE())); }
    else    { f.put("ret", strb(a.toBytesLE(fm))); a.toBytesLE(sp, fm); if (fm == from_mont::yes) f.put("default", strb(a.toBytesLE())); }
    f.put("out", hexOf(g, n));
    return f.str();
}
template<class T> static string decode(Req& r) {
    constexpr size_t n = Tower<T>::n * 48;
    bool be = r.next() == "be"; bool cv = r.num(), tm = r.num();
    auto b = bytes(r); if (b.size() != n) throw BadRequest("len");
    std::span<const uint8_t, n> sp(b.data(), n);
    conv_opt o{.check_valid = cv, .to_mont = tm};
    Forms f;
    auto s = [](const std::optional<T>& v) { return v ? str(*v) : string("none"); };
    f.put("opt", s(be ? T::fromBytesBE(sp, o) : T::fromBytesLE(sp, o)));
    if (cv && tm) f.put("default", s(be ? T::fromBytesBE(sp) : T::fromBytesLE(sp)));
    return f.str();
}
OP("enc") { auto n = r.num(); return n == 1 ? encode<fp>(r) : n == 2 ? encode<fp2>(r) : n == 6 ? encode<fp6>(r) : encode<fp12>(r); } ENDOP
OP("dec") { auto n = r.num(); return n == 1 ? decode<fp>(r) : n == 2 ? decode<fp2>(r) : n == 6 ? decode<fp6>(r) : decode<fp12>(r); } ENDOP
