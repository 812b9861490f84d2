// The same requests in other circumstances: before main, after main, in an altered floating-point
// environment or locale, with a stale errno, under a system-call filter, and with the state of the
// process compared before and after every call. Linked after the other driver units.
#include "drv.hpp"
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <csignal>
#include <cstddef>
#include <dirent.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <locale>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
extern char** environ;
namespace drv {
bool readLine(string& l);

static string answer(const string& l) { string id, rp = execute(l, id); return id + " " + rp + "\n"; }
static void serve(const char* when) {
    string l; long n = 0;
    while (readLine(l)) { if (l.empty()) continue; string s = answer(l); fputs(s.c_str(), stdout); fflush(stdout); n++; }
    printf("#phase %s %ld\n", when, n); fflush(stdout);
}
// ---------------------------------------------------------------- before and after main
static struct Phase {
    string p;
    Phase() { const char* e = getenv("DRV_PHASE"); if (e) p = e; if (p == "early") serve("early"); }
    ~Phase() { if (p == "late") serve("late"); }
} phase;

// ---------------------------------------------------------------- state of the process
static uint64_t mix(uint64_t h, const void* p, size_t n) { auto b = (const uint8_t*)p; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull; return h; }
static char rnd[128];
struct Named { const char* name; uint64_t v; };
static void state(vector<Named>& o) {
    o.clear();
    const uint64_t S = 14695981039346656037ull;
#if defined(__x86_64__) || defined(__SSE2__)
    unsigned mx; unsigned short cw;
    asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw));
    o.push_back({"sse-control", mx & 0xFFC0}); o.push_back({"x87-control", cw});
#endif
    const char* lc = setlocale(LC_ALL, nullptr);
    o.push_back({"C-locale", mix(S, lc, strlen(lc))});
    o.push_back({"thread-locale", (uint64_t)(uintptr_t)uselocale((locale_t)0)});
    { std::locale g; string n = g.name(); uint64_t h = mix(S, n.data(), n.size()); const void* f = &std::use_facet<std::numpunct<char>>(g); o.push_back({"C++-locale", mix(h, &f, sizeof f)}); }
    { uint64_t h = S; for (char** e = environ; e && *e; e++) h = mix(mix(h, e, sizeof *e), *e, strlen(*e) + 1); o.push_back({"environment", h}); }
    { sigset_t s; sigemptyset(&s); pthread_sigmask(SIG_SETMASK, nullptr, &s); uint64_t h = S; for (int i = 1; i < 65; i++) { int m = sigismember(&s, i); h = mix(h, &m, sizeof m); } o.push_back({"signal-mask", h}); }
    { uint64_t h = S; for (int i = 1; i < 65; i++) { struct sigaction a; memset(&a, 0, sizeof a); if (sigaction(i, nullptr, &a) == 0) { void* f = (void*)a.sa_sigaction; h = mix(mix(h, &f, sizeof f), &a.sa_flags, sizeof a.sa_flags); } } o.push_back({"signal-handlers", h}); }
    { stack_t ss; memset(&ss, 0, sizeof ss); sigaltstack(nullptr, &ss); o.push_back({"signal-stack", (uint64_t)(uintptr_t)ss.ss_sp}); }
    { char b[4096]; if (getcwd(b, sizeof b)) o.push_back({"working-directory", mix(S, b, strlen(b))}); }
    { mode_t m = umask(077); umask(m); o.push_back({"umask", m}); }
    { uint64_t h = S; for (int i = 0; i < 16; i++) { struct rlimit l; memset(&l, 0, sizeof l); if (getrlimit((__rlimit_resource)i, &l) == 0) h = mix(mix(h, &l.rlim_cur, 8), &l.rlim_max, 8); } o.push_back({"resource-limits", h}); }
    { uint64_t h = S; for (int i = 0; i < 64; i++) { int f = fcntl(i, F_GETFD); h = mix(h, &f, sizeof f); } o.push_back({"open-files", h}); }
    { uint64_t h = 0, n = 0; if (DIR* d = opendir(".")) { while (dirent* e = readdir(d)) { h ^= mix(S, e->d_name, strlen(e->d_name)); n++; } closedir(d); } o.push_back({"files", h + n}); }
    { uint64_t n = 0; if (DIR* d = opendir("/proc/self/task")) { while (readdir(d)) n++; closedir(d); } o.push_back({"threads", n}); }
    { struct itimerval t; memset(&t, 0, sizeof t); getitimer(ITIMER_REAL, &t); o.push_back({"timer", (uint64_t)(t.it_value.tv_sec * 1000000 + t.it_value.tv_usec)}); }
    o.push_back({"terminate-handler", (uint64_t)(uintptr_t)std::get_terminate()});
    o.push_back({"new-handler", (uint64_t)(uintptr_t)std::get_new_handler()});
    o.push_back({"rand-state", mix(S, rnd, sizeof rnd)});
    { unsigned short z[3] = {1, 2, 3}; unsigned short* old = seed48(z); uint64_t h = mix(S, old, 6); unsigned short w[3] = {old[0], old[1], old[2]}; seed48(w); o.push_back({"rand48-state", h}); }
}

// ---------------------------------------------------------------- system-call filter
static int outFd = -1;
static char current[64];
static void onSys(int, siginfo_t* si, void*) {
    char b[160]; int n = snprintf(b, sizeof b, "%s !syscall %d\n", current, si->si_syscall);
    syscall(SYS_write, outFd, b, n);
    syscall(SYS_exit_group, 67);
}
static bool install() {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSys; sa.sa_flags = SA_SIGINFO; sigaction(SIGSYS, &sa, nullptr);
#define NR_OK(nr) BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (nr), 0, 1), BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW)
    sock_filter f[] = {
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, arch)),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, AUDIT_ARCH_X86_64, 1, 0), BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr)),
        NR_OK(SYS_brk), NR_OK(SYS_munmap), NR_OK(SYS_mremap), NR_OK(SYS_mprotect), NR_OK(SYS_madvise),
        NR_OK(SYS_futex), NR_OK(SYS_rt_sigreturn), NR_OK(SYS_exit), NR_OK(SYS_exit_group),
        // anonymous memory only
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_mmap, 0, 4),
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, args[3])),
        BPF_JUMP(BPF_JMP | BPF_JSET | BPF_K, 0x20, 0, 1), BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP),
        // replies
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_write, 0, 3),
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, args[0])),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)outFd, 0, 1), BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP),
    };
    sock_fprog p = {sizeof f / sizeof *f, f};
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return false;
    return prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p, 0, 0) == 0;
}

struct Punct : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    string do_grouping() const override { return "\3"; }
    string do_truename() const override { return "ja"; }
    string do_falsename() const override { return "nein"; }
};
int runAmbient(const string& spec) {
    auto has = [&](const char* s) { return ("," + spec + ",").find(string(",") + s + ",") != string::npos; };
    vector<string> lines; string l;
    while (readLine(l)) if (!l.empty()) lines.push_back(l);
    string out;
    if (has("locale")) {
        setlocale(LC_ALL, "C.UTF-8");
        std::locale::global(std::locale(std::locale::classic(), new Punct));
    }
    if (has("watch")) { initstate(4711, rnd, sizeof rnd); unsigned short s[3] = {7, 8, 9}; seed48(s); }
    bool filter = has("filter");
    if (filter) {
        outFd = dup2(1, 200);
        setvbuf(stdout, nullptr, _IONBF, 0);
#ifdef PR_SET_TSC
        prctl(PR_SET_TSC, PR_TSC_SIGSEGV, 0, 0, 0);      // reading the clock is an observable act too
#endif
        if (!install()) { printf("#nofilter\n"); filter = false; }
    }
    int mode = has("up") ? FE_UPWARD : has("down") ? FE_DOWNWARD : has("zero") ? FE_TOWARDZERO : FE_TONEAREST;
    bool ftz = has("ftz"), trap = has("trap"), err = has("errno"), watch = has("watch");
    unsigned mx = 0x1F80, def = 0x1F80;
    (void)mx; (void)def;
    vector<Named> a, b; a.reserve(64); b.reserve(64);
    for (auto& q : lines) {
        snprintf(current, sizeof current, "%s", q.substr(0, q.find(' ')).c_str());
        fesetround(mode);
        if (trap) feenableexcept(FE_INVALID | FE_DIVBYZERO);
        if (ftz) { asm volatile("stmxcsr %0" : "=m"(mx)); mx |= 0x8040; asm volatile("ldmxcsr %0" ::"m"(mx)); }
        if (watch) state(a);
        if (err) errno = q.size() % 3 ? ERANGE : EINVAL;
        string s = answer(q);
        string changed;
        if (watch) { state(b); for (size_t i = 0; i < a.size() && i < b.size(); i++) if (a[i].v != b[i].v) changed += string(" STATE:") + a[i].name; }
        feclearexcept(FE_ALL_EXCEPT); fedisableexcept(FE_ALL_EXCEPT);
        fesetround(FE_TONEAREST);
        if (!changed.empty()) { s.pop_back(); s += changed + "\n"; }
        if (outFd >= 0) { size_t k = 0; while (k < s.size()) { ssize_t n = write(outFd, s.data() + k, s.size() - k); if (n <= 0) break; k += n; } }
        else { fputs(s.c_str(), stdout); fflush(stdout); }
    }
    if (outFd >= 0) { const char* e = filter ? "#filtered\n" : "#unfiltered\n"; (void)!write(outFd, e, strlen(e)); }
    return 0;
}
} // namespace drv
