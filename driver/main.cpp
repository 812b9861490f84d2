// Request interpreter: reads one request per line, runs it against the real
// library, prints one reply per line.
//   drv [--poison HH] [--fork] [--threads N ROUNDS SEED] [--fault] [--repeat-order FILE] < requests
#include "drv.hpp"
#include <atomic>
#include <csignal>
#include <mutex>
#include <random>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <barrier>
#include <ctime>
#include <unistd.h>

#ifdef DRV_MSAN
// The red-black tree functions of libstdc++ are precompiled without MemorySanitizer instrumentation, so
// everything they link into a std::map or std::set would look uninitialised. Plain binary-tree versions.
#include <set>
namespace std {
using RB = _Rb_tree_node_base;
void _Rb_tree_insert_and_rebalance(const bool left, RB* x, RB* p, RB& h) throw() {
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x;
    } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
RB* _Rb_tree_rebalance_for_erase(RB* const z, RB& h) throw() {
    auto replace = [&](RB* n) {  // n (may be null) takes the place of z below z's parent
        if (h._M_parent == z) h._M_parent = n; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = n; else z->_M_parent->_M_right = n;
        if (n) n->_M_parent = z->_M_parent;
    };
    auto relink = [](RB* a) { while (a->_M_left) a = a->_M_left; return a; };
    auto relinkR = [](RB* a) { while (a->_M_right) a = a->_M_right; return a; };
    if (!z->_M_left) replace(z->_M_right);
    else if (!z->_M_right) replace(z->_M_left);
    else {
        RB* y = relink(z->_M_right);
        if (y != z->_M_right) {
            y->_M_parent->_M_left = y->_M_right;
            if (y->_M_right) y->_M_right->_M_parent = y->_M_parent;
            y->_M_right = z->_M_right; y->_M_right->_M_parent = y;
        }
        y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
        replace(y);
    }
    h._M_left = h._M_parent ? relink(h._M_parent) : &h;
    h._M_right = h._M_parent ? relinkR(h._M_parent) : &h;
    return z;
}
static RB* rbNext(RB* x) {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    RB* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
static RB* rbPrev(RB* x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    RB* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
RB* _Rb_tree_increment(RB* x) throw() { return rbNext(x); }
const RB* _Rb_tree_increment(const RB* x) throw() { return rbNext(const_cast<RB*>(x)); }
RB* _Rb_tree_decrement(RB* x) throw() { return rbPrev(x); }
const RB* _Rb_tree_decrement(const RB* x) throw() { return rbPrev(const_cast<RB*>(x)); }
}
#endif
namespace drv { bool readLine(std::string& l); int runAmbient(const std::string& spec) __attribute__((weak)); }
bool drv::readLine(std::string& l) {
    static char* buf = nullptr; static size_t cap = 0;
    ssize_t n = getline(&buf, &cap, stdin);
    if (n < 0) return false;
    while (n > 0 && buf[n - 1] == '\n') n--;
    l.assign(buf, n);
    return true;
}

namespace drv {
thread_local AllocCtl A;

std::map<string, Op>& ops() { static std::map<string, Op> m; return m; }

int hexval(char c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    throw BadRequest("bad hex");
}
string hexOf(const void* p, size_t n) {
    static const char* d = "0123456789abcdef";
    string o; o.resize(2 * n);
    const uint8_t* b = (const uint8_t*)p;
    for (size_t i = 0; i < n; i++) { o[2 * i] = d[b[i] >> 4]; o[2 * i + 1] = d[b[i] & 15]; }
    return o;
}
vector<uint8_t> unhex(const string& s) {
    if (s == "-") return {};
    if (s.rfind("z:", 0) == 0) {                    // z:<len>:<seed>  long synthetic buffer
        size_t len = 0, seed = 0;
        sscanf(s.c_str(), "z:%zu:%zu", &len, &seed);
        vector<uint8_t> v(len);
        uint64_t x = seed * 0x9E3779B97F4A7C15ull + 1;
        for (auto& b : v) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b = uint8_t(x >> 32); }
        return v;
    }
    vector<uint8_t> v(s.size() / 2);
    for (size_t i = 0; i < v.size(); i++) v[i] = hexval(s[2 * i]) << 4 | hexval(s[2 * i + 1]);
    return v;
}
fp parseFp(const char* s) {
    fp f;
    for (int i = 0; i < 6; i++) {
        uint64_t w = 0;
        for (int j = 0; j < 16; j++) w = w << 4 | hexval(s[16 * i + j]);
        f.d[5 - i] = w;
    }
    return f;
}
void putFp(string& o, const fp& f) {
    static const char* d = "0123456789abcdef";
    for (int i = 5; i >= 0; i--)
        for (int k = 60; k >= 0; k -= 4) o += d[(f.d[i] >> k) & 15];
}

#if defined(__SANITIZE_ADDRESS__) || defined(DRV_HEAPARGS)
uint8_t* guarded(Req& r, const uint8_t* p, size_t n) {
    uint8_t* q = new uint8_t[n];                    // redzones on both sides
    if (n) memcpy(q, p, n);
    r.cleanup.push_back([q] { delete[] q; });
    return q;
}
#else
uint8_t* guarded(Req& r, const uint8_t* p, size_t n) {
    size_t pg = 4096, body = (n + pg - 1) / pg * pg;
    if (!body) body = pg;
    uint8_t* m = (uint8_t*)mmap(nullptr, body + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED || mprotect(m + pg, body, PROT_READ | PROT_WRITE)) { perror("mmap"); _exit(99); }
    memset(m + pg, 0xA7, body);
    uint8_t* q = r.lowguard ? m + pg : m + pg + body - n;
    if (n) memcpy(q, p, n);
    r.cleanup.push_back([=] { munmap(m, body + 2 * pg); });
    return q;
}
#endif
std::span<const uint8_t> bytes(Req& r) {
    vector<uint8_t> v = unhex(r.next());
    uint8_t* q = guarded(r, v.data(), v.size());
    r.watch(q, v.size());
    return {q, v.size()};
}

static thread_local unsigned long serial = 0;
string execute(const string& line, string& id) {
    Req r;
    size_t i = 0;
    while (i < line.size()) {
        size_t j = line.find(' ', i);
        if (j == string::npos) j = line.size();
        if (j > i) r.a.emplace_back(line, i, j - i);
        i = j + 1;
    }
    if (r.a.size() < 2) { id = "?"; return "!bad short request"; }
    r.id = id = r.a[0]; r.op = r.a[1]; r.pos = 2;
    r.lowguard = (serial++ & 1);
    auto it = ops().find(r.op);
    if (it == ops().end()) return "!bad unknown op";
    string res;
    try { res = it->second(r); }
    catch (const BadRequest& e) { return string("!bad ") + e.what(); }
    catch (const std::invalid_argument& e) { res = "!invalid_argument"; }
    catch (const std::bad_alloc& e) { res = "!bad_alloc"; }
    catch (const std::exception& e) { res = "!exception"; }
    if (r.modified()) res += " MODIFIED-INPUT";
    return res;
}
// again <milliseconds> <limit> <request> ;; <request> ...: the requests in turn, over and over in this
// process, each reply compared with the first one of the same request
OP("again") { double ms = r.num(); uint64_t limit = r.num();
    vector<string> q(1); while (r.more()) { string t = r.next(); if (t == ";;") q.emplace_back(); else q.back() += " " + t; }
    vector<string> first; string id; auto cpu = [] { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec * 1e3 + t.tv_nsec * 1e-6; };
    for (auto& x : q) { x = "0" + x; first.push_back(execute(x, id)); }
    double end = cpu() + ms; uint64_t n = 1;
    for (; n < limit && ((n & 15) || cpu() < end); n++)
        for (size_t i = 0; i < q.size(); i++) { string a = execute(q[i], id); if (a != first[i]) return "n=" + std::to_string(n) + " DIFF:" + q[i].substr(1) + " -> " + a + ", at first " + first[i]; }
    string o = "n=" + std::to_string(n); for (size_t i = 0; i < q.size(); i++) o += (i ? " ;; " : " ") + first[i];
    return o; } ENDOP
} // namespace drv

using namespace drv;

// fills the stack below the caller with a byte pattern, so that a read of an
// uninitialised local sees it
__attribute__((noinline)) static void poisonStack(int byte) {
    volatile uint8_t buf[192 * 1024];
    for (size_t i = 0; i < sizeof buf; i++) buf[i] = (uint8_t)byte;
    asm volatile("" ::"r"(buf) : "memory");
}
__attribute__((noinline)) static void poisonHeap(int byte) {
    void* p[64];
    size_t sz[8] = {24, 33, 97, 112, 300, 8200, 600, 4000};
    for (int i = 0; i < 64; i++) { p[i] = malloc(sz[i % 8]); if (p[i]) memset(p[i], byte, sz[i % 8]); }
    asm volatile("" ::"r"(p) : "memory");
    for (int i = 63; i >= 0; i--) free(p[i]);
}

int main(int argc, char** argv) {
    int poison = -1; bool fork_ = false, fault = false, meter = false;
    int nthreads = 0, rounds = 1; unsigned seed = 1;
    for (int i = 1; i < argc; i++) {
        string s = argv[i];
        if (s == "--poison") poison = strtol(argv[++i], nullptr, 16);
        else if (s == "--fork") fork_ = true;
        else if (s == "--fault") fault = true;
        else if (s == "--meter") meter = true;
        else if (s == "--ambient") return runAmbient ? runAmbient(argv[i + 1]) : 97;
        else if (s == "--threads") { nthreads = atoi(argv[++i]); rounds = atoi(argv[++i]); seed = atoi(argv[++i]); }
        else { fprintf(stderr, "unknown option %s\n", argv[i]); return 98; }
    }
    if (const char* ph = getenv("DRV_PHASE")) if (string(ph) == "late") return 0;      // served by a static destructor
    vector<string> lines; string l;
    if (nthreads || fault) {
        while (readLine(l)) if (!l.empty()) lines.push_back(l);
        if (fault) return runFault ? runFault(lines, stdout) : 97;
        // All threads start together and run every request, each in its own order; every thread
        // records its replies, compared afterwards with each other (and by the caller with the
        // reply of a sequential run).
        vector<vector<string>> rep(nthreads, vector<string>(lines.size()));
        vector<std::atomic<int>> active(lines.size());
        std::atomic<long> overlaps{0}, calls{0}, inflight{0}, maxin{0};
        vector<vector<string>> bad(nthreads);
        std::barrier bar(nthreads);
        vector<std::thread> th;
        for (int t = 0; t < nthreads; t++) th.emplace_back([&, t] {
            std::mt19937 g(seed * 7919 + t);
            for (int rd = 0; rd < rounds; rd++) {
                vector<size_t> order(lines.size());
                for (size_t i = 0; i < order.size(); i++) order[i] = i;
                // even rounds: everybody the same request at the same time; odd: own order
                if (rd & 1) std::shuffle(order.begin(), order.end(), g);
                bar.arrive_and_wait();
                for (size_t i : order) {
                    if (!(rd & 1)) bar.arrive_and_wait();
                    else for (unsigned k = g() % 64; k; k--) asm volatile("pause");
                    if (active[i].fetch_add(1, std::memory_order_relaxed) > 0) overlaps.fetch_add(1, std::memory_order_relaxed);
                    long f = inflight.fetch_add(1, std::memory_order_relaxed) + 1;
                    long m = maxin.load(std::memory_order_relaxed);
                    while (f > m && !maxin.compare_exchange_weak(m, f, std::memory_order_relaxed)) {}
                    string id, rp = execute(lines[i], id);
                    inflight.fetch_sub(1, std::memory_order_relaxed);
                    active[i].fetch_sub(1, std::memory_order_relaxed);
                    calls.fetch_add(1, std::memory_order_relaxed);
                    string& slot = rep[t][i];
                    if (slot.empty()) slot = rp;
                    else if (slot != rp) bad[t].push_back(id + " CONC " + slot + " | " + rp);
                }
            }
        });
        for (auto& t : th) t.join();
        for (size_t i = 0; i < lines.size(); i++) {
            string id = lines[i].substr(0, lines[i].find(' '));
            printf("%s %s\n", id.c_str(), rep[0][i].c_str());
            for (int t = 1; t < nthreads; t++)
                if (rep[t][i] != rep[0][i]) printf("%s CONC %s | %s\n", id.c_str(), rep[0][i].c_str(), rep[t][i].c_str());
        }
        for (auto& b : bad) for (auto& s : b) printf("%s\n", s.c_str());
        printf("#stats calls=%ld same_op_overlaps=%ld max_inflight=%ld threads=%d\n", calls.load(), overlaps.load(), maxin.load(), nthreads);
        return 0;
    }
    while (readLine(l)) {
        if (l.empty()) continue;
        if (fork_) {
            fflush(stdout);
            pid_t p = fork();
            if (p == 0) {
                string id, rp = execute(l, id);
                printf("%s %s\n", id.c_str(), rp.c_str());
                fflush(stdout);
                _exit(0);
            }
            int st = 0;
            waitpid(p, &st, 0);
            if (st) { printf("%s !crash status=%d\n", l.substr(0, l.find(' ')).c_str(), st); }
            continue;
        }
        if (meter) {
            if (!meterStart) return 97;
            string id; size_t n = 0; bool bad = false;
            id.reserve(256);
            meterStart();
            { string rp = execute(l, id); n = rp.size(); bad = rp.rfind("!bad", 0) == 0; }
            MeterVals v = meterStop();
            printf("%s %s%ld %ld %ld %ld %zu\n", id.c_str(), bad ? "!bad " : "", v.work, v.peak, v.kept, v.stack, n);
            fflush(stdout);
            continue;
        }
        if (poison >= 0) { poisonHeap(poison); poisonStack(poison); }
        string id, rp = execute(l, id);
        printf("%s %s\n", id.c_str(), rp.c_str());
        fflush(stdout);
    }
    return 0;
}
