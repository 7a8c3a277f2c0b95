#include "seq.h"
#include <atomic>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <malloc.h>
#include <new>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" int __sanitizer_install_malloc_and_free_hooks(
        void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" const char * __asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=0:"
           "allocator_may_return_null=1:detect_stack_use_after_return=0:"
           "strict_string_checks=1:alloc_dealloc_mismatch=0:"
           "quarantine_size_mb=16:malloc_context_size=8:detect_invalid_pointer_pairs=0:"
           "max_malloc_fill_size=256:malloc_fill_byte=190";
}
extern "C" const char * __ubsan_default_options() {
    return "print_stacktrace=1:halt_on_error=1:exitcode=99";
}

namespace seq {
namespace {

constexpr int MAXC = 4096;
struct Shared {
    std::atomic<int> failed; /* 0 no, 1 claimed, 2 written */
    int n;
    std::uint16_t ch[MAXC];
    std::uint16_t of[MAXC];
    char msg[512];
    std::atomic<std::uint64_t> paths, trans, maxlen;
    std::atomic<std::uint64_t> states, statesDropped;
    std::atomic<int> nextPrefix;
    std::atomic<int> capped;
    std::atomic<int> nSamples;
    char samples[6][256];
};
constexpr std::size_t HBITS = 23;
Shared * S;
std::atomic<std::uint64_t> * H;

Test * tests;
std::uint16_t cur[MAXC], lim[MAXC];
int len, pos; /* len = length of the predetermined vector */
bool verbose = false, replaying = false;
int curDepth; bool curThorough;
volatile bool inPath;
long live; bool leaksOk;
int faultsLeft, fired;
bool engineCall;
std::uint64_t trans;
double deadline;

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

void onMalloc(const volatile void *, size_t) { if (inPath && !engineCall) ++live; }
void onFree(const volatile void * p) { if (p && inPath && !engineCall) --live; }

void report(char const * msg) {
    int z = 0;
    if (!S->failed.compare_exchange_strong(z, 1)) return;
    S->n = pos;
    std::memcpy(S->ch, cur, sizeof(cur)); std::memcpy(S->of, lim, sizeof(lim));
    std::snprintf(S->msg, sizeof(S->msg), "%s", msg);
    S->failed.store(2);
}
void onDeath() { if (inPath) report("memory error or undefined behaviour (sanitizer report)"); }
extern "C" void __ubsan_on_report() {
    if (inPath) report("undefined behaviour (UBSan report)");
    if (!verbose) _exit(96);
}
void onSignal(int s) {
    if (inPath) {
        if (s == SIGVTALRM) report("the code does not terminate (10 s of CPU time in one path)");
        else if (s == SIGALRM) report("the code does not return (40 s in one path)");
        else { char b[128]; std::snprintf(b, sizeof(b), "killed by signal %d (%s)", s, s == SIGABRT ? "assertion failure, std::terminate or abort" : strsignal(s)); report(b); }
    }
    _exit(98);
}
void arm() { itimerval t{}; t.it_value.tv_sec = 10; setitimer(ITIMER_VIRTUAL, &t, nullptr); t.it_value.tv_sec = 40; setitimer(ITIMER_REAL, &t, nullptr); }
std::uint64_t lastArm;

void runPath(Test * t) {
    pos = 0; live = 0; leaksOk = false; faultsLeft = 0; fired = 0;
    long const tr0 = Tracked::live;
    std::uint64_t const tsc = __builtin_ia32_rdtsc(); if (tsc - lastArm > 300000000u) { lastArm = tsc; arm(); }
    inPath = true;
    t->fn();
    faultsLeft = 0;
    if (!leaksOk) {
        if (Tracked::live != tr0) { Tracked::live = tr0; fail("objects leaked or destroyed twice: %ld", Tracked::live - tr0); }
    }
    long const l = live;
    inPath = false;
    if (l != 0 && !leaksOk) {
        /* First-use statics of the C library may stay: run again. */
        int const n = pos; (void) n;
        pos = 0; live = 0; faultsLeft = 0; fired = 0;
        inPath = true; t->fn(); faultsLeft = 0;
        if (live != 0) fail("memory leak: %ld heap blocks still live at the end", live);
        inPath = false;
    }
    len = pos;
}
/* While enumerating prefixes of expensive tests, each runs in a process of its own which ends at the cut. */
struct Cut { int len, longer; std::uint16_t c[64], l[64]; };
Cut * C = nullptr;
int cutAt = -1;
[[noreturn]] void cutPath(bool longer) { C->len = longer ? cutAt : len; C->longer = longer; for (int i = 0; i < C->len; ++i) { C->c[i] = cur[i]; C->l[i] = lim[i]; } _exit(77); }
bool nextPath(int base) {
    while (len > base) {
        if (cur[len - 1] + 1 < lim[len - 1]) { ++cur[len - 1]; return true; }
        --len;
    }
    return false;
}
struct Prefix { std::vector<std::uint16_t> c, l; };

void setupChild() {
    lastArm = 0;
    if (!verbose && !freopen("/dev/null", "w", stderr)) {}
    __sanitizer_set_death_callback(&onDeath);
    std::signal(SIGABRT, &onSignal); std::signal(SIGVTALRM, &onSignal);
    for (int s : { SIGFPE, SIGILL, SIGTRAP, SIGSYS, SIGALRM, SIGUSR1, SIGUSR2, SIGXFSZ }) std::signal(s, &onSignal);
    std::signal(SIGPIPE, SIG_IGN);
    std::atexit([] { if (inPath) report("the code under test ended the process"); });
}
void worker(Test * t, std::vector<Prefix> const & ps) {
    setupChild();
    for (;;) {
        int const i = S->nextPrefix.fetch_add(1);
        if (i >= (int) ps.size()) break;
        Prefix const & p = ps[i];
        int const base = (int) p.c.size();
        for (int j = 0; j < base; ++j) { cur[j] = p.c[j]; lim[j] = p.l[j]; }
        len = base;
        std::uint64_t paths = 0;
        do {
            trans = 0;
            runPath(t);
            ++paths; S->trans.fetch_add(trans, std::memory_order_relaxed);
            if ((std::uint64_t) len > S->maxlen.load(std::memory_order_relaxed)) S->maxlen = len;
            if ((paths & 63) == 0) {
                if (S->failed.load() ) _exit(0);
                if (now() > deadline) { S->capped = 1; S->paths += paths; _exit(0); }
            }
        } while (nextPath(base));
        S->paths += paths;
        if (S->failed.load()) _exit(0);
        if (now() > deadline) { S->capped = 1; _exit(0); }
    }
    std::fflush(stdout);
    _exit(0);
}
std::string jsonEsc(char const * s) {
    std::string r;
    for (; *s; ++s) { if (*s == '"' || *s == '\\') { r += '\\'; r += *s; } else if ((unsigned char) *s < 32) r += ' '; else r += *s; }
    return r;
}
} /* anonymous */

long Tracked::live = 0;

Test::Test(char const * n, void (*f)(), int q, int t) : name(n), fn(f), quick(q), thorough(t), next(nullptr) {
    Test ** p = &tests; while (*p) p = &(*p)->next; *p = this;
}
void fail(char const * fmt, ...) {
    engineCall = true;
    char b[480]; va_list ap; va_start(ap, fmt); std::vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
    if (verbose) { std::fprintf(stderr, "FAIL: %s\n", b); std::fflush(stderr); }
    report(b);
    _exit(97);
}
int choose(int n) {
    if (n < 1) fail("harness error: choose(%d)", n);
    ++trans;
    if (pos >= MAXC) fail("harness error: too many choices");
    if (pos >= len) { cur[pos] = 0; lim[pos] = (std::uint16_t) n; if (pos >= len) len = pos + 1; }
    else if (lim[pos] != n) {
        if (replaying || lim[pos] == 0xffffu) lim[pos] = (std::uint16_t) n;
        else fail("harness nondeterminism: choice %d has %d answers, expected %d", pos, n, lim[pos]);
    }
    if (cutAt >= 0 && pos + 1 >= cutAt) cutPath(true);
    return cur[pos++];
}
int depth() { return curDepth; }
bool thorough() { return curThorough; }
void op(char const * fmt, ...) {
    if (!verbose) return;
    bool const e = engineCall; engineCall = true;
    va_list ap; va_start(ap, fmt); std::vfprintf(stderr, fmt, ap); va_end(ap);
    std::fputc('\n', stderr); std::fflush(stderr);
    engineCall = e;
}
void state(std::uint64_t h) {
    h = mix(h, 0x1234567); if (!h) h = 1;
    std::size_t i = h >> (64 - HBITS);
    for (int k = 0; k < 64; ++k, i = (i + 1) & ((std::size_t(1) << HBITS) - 1)) {
        std::uint64_t v = H[i].load(std::memory_order_relaxed);
        if (v == h) return;
        if (v == 0) {
            if (H[i].compare_exchange_strong(v, h)) { S->states.fetch_add(1, std::memory_order_relaxed); return; }
            if (v == h) return;
        }
    }
    S->statesDropped.fetch_add(1, std::memory_order_relaxed);
}
void count(std::uint64_t n) { trans += n; }
void progress() { arm(); }
long liveBlocks() { return live; }
void armAllocFaults(int m) { faultsLeft = m; }
void disarmAllocFaults() { faultsLeft = 0; }
int faultsFired() { return fired; }
void allowLeaks() { leaksOk = true; }
void sample(char const * fmt, ...) {
    if (S->nSamples.load(std::memory_order_relaxed) >= 6) return;
    int const i = S->nSamples.fetch_add(1);
    if (i >= 6) return;
    bool const e = engineCall; engineCall = true;
    va_list ap; va_start(ap, fmt); std::vsnprintf(S->samples[i], 256, fmt, ap); va_end(ap);
    engineCall = e;
}
bool allocFault() {
    if (!inPath || faultsLeft <= 0 || engineCall) return false;
    if (choose(2) == 0) return false;
    --faultsLeft; ++fired;
    op("  [allocation fails]");
    return true;
}
} /* namespace seq */

static void * opNew(std::size_t n, std::size_t al) {
    if (seq::allocFault()) return nullptr;
    void * p = nullptr;
    if (al > alignof(std::max_align_t)) { if (posix_memalign(&p, al, n ? n : 1)) p = nullptr; }
    else p = std::malloc(n ? n : 1);
    return p;
}
void * operator new(std::size_t n) { void * p = opNew(n, 0); if (!p) throw std::bad_alloc(); return p; }
void * operator new[](std::size_t n) { void * p = opNew(n, 0); if (!p) throw std::bad_alloc(); return p; }
void * operator new(std::size_t n, std::nothrow_t const &) noexcept { return opNew(n, 0); }
void * operator new[](std::size_t n, std::nothrow_t const &) noexcept { return opNew(n, 0); }
void operator delete(void * p) noexcept { std::free(p); }
void operator delete[](void * p) noexcept { std::free(p); }
void operator delete(void * p, std::size_t) noexcept { std::free(p); }
void operator delete[](void * p, std::size_t) noexcept { std::free(p); }
void operator delete(void * p, std::nothrow_t const &) noexcept { std::free(p); }
void operator delete[](void * p, std::nothrow_t const &) noexcept { std::free(p); }

int main(int argc, char ** argv) {
    using namespace seq;
    std::string tier = "quick", only, replay, out; double budget = 60; int jobs = 8; int depthOverride = -1; bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") tier = nx(); else if (a == "--scenario") only = nx();
        else if (a == "--budget") budget = std::atof(nx().c_str());
        else if (a == "--jobs") jobs = std::atoi(nx().c_str());
        else if (a == "--bound") depthOverride = std::atoi(nx().c_str());
        else if (a == "--replay") replay = nx();
        else if (a == "--out") out = nx();
        else if (a == "--list") list = true;
        else if (a == "--trace") nx();
    }
    S = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    H = (std::atomic<std::uint64_t> *) mmap(nullptr, sizeof(std::uint64_t) << HBITS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    __sanitizer_install_malloc_and_free_hooks(&onMalloc, &onFree);
    curThorough = tier == "thorough";
    if (list) { for (Test * t = tests; t; t = t->next) std::printf("%s\n", t->name); return 0; }
    if (!replay.empty()) {
        FILE * f = std::fopen(replay.c_str(), "r"); if (!f) { std::perror("replay"); return 2; }
        char nm[256]; int d, n, th;
        if (std::fscanf(f, " scenario %255s bound %d tier %d choices %d", nm, &d, &th, &n) != 4) { std::fprintf(stderr, "bad replay file\n"); return 2; }
        for (int i = 0; i < n && i < MAXC; ++i) { unsigned a, b; if (std::fscanf(f, " %u/%u", &a, &b) != 2) return 2; cur[i] = a; lim[i] = b; }
        len = n; verbose = true; replaying = true; curDepth = d; curThorough = th;
        for (Test * t = tests; t; t = t->next) if (!std::strcmp(t->name, nm)) {
            setupChild(); runPath(t);
            std::fprintf(stderr, "path finished without a violation\n"); return 0;
        }
        return 2;
    }
    double const tEnd = now() + budget;
    int nTests = 0, done = 0; for (Test * t = tests; t; t = t->next) if ((only.empty() || only == t->name) && (curThorough ? t->thorough : t->quick) >= 0) ++nTests;
    int rc = 0;
    std::string lines;
    for (Test * t = tests; t; t = t->next) {
        if (!only.empty() && only != t->name) continue;
        curDepth = depthOverride >= 0 ? depthOverride : curThorough ? t->thorough : t->quick;
        if (curDepth < 0) continue;
        if (rc == 1 && now() > tEnd) break; /* the answer is known */
        double const t0 = now();
        deadline = t0 + (tEnd - t0) / (nTests - done); ++done;
        std::memset((void *) S, 0, sizeof(Shared));
        madvise(H, sizeof(std::uint64_t) << HBITS, MADV_REMOVE);
        std::memset(cur, 0, sizeof(cur)); std::memset(lim, 0, sizeof(lim));
        /* Phase 1: enumerate prefixes in a child (the code may crash). */
        struct PS { std::atomic<int> n; int k; struct { int len; std::uint16_t c[24], l[24]; } p[8192]; };
        PS * P = (PS *) mmap(nullptr, sizeof(PS), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        std::fflush(stdout);
        pid_t const c = fork();
        if (c == 0) {
            setupChild();
            double const start = now(); bool slow = false;
            C = (Cut *) mmap(nullptr, sizeof(Cut), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            for (int k = 0; k <= 24; ++k) {
                /* all prefixes of length <= k */
                std::vector<Prefix> v; len = 0; bool longer = false, over = false;
                for (;;) {
                    bool full;
                    if (slow && k == 0) { len = 0; full = true; }
                    else if (slow) {
                        std::fflush(stdout);
                        pid_t const q = fork();
                        if (q == 0) { lastArm = 0; cutAt = k ? k : -1; runPath(t); len = pos; cutPath(false); }
                        int s2; while (waitpid(q, &s2, 0) < 0) {}
                        arm();
                        if (!(WIFEXITED(s2) && WEXITSTATUS(s2) == 77)) _exit(1);
                        len = C->len; full = C->longer; for (int i = 0; i < len; ++i) { cur[i] = C->c[i]; lim[i] = C->l[i]; }
                    } else {
                        runPath(t);
                        full = len > k;
                        if (full) len = k;
                        if (now() - start > 0.3) { slow = true; over = true; break; }
                    }
                    longer |= full;
                    Prefix p; p.c.assign(cur, cur + len); p.l.assign(lim, lim + len); v.push_back(p);
                    if (v.size() > 8000) break;
                    if (!nextPath(0)) break;
                }
                if (over) { --k; continue; }
                if (v.size() > 8000) break;
                int i = 0;
                for (auto & p : v) { P->p[i].len = p.c.size(); for (std::size_t j = 0; j < p.c.size(); ++j) { P->p[i].c[j] = p.c[j]; P->p[i].l[j] = p.l[j]; } ++i; }
                P->n = i; P->k = k;
                if (i >= 256 || !longer) break;
            }
            _exit(0);
        }
        int st; while (waitpid(c, &st, 0) < 0) {}
        bool internal = false;
        if (!S->failed.load()) {
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { internal = true; }
            std::vector<Prefix> ps;
            for (int i = 0; i < P->n; ++i) { Prefix p; p.c.assign(P->p[i].c, P->p[i].c + P->p[i].len); p.l.assign(P->p[i].l, P->p[i].l + P->p[i].len); ps.push_back(p); }
            S->nextPrefix = 0; S->nSamples = 0;
            std::vector<pid_t> kids;
            int const nj = std::min<int>(jobs, std::max<std::size_t>(1, ps.size()));
            for (int j = 0; j < nj; ++j) { std::fflush(stdout); pid_t q = fork(); if (q == 0) worker(t, ps); kids.push_back(q); }
            for (pid_t q : kids) { int s2; while (waitpid(q, &s2, 0) < 0) {} if (!(WIFEXITED(s2) && WEXITSTATUS(s2) == 0) && !S->failed.load()) internal = true; }
        }
        munmap(P, sizeof(PS));
        char b[4096];
        if (S->failed.load()) {
            while (S->failed.load() != 2) usleep(1000);
            bool const herr = std::strstr(S->msg, "harness ") == S->msg;
            std::string r = "scenario " + std::string(t->name) + " bound " + std::to_string(curDepth) + " tier " + std::to_string((int) curThorough) + " choices " + std::to_string(S->n);
            for (int i = 0; i < S->n; ++i) { r += " " + std::to_string(S->ch[i]) + "/" + std::to_string(S->of[i]); }
            /* Reproduce in a fresh child. */
            std::string const m = S->msg; int const n = S->n;
            for (int i = 0; i < n; ++i) { cur[i] = S->ch[i]; lim[i] = S->of[i]; }
            for (int i = n; i < MAXC; ++i) { cur[i] = 0; lim[i] = 0; }
            S->failed = 0;
            std::fflush(stdout);
            pid_t const c2 = fork();
            if (c2 == 0) { len = n; replaying = true; setupChild(); if (!freopen("/dev/null", "w", stderr)) {} runPath(t); _exit(0); }
            while (waitpid(c2, &st, 0) < 0) {}
            bool const rep = S->failed.load() != 0 || !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
            lines += "{\"scenario\":\"" + std::string(t->name) + "\",\"violation\":\"" + jsonEsc(m.c_str()) + "\",\"reproduced\":" + (rep ? "true" : "false") + ",\"replay\":\"" + r + "\"}\n";
            if (herr) rc = 2; else if (rep) { if (rc == 0) rc = 1; } else rc = 2;
            if (rc) continue;
        } else if (internal) {
            lines += "{\"scenario\":\"" + std::string(t->name) + "\",\"internal_error\":\"worker died without a report\"}\n"; rc = 2; continue;
        }
        std::string smp;
        for (int i = 0; i < 6 && i < S->nSamples.load(); ++i) { if (i) smp += ","; smp += "\"" + jsonEsc(S->samples[i]) + "\""; }
        std::snprintf(b, sizeof(b), "{\"scenario\":\"%s\",\"bound_completed\":%d,\"bound_wanted\":%d,\"capped\":%s,\"executions\":%llu,\"states\":%llu,\"states_uncounted\":%llu,\"transitions\":%llu,\"max_steps\":%llu,\"wall_s\":%.3f,\"samples\":[",
            t->name, S->capped.load() ? -1 : curDepth, curDepth, S->capped.load() ? "true" : "false",
            (unsigned long long) S->paths.load(), (unsigned long long) S->states.load(), (unsigned long long) S->statesDropped.load(),
            (unsigned long long) S->trans.load(), (unsigned long long) S->maxlen.load(), now() - t0);
        lines += b; lines += smp + "]}\n";
    }
    if (out.empty()) std::fputs(lines.c_str(), stdout);
    else { FILE * f = std::fopen(out.c_str(), "w"); if (!f) return 2; std::fputs(lines.c_str(), f); std::fclose(f); }
    std::fflush(stdout);
    return rc;
}
