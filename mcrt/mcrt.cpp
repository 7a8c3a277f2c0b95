/* mcrt: a stateless model checker runtime for C++ programs compiled with
   -fsanitize=thread (whose runtime library this file replaces).

   - every thread is a fiber; exactly one runs; all switches are decisions;
   - decisions are enumerated depth first under a deviation bound, in parallel
     worker processes, with happens-before state caching;
   - plain accesses are checked by a vector clock race detector (which is what
     makes scheduling points at synchronisation operations sufficient);
   - atomics keep their store history, so weak loads may return older values;
   - mutexes, condition variables, threads, clocks and the heap are modelled.

   This file must be compiled WITHOUT -fsanitize=thread and must not instantiate
   standard library templates (they would be shared with instrumented code). */
#include "mc.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <initializer_list>
#include <typeinfo>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" char __libc_single_threaded;
extern "C" void * __libc_malloc(size_t);
extern "C" void __libc_free(void *);
extern "C" void * __libc_calloc(size_t, size_t);
extern "C" void * __libc_realloc(void *, size_t);
extern "C" void * __libc_memalign(size_t, size_t);

extern "C" { static void resolveEh(); }

namespace {

using u8 = unsigned char; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
using i64 = std::int64_t; using u128 = unsigned __int128;

constexpr int TMAX = 8;
constexpr u64 ARENA_BASE = 0x200000000000ull, ARENA_SZ = 4u << 20;
constexpr u64 STACK_BASE = 0x210000000000ull, STACK_SZ = 256u << 10;
constexpr int MAXCHOICES = 6000;
constexpr u32 MAXSTEPS = 40000;

inline u64 mix(u64 a, u64 b) {
    u64 x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C159E3779B9ull + (a << 6) + (a >> 2));
    x ^= x >> 32; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 29; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 32;
    return x;
}

struct VC { u32 c[TMAX]; };
inline void join(VC & a, VC const & b) { for (int i = 0; i < TMAX; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

enum Op : u8 { OP_START, OP_LOCK, OP_TRYLOCK, OP_UNLOCK, OP_CWAIT, OP_CWAKE, OP_RELOCK, OP_SIGNAL, OP_ATOMIC,
               OP_JOIN, OP_CREATE, OP_EXIT, OP_YIELD, OP_SLEEP, OP_POINT, OP_BLOCK, OP_FINISHED };
char const * const opName[] = { "start", "lock", "trylock", "unlock", "cond-wait", "cond-wake", "relock", "signal",
    "atomic", "join", "create", "exit", "yield", "sleep", "point", "block", "finished" };

struct Obs { u64 addr, h; u64 site; int n; };
struct AtExit { void (*fn)(void *); void * arg; };

struct Thread {
    int id; bool alive, detached, joined, joining; Op op; void * obj; void * obj2;
    bool (*pred)(void *); void * predArg;
    bool timed, signalled, timedOut; i64 deadline;
    void * sp; VC vc; VC acqPending; VC relFence; bool hasRelFence;
    u64 h; void * (*fn)(void *); void * arg; void * ret;
    bool parked; Obs obs[24]; int nobs; int npoints;
    u32 yieldMask; /* threads which must run before this one */
    u64 eh[2]; int err; char * tls; AtExit ax[32]; int nax;
    int joinTarget; void const * pc; int noSched;
    char const * what;
};

struct ReadRec { u32 epoch; int idx; };
struct Store { u128 val; VC rel; u64 h; u32 epoch; u8 tid; bool hasRel, sc; int relHead; };
struct Loc { u64 addr; u32 gen; int size; int n, cap; Store * st; int lastSc;
    ReadRec * rd[TMAX]; int nrd[TMAX], crd[TMAX]; };

enum Kind : u8 { K_MUTEX, K_COND, K_SYS };
struct Obj { u64 addr; u32 gen; u8 kind; VC clk; u64 h; int owner; int count; bool recursive; int w[TMAX]; int nw; };

struct Lane { u8 mask; u32 ep[4][TMAX]; Lane * next; };
struct Cell { u64 key; u32 gen; bool loc; Lane * lanes; };

/* ---- shared memory among workers ---- */
struct Choice { u16 chosen, n; };
struct Item { int len; Choice c[MAXCHOICES]; };
constexpr int QCAP = 512;
constexpr u64 VISITED = 1ull << 25;
struct Shm {
    volatile int lock; int qn; int active; volatile int stop; volatile int capped;
    volatile int violated; char msg[2048]; int vlen; Choice vc[MAXCHOICES]; char phase[64];
    volatile int ierr; char imsg[512];
    volatile u64 execs, steps, choicePts, prunes, states, transitions, maxSteps, maxThreads, nAccess;
    volatile u64 outcomes[4096]; volatile u64 nOutcomes; volatile u64 visitedFull;
    Item q[QCAP];
    alignas(4096) u64 visited[VISITED];
};
Shm * shm;

/* ---- per process state ---- */
Thread thr[TMAX]; int nthr; Thread * cur; void * driverSp;
bool active; /* inside an execution, on a fiber */
int rtDepth;
bool verbose; FILE * trace;
u32 gen = 1;
i64 nowT; u64 steps; u64 accesses, accAtStep;
unsigned flags; int bound; int usedBudget;
int livelockRounds; u64 ghostH; long ghosts[64]; long glog[8][256]; int nglog[8]; u64 stampCtr;
u64 outcomeH; bool armed; u64 seqSc;
bool noBranch; Choice path[MAXCHOICES]; int npath; int prefixLen; Choice prefix[MAXCHOICES];
mc::Scenario * scenarios; mc::Scenario * curScenario;
i64 deadlineWall; bool ended;
char * arenaCur[TMAX]; u8 * arenaMap[TMAX]; char * arenaHi[TMAX]; long liveBlk;
size_t tlsSize; char * tlsBase; char const * tlsImage; size_t tlsImageSz;
Loc locs[2048]; Obj objs[1024]; u16 objList[1024]; int nObj;
Cell * cells; constexpr u32 NCELLS = 1u << 16; Lane * lanePool; u32 nLane; constexpr u32 NLANES = 1u << 16;
bool replayMode; int replayedPast;
u64 execsLocal;

i64 wallNs() { timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec * 1000000000ll + ts.tv_nsec; }

struct Rt { Rt() { ++rtDepth; } ~Rt() { --rtDepth; } };

void spinLock() { while (__atomic_exchange_n(&shm->lock, 1, __ATOMIC_ACQUIRE)) syscall(SYS_sched_yield); }
void spinUnlock() { __atomic_store_n(&shm->lock, 0, __ATOMIC_RELEASE); }

[[noreturn]] void ierr(char const * fmt, ...) {
    ++rtDepth;
    va_list ap; va_start(ap, fmt);
    if (shm) { spinLock(); if (!shm->ierr) { vsnprintf(shm->imsg, sizeof shm->imsg, fmt, ap); shm->ierr = 1; } shm->stop = 1; spinUnlock(); }
    else { vfprintf(stderr, fmt, ap); fputc('\n', stderr); }
    va_end(ap); _exit(4);
}

void traceEv(char const * fmt, ...) {
    if (!verbose) return;
    ++rtDepth;
    va_list ap; va_start(ap, fmt);
    fprintf(trace, "%6llu T%d ", (unsigned long long) steps, cur ? cur->id : -1);
    vfprintf(trace, fmt, ap); fputc('\n', trace);
    va_end(ap); --rtDepth;
}

[[noreturn]] void violation(char const * msg) {
    ++rtDepth;
    if (verbose) { fprintf(trace, "VIOLATION: %s\n", msg); 
        for (int i = 0; i < nthr; ++i) fprintf(trace, "  thread %d: %s pending=%s obj=%p %s pc=%p\n", i, thr[i].alive ? "alive" : "finished",
            opName[thr[i].op], thr[i].obj, thr[i].what ? thr[i].what : "", thr[i].pc);
        fflush(trace); }
    spinLock();
    if (!shm->violated) { shm->violated = 1; snprintf(shm->msg, sizeof shm->msg, "%s", msg);
        shm->vlen = npath; memcpy(shm->vc, path, sizeof(Choice) * (size_t) npath); }
    shm->stop = 1;
    spinUnlock();
    _exit(3);
}
[[noreturn]] void violationf(char const * fmt, ...) {
    ++rtDepth; char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); violation(b);
}

/* ---- context switch ---- */
extern "C" void mcSwitch(void ** save, void * to);
asm(R"(
.text
.globl mcSwitch
.type mcSwitch,@function
mcSwitch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mcSwitch,.-mcSwitch
)");

u64 * ehGlobals;
void saveTls(Thread * t) { t->eh[0] = ehGlobals[0]; t->eh[1] = ehGlobals[1]; t->err = errno; if (tlsSize) memcpy(t->tls, tlsBase, tlsSize); }
void loadTls(Thread * t) { ehGlobals[0] = t->eh[0]; ehGlobals[1] = t->eh[1]; errno = t->err; if (tlsSize) memcpy(tlsBase, t->tls, tlsSize); }

void switchTo(Thread * t) {
    Thread * me = cur;
    if (t == me) return;
    saveTls(me); loadTls(t); cur = t;
    mcSwitch(&me->sp, t->sp);
}

/* ---- sync objects ---- */
Obj * getObj(void const * p, u8 kind) {
    u64 a = (u64) p; u32 i = (u32) (mix(a, kind) & 1023);
    for (int k = 0; k < 1024; ++k, i = (i + 1) & 1023) {
        Obj & o = objs[i];
        if (o.gen != gen) { memset(&o, 0, sizeof o); o.addr = a; o.gen = gen; o.kind = kind; o.owner = -1; o.h = mix(a, kind); objList[nObj++] = (u16) i; return &o; }
        if (o.addr == a && o.kind == kind) return &o;
    }
    ierr("too many synchronisation objects");
}

/* ---- shadow ---- */
Cell * getCell(u64 key, bool create) {
    u32 i = (u32) (mix(key, 77) & (NCELLS - 1));
    for (u32 k = 0; k < NCELLS; ++k, i = (i + 1) & (NCELLS - 1)) {
        Cell & c = cells[i];
        if (c.gen != gen) { if (!create) return nullptr; c.key = key; c.gen = gen; c.loc = false; c.lanes = nullptr; return &c; }
        if (c.key == key) return &c;
    }
    ierr("shadow table full");
}
Lane * newLane(u8 mask) { if (nLane >= NLANES) ierr("too many shadow lanes"); Lane * l = &lanePool[nLane++]; memset(l, 0, sizeof *l); l->mask = mask; return l; }

Loc * findLoc(u64 a, bool create) {
    u32 i = (u32) (mix(a, 5) & 2047);
    for (u32 k = 0; k < 2048; ++k, i = (i + 1) & 2047) {
        Loc & l = locs[i];
        if (l.gen != gen) { if (!create) return nullptr; l.addr = a; l.gen = gen; l.size = 0; l.n = 0; l.lastSc = -1; for (int t = 0; t < TMAX; ++t) l.nrd[t] = 0; return &l; }
        if (l.addr == a) return &l;
    }
    ierr("too many atomic locations");
}

int arenaOf(u64 a) { if (a < ARENA_BASE || a >= ARENA_BASE + ARENA_SZ * TMAX) return -1; return (int) ((a - ARENA_BASE) / ARENA_SZ); }

void heapCheck(u64 a, u64 n, bool w, void const * pc) {
    int const ar = arenaOf(a); if (ar < 0) return;
    u64 const off = a - ARENA_BASE - ARENA_SZ * (u64) ar;
    for (u64 g = off >> 3; g <= (off + n - 1) >> 3; ++g) {
        u8 const s = arenaMap[ar][g];
        if (s == 1) continue;
        violationf("%s %s at %p (%llu bytes) pc=%p", s == 2 ? "use after free:" : "heap out-of-bounds access:", w ? "write" : "read", (void *) a, (unsigned long long) n, pc);
    }
}

char const * const kindName[4] = { "plain write", "plain read", "atomic write", "atomic read" };
void access(u64 a, u64 n, bool w, bool atomic, void const * pc, bool freeing = false) {
    if (!n || a - (u64) tlsBase < tlsSize || a == (u64) &errno) return; /* thread-local storage is swapped */
    if (++accesses - accAtStep > 5000000) violation("execution hangs: a thread runs without reaching a scheduling point");
    if (!freeing) heapCheck(a, n, w, pc);
    if (verbose && accesses - accAtStep < 3000) traceEv("  access %s%s %p+%llu pc=%p", freeing ? "free " : "", kindName[(atomic ? 2 : 0) + (w ? 0 : 1)], (void *) a, (unsigned long long) n, pc);
    Thread * t = cur; int const k = (atomic ? 2 : 0) + (w ? 0 : 1);
    static u8 const conflicts[4] = { 0xf, 0x5, 0x3, 0x1 };
    u8 const cf = conflicts[k];
    u64 const end = a + n;
    for (u64 g = a >> 3; g <= (end - 1) >> 3; ++g) {
        u64 lo = g << 3, hi = lo + 8; if (a > lo) lo = a; if (end < hi) hi = end;
        u8 m = (u8) (((1u << (hi - lo)) - 1u) << (lo & 7));
        Cell * c = getCell(g, true);
        if (c->loc && w && !atomic) { /* plain write over an atomic: history restarts */
            for (u64 b = lo; b < hi; ++b) { Loc * l = findLoc(b, false); if (l) { l->n = 0; l->lastSc = -1; for (int q = 0; q < TMAX; ++q) l->nrd[q] = 0; } }
        }
        if (atomic) c->loc = true;
        u8 left = m;
        for (Lane * l = c->lanes; l && left; l = l->next) {
            u8 const in = l->mask & m; if (!in) continue;
            if (in != l->mask) { Lane * r = newLane((u8) (l->mask & ~m)); memcpy(r->ep, l->ep, sizeof r->ep); r->next = l->next; l->next = r; l->mask = in; }
            left &= (u8) ~in;
            for (int kk = 0; kk < 4; ++kk) if (cf >> kk & 1) for (int u = 0; u < nthr; ++u)
                if (u != t->id && l->ep[kk][u] > t->vc.c[u])
                    violationf("data race: %s by thread %d at %p (%llu bytes, pc=%p) is unordered with an earlier %s by thread %d", freeing ? "deallocation" : kindName[k], t->id, (void *) a, (unsigned long long) n, pc, kindName[kk], u);
            l->ep[k][t->id] = t->vc.c[t->id];
        }
        if (left) { Lane * l = newLane(left); l->next = c->lanes; c->lanes = l; l->ep[k][t->id] = t->vc.c[t->id]; }
    }
}

/* ---- choice points ---- */
bool visit(u64 key) {
    if (!key) key = 1;
    u64 i = key & (VISITED - 1);
    for (int k = 0; k < 64; ++k, i = (i + 1) & (VISITED - 1)) {
        u64 v = __atomic_load_n(&shm->visited[i], __ATOMIC_RELAXED);
        if (v == key) return true;
        if (!v) { u64 e = 0; if (__atomic_compare_exchange_n(&shm->visited[i], &e, key, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { __atomic_fetch_add(&shm->states, 1, __ATOMIC_RELAXED); return false; } if (e == key) return true; }
    }
    __atomic_store_n(&shm->visitedFull, 1, __ATOMIC_RELAXED);
    return false;
}

u64 stateKey() {
    u64 s = 0;
    for (int i = 0; i < nthr; ++i) {
        Thread & t = thr[i];
        u64 st = (u64) t.op | (u64) t.parked << 8 | (u64) t.signalled << 9 | (u64) t.timedOut << 10 | (u64) t.timed << 11 | (u64) t.alive << 12 | (u64) t.yieldMask << 16;
        s += mix(mix(t.h, st), (u64) i + 1);
    }
    return mix(mix(mix(s, (u64) cur->id), (u64) (bound - usedBudget)), mix((u64) nowT, mix(ghostH, (u64) livelockRounds)));
}

/* returns the index of the chosen alternative among n (n >= 1) */
int choicePoint(int n, u64 salt) {
    if (n <= 1) return 0;
    if (npath >= MAXCHOICES) violation("execution exceeds the choice horizon (livelock)");
    if (npath < prefixLen) {
        Choice c = prefix[npath];
        if (c.n != n || c.chosen >= n) {
            if (c.n == 1 && c.chosen == 0) {} /* pruned point */
            else ierr("replay diverged at choice %d: expected %d alternatives, found %d", npath, (int) c.n, n);
        }
        path[npath++] = c; return c.chosen;
    }
    if (replayMode) { path[npath].chosen = 0; path[npath].n = 1; ++npath; return 0; }
    if (!noBranch && visit(mix(stateKey(), salt))) { noBranch = true; __atomic_fetch_add(&shm->prunes, 1, __ATOMIC_RELAXED); }
    path[npath].chosen = 0; path[npath].n = noBranch ? 1 : (u16) n; ++npath;
    return 0;
}

/* ---- scheduler ---- */
bool mutexFree(void * m) { Obj * o = getObj(m, K_MUTEX); return o->owner < 0; }

bool enabled(Thread * t) {
    if (!t->alive) return false;
    switch (t->op) {
    case OP_LOCK: { Obj * o = getObj(t->obj, K_MUTEX); return o->owner < 0 || t->timedOut || (o->owner == t->id && o->recursive); }
    case OP_RELOCK: return mutexFree(t->obj2);
    case OP_CWAKE: return false;
    case OP_JOIN: return !thr[t->joinTarget].alive;
    case OP_SLEEP: return nowT >= t->deadline;
    case OP_BLOCK: { ++rtDepth; bool r = t->pred(t->predArg); --rtDepth; return r || t->timedOut; }
    case OP_FINISHED: return false;
    default: return true;
    }
}
bool timeoutable(Thread * t) {
    if (!t->alive || !t->timed) return false;
    if (t->op == OP_CWAKE) return true;
    if (t->op == OP_SLEEP) return nowT < t->deadline;
    if (t->op == OP_BLOCK || t->op == OP_LOCK) return !t->timedOut && !enabled(t);
    return false;
}

void wakeFromCond(Thread * t) { /* move to relock */
    Obj * c = getObj(t->obj, K_COND);
    for (int i = 0; i < c->nw; ++i) if (c->w[i] == t->id) { for (int j = i + 1; j < c->nw; ++j) c->w[j - 1] = c->w[j]; --c->nw; break; }
    t->op = OP_RELOCK;
}

void doTimeout(Thread * t) {
    if (t->deadline > nowT) { nowT = t->deadline; for (int i = 0; i < nthr; ++i) thr[i].parked = false; }
    t->timedOut = true; t->h = mix(t->h, 0x71e0);
    if (t->op == OP_CWAKE) { Obj * c = getObj(t->obj, K_COND); t->h = mix(t->h, c->h); c->h = mix(c->h, t->h); wakeFromCond(t); }
    ++steps;
    traceEv("-- timeout of T%d, now=%lld", t->id, (long long) nowT);
}
void doSpurious(Thread * t) {
    t->h = mix(t->h, 0x5b0); Obj * c = getObj(t->obj, K_COND); t->h = mix(t->h, c->h); c->h = mix(c->h, t->h);
    wakeFromCond(t); t->signalled = true; ++steps;
    traceEv("-- spurious wake-up of T%d", t->id);
}

void finishExecution();

void schedule() {
    for (;;) {
        accAtStep = accesses;
        if (++steps > MAXSTEPS) violation("execution exceeds the step horizon (livelock: the threads keep running without finishing)");
        /* candidates */
        struct Alt { u8 t, kind, cost; } alts[TMAX * 4]; int na = 0;
        bool en[TMAX]; int nen = 0;
        for (int i = 0; i < nthr; ++i) { en[i] = enabled(&thr[i]); if (en[i] && !thr[i].parked) ++nen; }
        u32 enMask = 0; for (int i = 0; i < nthr; ++i) if (en[i] && !thr[i].parked) enMask |= 1u << i;
        for (int i = 0; i < nthr; ++i) { thr[i].yieldMask &= enMask & ~(1u << i); }
        /* break cyclic yields */
        bool anyFree = false; for (int i = 0; i < nthr; ++i) if ((enMask >> i & 1) && !thr[i].yieldMask) anyFree = true;
        if (!anyFree) for (int i = 0; i < nthr; ++i) thr[i].yieldMask = 0;
        bool const curOk = (enMask >> cur->id & 1) && !cur->yieldMask;
        int const left = bound - usedBudget;
        auto add = [&](int t, int kind, int cost) { if (cost <= left) { alts[na].t = (u8) t; alts[na].kind = (u8) kind; alts[na].cost = (u8) cost; ++na; } };
        if (curOk) add(cur->id, 0, 0);
        for (int k = 1; k <= nthr; ++k) { int const i = (cur->id + k) % nthr;
            if (i == cur->id && curOk) continue;
            if (!(enMask >> i & 1) || thr[i].yieldMask) continue;
            add(i, 0, curOk ? 1 : 0);
        }
        bool const anyRun = na > 0;
        /* time-outs */
        int earliest = -1; for (int i = 0; i < nthr; ++i) if (timeoutable(&thr[i]) && (earliest < 0 || thr[i].deadline < thr[earliest].deadline)) earliest = i;
        if (earliest >= 0) {
            if (!anyRun) {
                add(earliest, 1, 0);
                for (int i = 0; i < nthr; ++i) if (i != earliest && timeoutable(&thr[i])) add(i, 1, thr[i].deadline == thr[earliest].deadline ? 0 : 1);
            } else {
                for (int i = 0; i < nthr; ++i) if (timeoutable(&thr[i])) {
                    if (thr[i].deadline <= nowT) add(i, 1, curOk ? 1 : 0);
                    else if (flags & mc::EARLYTIMEOUT) add(i, 1, 1);
                }
            }
        }
        if (flags & mc::SPURIOUS) for (int i = 0; i < nthr; ++i) if (thr[i].alive && thr[i].op == OP_CWAKE) add(i, 2, 1);
        bool const progress = anyRun || earliest >= 0;
        if (!progress) {
            bool anyParked = false, anyAlive = false;
            for (int i = 0; i < nthr; ++i) { if (thr[i].alive) anyAlive = true; if (thr[i].alive && thr[i].parked && en[i]) anyParked = true; }
            if (!anyAlive) ierr("scheduler called with no live thread");
            if (anyParked) {
                if (++livelockRounds > 30) violation("livelock: threads spin forever and no thread can make progress");
                for (int i = 0; i < nthr; ++i) { thr[i].parked = false; thr[i].nobs = 0; }
                continue;
            }
            char b[400]; int n = 0; for (int i = 0; i < nthr; ++i) if (thr[i].alive) n += snprintf(b + n, sizeof b - (size_t) n, " T%d:%s%s%s", i, opName[thr[i].op], thr[i].what ? "/" : "", thr[i].what ? thr[i].what : "");
            violationf("deadlock: no thread can run;%s", b);
        }
        int const c = choicePoint(na, 0x5c4ed);
        Alt const al = alts[c];
        usedBudget += al.cost;
        Thread * t = &thr[al.t];
        if (al.kind == 1) { doTimeout(t); continue; }
        if (al.kind == 2) { doSpurious(t); continue; }
        for (int i = 0; i < nthr; ++i) thr[i].yieldMask &= ~(1u << t->id);
        switchTo(t);
        return;
    }
}

/* called by the running thread before executing an operation */
void schedPoint(Op op, void * obj, void const * pc, char const * what = nullptr) {
    if (rtDepth > 1 && op != OP_FINISHED) ierr("scheduling point under mc::Quiet");
    Thread * t = cur;
    t->op = op; t->obj = obj; t->pc = pc; t->what = what;
    if (t->noSched) { if (!enabled(t)) ierr("blocking operation inside an atomic section"); return; }
    schedule(); ++t->npoints;
    if (verbose) traceEv("%s obj=%p %s pc=%p", opName[op], obj, what ? what : "", pc);
}

void effect(Thread * t) { t->nobs = 0; livelockRounds = 0; }
void wroteTo(u64 addr) {
    for (int i = 0; i < nthr; ++i) { Thread & t = thr[i]; if (!t.parked) continue;
        for (int k = 0; k < t.nobs; ++k) if (t.obs[k].addr == addr) { t.parked = false; t.nobs = 0; break; } }
}
void unparkAll() { for (int i = 0; i < nthr; ++i) if (thr[i].parked) { thr[i].parked = false; thr[i].nobs = 0; } }
/* The place in the program: the nearest return addresses on the stack of the running thread. */
__attribute__((noinline)) u64 callSite() {
    u64 const lo = STACK_BASE + STACK_SZ * (u64) cur->id, hi = lo + STACK_SZ - 64; u64 h = 0;
    u64 fp = (u64) __builtin_frame_address(0);
    for (int i = 0; i < 10 && fp >= lo && fp < hi && !(fp & 7); ++i) { u64 const * f = (u64 const *) fp; h = mix(h, f[1]); if (f[0] <= fp) break; fp = f[0]; }
    return h;
}
/* A thread which reads the same value from the same location at the same place of the program
   over and over again is taken to be spinning: it does not run until somebody else has written. */
void observe(u64 addr, u64 h) {
    Thread * t = cur; u64 const site = callSite();
    for (int k = 0; k < t->nobs; ++k) if (t->obs[k].addr == addr && t->obs[k].site == site) {
        if (t->obs[k].h == h) { if (++t->obs[k].n >= 3) t->parked = true; }
        else { t->obs[k].h = h; t->obs[k].n = 1; }
        return;
    }
    if (t->nobs < 24) { t->obs[t->nobs].addr = addr; t->obs[t->nobs].h = h; t->obs[t->nobs].site = site; t->obs[t->nobs].n = 1; ++t->nobs; }
}

/* ---- fibers ---- */
void threadExitActions(Thread * t) {
    --rtDepth;
    while (t->nax) { AtExit a = t->ax[--t->nax]; a.fn(a.arg); }
    ++rtDepth;
}
extern "C" void mcFiberMain() noexcept;
asm(R"(
.text
.globl mcFiberEntry
.type mcFiberEntry,@function
mcFiberEntry:
  .cfi_startproc
  .cfi_undefined rip
  xorl %ebp,%ebp
  call mcFiberMain
  hlt
  .cfi_endproc
)");
extern "C" void mcFiberEntry();

Thread * newThread(void * (*fn)(void *), void * arg) {
    if (nthr >= TMAX) ierr("too many threads");
    Thread * t = &thr[nthr]; char * tls = t->tls;
    memset(t, 0, sizeof *t); t->tls = tls;
    t->id = nthr++; t->alive = true; t->fn = fn; t->arg = arg; t->op = OP_START;
    t->h = mix(0x7474, (u64) t->id);
    if (tlsSize) { memcpy(t->tls, tlsImage, tlsImageSz); memset(t->tls + tlsImageSz, 0, tlsSize - tlsImageSz); }
    char * top = (char *) (STACK_BASE + STACK_SZ * (u64) (t->id + 1));
    void ** sp = (void **) (top - 64);
    sp = (void **) ((u64) sp & ~15ull);

    *--sp = (void *) &mcFiberEntry;
    for (int i = 0; i < 6; ++i) *--sp = nullptr;
    t->sp = sp;
    return t;
}

void exitThread(Thread * t) {
    threadExitActions(t);
    schedPoint(OP_EXIT, nullptr, nullptr);
    t->alive = false; t->op = OP_FINISHED; effect(t); unparkAll();
    t->vc.c[t->id]++;
}

} // namespace

extern "C" void mcFiberMain() noexcept {
    Thread * t = cur;
    if (verbose) traceEv("thread start");
    --rtDepth;
    if (t->id == 0) { curScenario->fn(); }
    else { t->ret = t->fn(t->arg); }
    ++rtDepth;
    if (t->id == 0) {
        threadExitActions(t);
        for (int i = 1; i < nthr; ++i) if (thr[i].alive) {
            t->joinTarget = i; schedPoint(OP_JOIN, nullptr, nullptr, "end of scenario"); join(t->vc, thr[i].vc); i = 0; }
        if (!(flags & mc::NOLEAK) && liveBlk != 0) violationf("leak: %ld heap blocks are still allocated at the end of the execution", liveBlk);
        ended = true; active = false;
        saveTls(t);
        mcSwitch(&t->sp, driverSp);
    }
    exitThread(t);
    schedule();
    ierr("finished thread resumed");
}

namespace {

/* ---- one execution ---- */
void resetExecution() {
    ++gen; nthr = 0; nowT = 1000000000ll * 1000; steps = 0; usedBudget = 0; livelockRounds = 0; ghostH = 0;
    memset(ghosts, 0, sizeof ghosts); memset(nglog, 0, sizeof nglog); stampCtr = 0; outcomeH = 0; armed = false;
    noBranch = false; npath = 0; nObj = 0; nLane = 0; liveBlk = 0; ended = false; accesses = accAtStep = 0;
    for (int i = 0; i < TMAX; ++i) {
        char * base = (char *) (ARENA_BASE + ARENA_SZ * (u64) i);
        size_t used = (size_t) (arenaCur[i] - base);
        if (used) { memset(base, 0xCD, used); memset(arenaMap[i], 0, used / 8 + 8); }
        arenaCur[i] = base;
    }
}
Thread driverThread;
void runExecution() {
    resetExecution();
    Thread * t = newThread(nullptr, nullptr);
    for (int i = 0; i < TMAX; ++i) t->vc.c[i] = 0;
    t->vc.c[0] = 1;
    saveTls(&driverThread);
    cur = t; loadTls(t); active = true; rtDepth = 1;
    mcSwitch(&driverSp, t->sp);
    active = false; rtDepth = 0; loadTls(&driverThread);
    __atomic_fetch_add(&shm->execs, 1, __ATOMIC_RELAXED);
    __atomic_fetch_add(&shm->transitions, steps, __ATOMIC_RELAXED);
    __atomic_fetch_add(&shm->nAccess, accesses, __ATOMIC_RELAXED);
    if (steps > shm->maxSteps) shm->maxSteps = steps;
    if ((u64) nthr > shm->maxThreads) shm->maxThreads = (u64) nthr;
    u64 o = outcomeH ? outcomeH : 1; u32 i = (u32) (o & 4095);
    for (int k = 0; k < 4096; ++k, i = (i + 1) & 4095) {
        u64 v = shm->outcomes[i]; if (v == o) break;
        if (!v) { u64 e = 0; if (__atomic_compare_exchange_n((u64 *) &shm->outcomes[i], &e, o, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { __atomic_fetch_add(&shm->nOutcomes, 1, __ATOMIC_RELAXED); break; } if (e == o) break; }
    }
}

/* ---- exploration worker ---- */
u16 origN[MAXCHOICES]; /* original alternative count at each path position */

void worker() {
    static Choice loc[MAXCHOICES];
    for (;;) {
        spinLock();
        if (shm->stop) { spinUnlock(); return; }
        if (shm->qn == 0) {
            if (shm->active == 0) { spinUnlock(); return; }
            spinUnlock(); timespec ts{0, 200000}; syscall(SYS_nanosleep, &ts, nullptr); continue;
        }
        Item & it = shm->q[--shm->qn]; prefixLen = it.len; memcpy(prefix, it.c, sizeof(Choice) * (size_t) it.len); ++shm->active;
        spinUnlock();
        int base = prefixLen; /* choices below base belong to others */
        for (;;) {
            runExecution();
            if (shm->stop) return;
            if ((++execsLocal & 63) == 0 && wallNs() > deadlineWall) { shm->capped = 1; shm->stop = 1; return; }
            /* record: positions >= prefixLen have fresh n; positions < prefixLen keep limits in loc */
            for (int i = prefixLen; i < npath; ++i) { loc[i] = path[i]; origN[i] = path[i].n; }
            int plen = npath;
            if (__atomic_load_n(&shm->qn, __ATOMIC_RELAXED) < 16) {
                for (int i = base; i < plen; ++i) if (loc[i].chosen + 1 < loc[i].n) {
                    spinLock();
                    while (loc[i].chosen + 1 < loc[i].n && shm->qn < QCAP) {
                        Item & d = shm->q[shm->qn++]; d.len = i + 1;
                        for (int j = 0; j < i; ++j) { d.c[j].chosen = j < base ? prefix[j].chosen : loc[j].chosen; d.c[j].n = j < base ? prefix[j].n : origN[j]; }
                        d.c[i].chosen = (u16) (loc[i].n - 1); d.c[i].n = origN[i]; --loc[i].n;
                    }
                    spinUnlock(); break;
                }
            }
            int i = plen - 1;
            while (i >= base && loc[i].chosen + 1 >= loc[i].n) --i;
            if (i < base) break;
            ++loc[i].chosen;
            for (int j = base; j <= i; ++j) { prefix[j].chosen = loc[j].chosen; prefix[j].n = origN[j]; }
            prefixLen = i + 1;
        }
        spinLock(); --shm->active; spinUnlock();
    }
}

void crashHandler(int sig, siginfo_t * si, void *) {
    char b[200]; ++rtDepth;
    snprintf(b, sizeof b, "crash: signal %d (%s) at address %p", sig, sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : sig == SIGABRT ? "SIGABRT" : "?", si->si_addr);
    if (!active) { fprintf(stderr, "mcrt: crash outside an execution: %s\n", b); _exit(5); }
    violation(b);
}
void alarmHandler(int) { if (active) violation("execution hangs: a thread runs without reaching a scheduling point"); _exit(6); }
void termHandler() {
    if (!active) { fprintf(stderr, "terminate outside an execution\n"); _exit(5); }
    ++rtDepth; char const * n = ""; std::type_info * ti = abi::__cxa_current_exception_type(); if (ti) n = ti->name();
    char b[256]; snprintf(b, sizeof b, "std::terminate called (%s)", n); violation(b);
}

int dlCb(dl_phdr_info * i, size_t, void *) {
    for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS) {
        tlsSize = i->dlpi_phdr[k].p_memsz; tlsBase = (char *) i->dlpi_tls_data;
        tlsImage = (char const *) (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); tlsImageSz = i->dlpi_phdr[k].p_filesz; }
    return 1; /* main program only */
}

void initProcess() {
    static bool done = false; if (done) return; done = true;
    dl_iterate_phdr(dlCb, nullptr);
    __libc_single_threaded = 0;
    resolveEh();
    ehGlobals = (u64 *) abi::__cxa_get_globals();
    void * a = mmap((void *) ARENA_BASE, ARENA_SZ * TMAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void * s = mmap((void *) STACK_BASE, STACK_SZ * TMAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a != (void *) ARENA_BASE || s != (void *) STACK_BASE) { fprintf(stderr, "mcrt: cannot map arenas\n"); _exit(5); }
    for (int i = 0; i < TMAX; ++i) { mprotect((void *) (STACK_BASE + STACK_SZ * (u64) i), 4096, PROT_NONE);
        arenaCur[i] = (char *) (ARENA_BASE + ARENA_SZ * (u64) i); arenaMap[i] = (u8 *) __libc_calloc(1, ARENA_SZ / 8 + 64);
        thr[i].tls = tlsSize ? (char *) __libc_malloc(tlsSize) : nullptr; }
    driverThread.tls = tlsSize ? (char *) __libc_malloc(tlsSize) : nullptr;
    cells = (Cell *) __libc_calloc(NCELLS, sizeof(Cell)); lanePool = (Lane *) __libc_calloc(NLANES, sizeof(Lane));
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = __libc_malloc(65536); ss.ss_size = 65536; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = crashHandler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int sg : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGSYS, SIGABRT }) sigaction(sg, &sa, nullptr);
    std::set_terminate(termHandler);
}

/* watchdog: a worker that performs no step for a while hangs in uninstrumented code */
u64 wdLast[2]; int wdSame[2];
void watchdog(int sig) {
    int const i = sig == SIGPROF; /* seconds of CPU time instead of wall time */
    u64 v = execsLocal * 1000003u + steps;
    if (active && v == wdLast[i]) { if (++wdSame[i] >= (i ? 6 : 25)) alarmHandler(0); } else wdSame[i] = 0;
    wdLast[i] = v;
}
void armWatchdog() {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = watchdog; sa.sa_flags = SA_ONSTACK | SA_RESTART; sigaction(SIGALRM, &sa, nullptr); sigaction(SIGPROF, &sa, nullptr);
    itimerval iv; iv.it_interval.tv_sec = 1; iv.it_interval.tv_usec = 0; iv.it_value = iv.it_interval; setitimer(ITIMER_REAL, &iv, nullptr); setitimer(ITIMER_PROF, &iv, nullptr);
}

void runParallel(int jobs) {
    pid_t pids[64];
    for (int j = 0; j < jobs; ++j) {
        fflush(nullptr);
        pids[j] = fork();
        if (pids[j] == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            initProcess();
            armWatchdog();
            worker(); _exit(0);
        }
    }
    for (int j = 0; j < jobs; ++j) { int st; waitpid(pids[j], &st, 0);
        if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 3)) {
            shm->stop = 1;
            if (!shm->violated && !shm->ierr) { shm->ierr = 1; snprintf(shm->imsg, sizeof shm->imsg, "worker ended abnormally (status %x)", st); } }
    }
}

void resetShm(bool newScenario) {
    /* The state cache is kept from one bound of a scenario to the next: a key
       contains the remaining deviations, so a cached state stands for a
       completely explored subtree. */
    memset(shm, 0, offsetof(Shm, q));
    if (newScenario && madvise(shm->visited, sizeof shm->visited, MADV_REMOVE) != 0) { perror("madvise"); memset(shm->visited, 0, sizeof shm->visited); }
    shm->qn = 1; shm->q[0].len = 0;
}


} // namespace

namespace mc {

Scenario::Scenario(char const * nm, void (*f)(), int qb, int tb, unsigned fl) : name(nm), fn(f), quickBound(qb), thoroughBound(tb), flags(fl), next(nullptr) {
    Scenario ** p = &scenarios; while (*p) p = &(*p)->next; *p = this;
}
void fail(char const * fmt, ...) { ++rtDepth; char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); violation(b); }
int choose(int n, int cost, char const * what) {
    Rt r; int m = n; if (cost > bound - usedBudget) m = 1;
    Thread * t = cur; t->pc = nullptr;
    int const c = choicePoint(m, mix(0xc400, (u64) n)); if (c) usedBudget += cost;
    t->h = mix(t->h, 0xc0 + (u64) c); effect(t);
    if (verbose) traceEv("choose %s -> %d of %d", what, c, n);
    return c;
}
std::uint64_t stamp(char const * what) {
    Rt r; schedPoint(OP_POINT, nullptr, __builtin_return_address(0), what);
    ghostH = mix(ghostH, cur->h); cur->h = mix(cur->h, ghostH); effect(cur);
    return ++stampCtr;
}
long ghostAdd(int i, long d) {
    Rt r; schedPoint(OP_POINT, &ghosts[i], __builtin_return_address(0), "ghost");
    ghosts[i] += d; ghostH = mix(mix(ghostH, (u64) i), cur->h); cur->h = mix(cur->h, ghostH); effect(cur);
    if (verbose) traceEv("ghost[%d] = %ld", i, ghosts[i]);
    return ghosts[i];
}
long ghostGet(int i) { Rt r; cur->h = mix(cur->h, (u64) ghosts[i] * 64 + (u64) i); return ghosts[i]; }
void ghostSet(int i, long v) { Rt r; ghosts[i] = v; ghostH = mix(mix(ghostH, (u64) i + 1000), mix((u64) v, cur->h)); cur->h = mix(cur->h, ghostH); }
void logPush(int i, long v) { Rt r; if (nglog[i] < 256) glog[i][nglog[i]++] = v; ghostH = mix(mix(ghostH, (u64) i + 2000), mix((u64) v, cur->h)); cur->h = mix(cur->h, ghostH); if (verbose) traceEv("log[%d] <- %ld", i, v); }
int logSize(int i) { return nglog[i]; }
long logAt(int i, int k) { return glog[i][k]; }
void point() { Rt r; schedPoint(OP_POINT, nullptr, __builtin_return_address(0)); cur->h = mix(cur->h, 1); }
void outcome(std::uint64_t v) { outcomeH = mix(outcomeH, v + 1); }
std::int64_t nowNs() { return nowT; }
void advanceTime(std::int64_t ns) { Rt r; nowT += ns; cur->h = mix(cur->h, (u64) ns); effect(cur); unparkAll(); }
void blockUntil(bool (*pred)(void *), void * arg, char const * what) {
    Rt r; Thread * t = cur; t->pred = pred; t->predArg = arg; t->timed = false; t->timedOut = false;
    schedPoint(OP_BLOCK, arg, __builtin_return_address(0), what); effect(t); cur->h = mix(cur->h, 0xb10c);
}
bool blockUntilTimed(bool (*pred)(void *), void * arg, std::int64_t dl, char const * what) {
    Rt r; Thread * t = cur; t->pred = pred; t->predArg = arg; t->timed = true; t->timedOut = false; t->deadline = dl;
    schedPoint(OP_BLOCK, arg, __builtin_return_address(0), what); effect(t); t->timed = false;
    bool const ok = !t->timedOut || pred(arg); t->timedOut = false; cur->h = mix(cur->h, 0xb10d + ok); return ok;
}
void awaitQuiescence(char const * what) {
    blockUntil([](void * p) { for (int i = 0; i < nthr; ++i) if (&thr[i] != p && enabled(&thr[i])) return false; return true; }, cur, what);
}
int self() { return cur ? cur->id : 0; }
int liveThreads() { int n = 0; for (int i = 0; i < nthr; ++i) n += thr[i].alive; return n; }
void note(char const * fmt, ...) { if (!verbose) return; ++rtDepth; char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); traceEv("NOTE %s", b); --rtDepth; }
long liveBlocks() { return liveBlk; }
int points(int tid) { return tid < nthr ? thr[tid].npoints : 0; }
Quiet::Quiet() { ++rtDepth; }
Quiet::~Quiet() { --rtDepth; }
void sysHb(void const * p) {
    Rt r; Obj * o = getObj(p, K_SYS); Thread * t = cur;
    ::join(t->vc, o->clk); o->clk = t->vc; t->vc.c[t->id]++;
    t->h = mix(t->h, o->h); o->h = t->h;
}
void sysPoint(void const * p, char const * what) {
    Rt r; schedPoint(OP_POINT, (void *) p, __builtin_return_address(0), what); effect(cur); sysHb(p); unparkAll();
}
void armAllocFaults(bool on) { armed = on; }

} // namespace mc

/* ======================= interposed libc / pthread ======================= */
#define PC __builtin_return_address(0)
#define LIVE (active && rtDepth == 0)

namespace {
void mutexAcquire(Thread * t, Obj * o) {
    if (o->owner == t->id) { ++o->count; return; }
    o->owner = t->id; o->count = 1; join(t->vc, o->clk); t->h = mix(mix(t->h, 0x10c), o->h); o->h = mix(t->h, o->addr); effect(t);
}
void touchSync(void * p, u64 n, bool init, void const * pc) { /* use-after-free detection + race with construction/destruction */
    access((u64) p, n, init, !init, pc);
}
}

extern "C" {

int pthread_mutex_init(pthread_mutex_t * m, pthread_mutexattr_t const * a) {
    int kind = 0; if (a) pthread_mutexattr_gettype(a, &kind);
    memset(m, 0, sizeof *m); m->__data.__kind = kind;
    if (LIVE) { Rt r; touchSync(m, sizeof *m, true, PC); Obj * o = getObj(m, K_MUTEX); o->owner = -1; o->count = 0; o->recursive = kind == PTHREAD_MUTEX_RECURSIVE; }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t * m) {
    if (LIVE) { Rt r; Obj * o = getObj(m, K_MUTEX); if (o->owner >= 0) violation("mutex destroyed while locked"); touchSync(m, 8, true, PC); }
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t * m) {
    if (!LIVE) return 0;
    Rt r; Obj * o = getObj(m, K_MUTEX);
    o->recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
    schedPoint(OP_LOCK, m, PC);
    o = getObj(m, K_MUTEX); touchSync(m, 8, false, PC); mutexAcquire(cur, o);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t * m) {
    if (!LIVE) return 0;
    Rt r; getObj(m, K_MUTEX)->recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
    schedPoint(OP_TRYLOCK, m, PC); Obj * o = getObj(m, K_MUTEX); touchSync(m, 8, false, PC);
    if (o->owner >= 0 && !(o->owner == cur->id && o->recursive)) { cur->h = mix(mix(cur->h, 0x7210), o->h); observe((u64) m, o->h); return EBUSY; }
    mutexAcquire(cur, o); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t * m) {
    if (!LIVE) return 0;
    Rt r; if (flags & mc::UNLOCKPOINTS) schedPoint(OP_UNLOCK, m, PC); else if (verbose) traceEv("unlock obj=%p pc=%p", m, PC);
    Obj * o = getObj(m, K_MUTEX); Thread * t = cur;
    if (o->owner != t->id) violationf("mutex unlocked by thread %d which does not hold it (owner %d)", t->id, o->owner);
    touchSync(m, 8, false, PC);
    if (--o->count) return 0;
    o->owner = -1; o->clk = t->vc; t->vc.c[t->id]++; t->h = mix(t->h, 0x011); o->h = mix(t->h, o->addr); effect(t); wroteTo((u64) m);
    return 0;
}
static i64 tsNs(timespec const * ts) { return (i64) ts->tv_sec * 1000000000ll + ts->tv_nsec; }
static int timedLock(pthread_mutex_t * m, i64 deadline, void const * pc) {
    Rt r; Thread * t = cur; getObj(m, K_MUTEX)->recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
    t->timed = true; t->timedOut = false; t->deadline = deadline;
    schedPoint(OP_LOCK, m, pc, "timed");
    Obj * o = getObj(m, K_MUTEX); touchSync(m, 8, false, pc);
    bool const to = t->timedOut; t->timed = t->timedOut = false;
    if (to) { t->h = mix(mix(t->h, 0x7211), o->h); effect(t); if (verbose) traceEv("timed lock gives up"); return ETIMEDOUT; }
    mutexAcquire(t, o); return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t * m, timespec const * ts) { if (!LIVE) return 0; return timedLock(m, tsNs(ts), PC); }
int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t, timespec const * ts) { if (!LIVE) return 0; return timedLock(m, tsNs(ts), PC); }

int pthread_cond_init(pthread_cond_t * c, pthread_condattr_t const *) { memset(c, 0, sizeof *c); if (LIVE) { Rt r; touchSync(c, 8, true, PC); getObj(c, K_COND); } return 0; }
int pthread_cond_destroy(pthread_cond_t * c) { if (LIVE) { Rt r; if (getObj(c, K_COND)->nw) violation("condition variable destroyed while a thread waits on it"); touchSync(c, 8, true, PC); } return 0; }

static int condWait(pthread_cond_t * c, pthread_mutex_t * m, bool timed, i64 deadline, void const * pc) {
    Rt r; Thread * t = cur;
    schedPoint(OP_CWAIT, c, pc);
    Obj * mo = getObj(m, K_MUTEX); Obj * co = getObj(c, K_COND);
    if (mo->owner != t->id) violation("condition wait without holding the mutex");
    touchSync(c, 8, false, pc); touchSync(m, 8, false, pc);
    mo->owner = -1; mo->count = 0; mo->clk = t->vc; t->vc.c[t->id]++; t->h = mix(t->h, 0x0cc); mo->h = mix(t->h, mo->addr);
    t->h = mix(t->h, co->h); co->h = mix(co->h, t->h);
    co->w[co->nw++] = t->id; effect(t); wroteTo((u64) m);
    t->op = OP_CWAKE; t->obj = c; t->obj2 = m; t->timed = timed; t->deadline = deadline; t->signalled = false; t->timedOut = false; t->what = timed ? "timed" : nullptr;
    schedule();
    traceEv("woken %s, relocked obj=%p", t->timedOut ? "by timeout" : "by signal", m);
    touchSync(c, 8, false, pc); touchSync(m, 8, false, pc);
    mutexAcquire(t, getObj(m, K_MUTEX)); t->timed = false;
    bool const to = t->timedOut; t->timedOut = false; t->signalled = false;
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { if (!LIVE) return 0; return condWait(c, m, false, 0, PC); }
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, timespec const * ts) { if (!LIVE) return ETIMEDOUT; return condWait(c, m, true, tsNs(ts), PC); }
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t, timespec const * ts) { if (!LIVE) return ETIMEDOUT; return condWait(c, m, true, tsNs(ts), PC); }
int pthread_cond_signal(pthread_cond_t * c) {
    if (!LIVE) return 0;
    Rt r; schedPoint(OP_SIGNAL, c, PC); Thread * t = cur; Obj * o = getObj(c, K_COND); touchSync(c, 8, false, PC);
    t->h = mix(mix(t->h, 0x51), o->h);
    if (o->nw) { int k = choicePoint(o->nw, 0x5160); Thread * w = &thr[o->w[k]]; t->h = mix(t->h, (u64) w->id); w->signalled = true; w->h = mix(w->h, t->h); wakeFromCond(w); if (verbose) traceEv("signals T%d", w->id); }
    o->h = mix(o->h, t->h); effect(t);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t * c) {
    if (!LIVE) return 0;
    Rt r; schedPoint(OP_SIGNAL, c, PC, "broadcast"); Thread * t = cur; Obj * o = getObj(c, K_COND); touchSync(c, 8, false, PC);
    t->h = mix(mix(t->h, 0x52), o->h);
    while (o->nw) { Thread * w = &thr[o->w[0]]; w->signalled = true; w->h = mix(w->h, t->h); wakeFromCond(w); }
    o->h = mix(o->h, t->h); effect(t);
    return 0;
}

int pthread_create(pthread_t * out, pthread_attr_t const *, void * (*fn)(void *), void * arg) {
    if (!LIVE) { fprintf(stderr, "mcrt: pthread_create outside an execution\n"); _exit(5); }
    Rt r; schedPoint(OP_CREATE, nullptr, PC); Thread * p = cur;
    Thread * t = newThread(fn, arg); t->vc = p->vc; t->vc.c[t->id] = 1; t->h = mix(t->h, p->h); p->vc.c[p->id]++; p->h = mix(p->h, 0xc4ea); effect(p);
    *out = (pthread_t) t; if (verbose) traceEv("created T%d", t->id);
    return 0;
}
int pthread_join(pthread_t th, void ** ret) {
    if (!LIVE) return 0;
    Rt r; Thread * w = (Thread *) th; if (w < thr || w >= thr + TMAX || w->joined || w->detached) violation("join of an invalid thread");
    if (w == cur) return EDEADLK;
    if (w->joining) violation("two threads join the same thread at the same time");
    w->joining = true; cur->joinTarget = w->id; schedPoint(OP_JOIN, nullptr, PC); w->joined = true; join(cur->vc, w->vc); cur->h = mix(mix(cur->h, 0x101), w->h); effect(cur);
    if (ret) *ret = w->ret;
    return 0;
}
int pthread_detach(pthread_t th) { if (LIVE) ((Thread *) th)->detached = true; return 0; }
pthread_t pthread_self() { if (active) return (pthread_t) cur; return (pthread_t) 1; }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sched_yield() {
    if (!LIVE) return 0;
    Rt r; Thread * t = cur; u32 m = 0; for (int i = 0; i < nthr; ++i) if (i != t->id && thr[i].alive) m |= 1u << i;
    t->yieldMask = m; schedPoint(OP_YIELD, nullptr, PC); t->yieldMask = 0; t->h = mix(t->h, 0x41);
    return 0;
}
static void sleepUntil(i64 dl, void const * pc) { Rt r; Thread * t = cur; t->timed = true; t->deadline = dl; schedPoint(OP_SLEEP, nullptr, pc); t->timed = false; t->timedOut = false; t->h = mix(t->h, 0x51ee); }
int nanosleep(timespec const * ts, timespec *) { if (LIVE) sleepUntil(nowT + tsNs(ts), PC); return 0; }
int clock_nanosleep(clockid_t, int fl, timespec const * ts, timespec *) { if (LIVE) sleepUntil((fl & TIMER_ABSTIME) ? tsNs(ts) : nowT + tsNs(ts), PC); return 0; }
int usleep(useconds_t us) { if (LIVE) sleepUntil(nowT + (i64) us * 1000, PC); return 0; }
int clock_gettime(clockid_t c, timespec * ts) noexcept {
    if (!active) return (int) syscall(SYS_clock_gettime, c, ts);
    ts->tv_sec = nowT / 1000000000ll; ts->tv_nsec = nowT % 1000000000ll; cur->h = mix(cur->h, (u64) nowT); return 0;
}
int gettimeofday(timeval * __restrict tv, void * __restrict) noexcept {
    timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t * p) noexcept { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec; }

int __cxa_guard_acquire(u64 * g) {
    u8 * b = (u8 *) g;
    if (b[0]) return 0;
    if (b[1]) { ierr("recursive or concurrent static initialisation"); }
    b[1] = 1; if (active) { cur->noSched++; ++rtDepth; }
    return 1;
}
void __cxa_guard_release(u64 * g) { u8 * b = (u8 *) g; b[0] = 1; b[1] = 0; if (active) { cur->noSched--; --rtDepth; } }
void __cxa_guard_abort(u64 * g) { u8 * b = (u8 *) g; b[1] = 0; if (active) { cur->noSched--; --rtDepth; } }
/* Reference counts of exception objects live in the uninstrumented C++ runtime:
   every release of a reference is an acquire-release operation on the object. */
static void (*realEpRelease)(void **); static void (*realEndCatch)();
static void resolveEh() {
    if (realEpRelease) return;
    *(void **) &realEndCatch = dlsym(RTLD_NEXT, "__cxa_end_catch");
    *(void **) &realEpRelease = dlsym(RTLD_NEXT, "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
}
void _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void ** self) { if (LIVE && *self) mc::sysHb(*self); if (!realEpRelease) { ++rtDepth; resolveEh(); --rtDepth; } realEpRelease(self); }
void __cxa_end_catch() {
    if (LIVE) { ++rtDepth; void * p; { std::exception_ptr e = std::current_exception(); p = *(void **) &e; } --rtDepth; if (p) mc::sysHb(p); }
    if (!realEndCatch) { ++rtDepth; resolveEh(); --rtDepth; }
    realEndCatch();
}
int __cxa_thread_atexit(void (*fn)(void *), void * arg, void *) {
    if (!active) return 0;
    Thread * t = cur; if (t->nax >= 32) ierr("too many thread_local destructors"); t->ax[t->nax].fn = fn; t->ax[t->nax].arg = arg; ++t->nax; return 0;
}

void __assert_fail(char const * e, char const * f, unsigned l, char const * fn) noexcept {
    ++rtDepth;
    if (!active) { fprintf(stderr, "assertion outside an execution: %s:%u: %s: %s\n", f, l, fn, e); _exit(5); }
    char b[1000]; snprintf(b, sizeof b, "assertion failed: %s:%u: %s", f, l, e); violation(b);
}
void abort() noexcept {
    if (!active) _exit(5);
    violation("abort() called");
}

/* ---- heap ---- */
static void * arenaAlloc(size_t n, size_t align) {
    Rt r; Thread * t = cur;
    if (armed && bound - usedBudget >= 1) { int c = choicePoint(2, 0xa110c); t->h = mix(t->h, 0xa1 + (u64) c); if (c) { usedBudget += 1; if (verbose) traceEv("allocation of %zu bytes FAILS", n); return nullptr; } }
    char * & c = arenaCur[t->id]; u64 base = ARENA_BASE + ARENA_SZ * (u64) t->id;
    u64 p = (u64) c + 16; if (align < 16) align = 16; p = (p + align - 1) & ~(u64) (align - 1);
    size_t const sz = (n + 7) & ~(size_t) 7; 
    u64 e = p + (sz ? sz : 8) + 8;
    if (e >= base + ARENA_SZ - 64) ierr("execution arena exhausted");
    u64 * h = (u64 *) (p - 16); h[0] = n; h[1] = 0xA110CA7EDull;
    u64 g0 = (p - base) >> 3; for (u64 g = 0; g < sz / 8; ++g) arenaMap[t->id][g0 + g] = 1;
    if (!sz) arenaMap[t->id][g0] = 0;
    c = (char *) ((e + 15) & ~15ull); ++liveBlk;
    return (void *) p;
}
static size_t arenaSize(void * p) { return ((u64 *) p)[-2]; }
static void arenaFree(void * p, void const * pc) {
    Rt r; u64 * h = (u64 *) p - 2; int const ar = arenaOf((u64) p);
    if (h[1] == 0xF4EEDull) violationf("double free of %p pc=%p", p, pc);
    if (h[1] != 0xA110CA7EDull) violationf("free of an invalid pointer %p pc=%p", p, pc);
    size_t const n = h[0];
    if (active) {
        if (n) access((u64) p, n, true, false, pc, true);
        for (int i = 0; i < nObj; ++i) { Obj & o = objs[objList[i]]; if (o.addr >= (u64) p && o.addr < (u64) p + n) {
            if (o.kind == K_MUTEX && o.owner >= 0) violationf("memory of a locked mutex is freed pc=%p", pc);
            if (o.kind == K_COND && o.nw) violationf("memory of a condition variable with waiters is freed pc=%p", pc);
            for (int k = 0; k < nthr; ++k) if (thr[k].alive && thr[k].op == OP_LOCK && (u64) thr[k].obj == o.addr && &thr[k] != cur) violationf("memory of a mutex on which thread %d waits is freed pc=%p", k, pc);
        } }
    }
    h[1] = 0xF4EEDull; u64 base = ARENA_BASE + ARENA_SZ * (u64) ar; u64 g0 = ((u64) p - base) >> 3;
    for (u64 g = 0; g < (n + 7) / 8; ++g) arenaMap[ar][g0 + g] = 2;
    --liveBlk;
}
void * malloc(size_t n) { if (LIVE) return arenaAlloc(n, 16); return __libc_malloc(n); }
void free(void * p) { if (!p) return; if (arenaOf((u64) p) >= 0) { if (active) arenaFree(p, PC); return; } __libc_free(p); }
void * calloc(size_t a, size_t b) { if (LIVE) { void * p = arenaAlloc(a * b, 16); if (p) memset(p, 0, a * b); return p; } return __libc_calloc(a, b); }
void * realloc(void * p, size_t n) {
    if (p && arenaOf((u64) p) >= 0) { void * q = arenaAlloc(n, 16); if (!q) return nullptr; size_t o = arenaSize(p); memcpy(q, p, o < n ? o : n); arenaFree(p, PC); return q; }
    if (!p) return malloc(n);
    return __libc_realloc(p, n);
}
void * memalign(size_t a, size_t n) { if (LIVE) return arenaAlloc(n, a); return __libc_memalign(a, n); }
void * aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void ** out, size_t a, size_t n) { void * p = memalign(a, n); if (!p) return ENOMEM; *out = p; return 0; }

/* ---- wrapped memory builtins (linked with --wrap) ---- */
void * __real_memcpy(void *, void const *, size_t); void * __real_memmove(void *, void const *, size_t); void * __real_memset(void *, int, size_t); int __real_memcmp(void const *, void const *, size_t);
void * __wrap_memcpy(void * d, void const * s, size_t n) { if (LIVE && n) { Rt r; access((u64) s, n, false, false, PC); access((u64) d, n, true, false, PC); } return __real_memcpy(d, s, n); }
void * __wrap_memmove(void * d, void const * s, size_t n) { if (LIVE && n) { Rt r; access((u64) s, n, false, false, PC); access((u64) d, n, true, false, PC); } return __real_memmove(d, s, n); }
void * __wrap_memset(void * d, int v, size_t n) { if (LIVE && n) { Rt r; access((u64) d, n, true, false, PC); } return __real_memset(d, v, n); }
int __wrap_memcmp(void const * a, void const * b, size_t n) { if (LIVE && n) { Rt r; access((u64) a, n, false, false, PC); access((u64) b, n, false, false, PC); } return __real_memcmp(a, b, n); }

/* ---- instrumentation ---- */
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
void __tsan_read ## n(void * p) { if (LIVE) { Rt r; access((u64) p, n, false, false, PC); } } \
void __tsan_write ## n(void * p) { if (LIVE) { Rt r; access((u64) p, n, true, false, PC); } } \
void __tsan_unaligned_read ## n(void * p) { if (LIVE) { Rt r; access((u64) p, n, false, false, PC); } } \
void __tsan_unaligned_write ## n(void * p) { if (LIVE) { Rt r; access((u64) p, n, true, false, PC); } } \
void __tsan_volatile_read ## n(void * p) { if (LIVE) { Rt r; access((u64) p, n, false, false, PC); } } \
void __tsan_volatile_write ## n(void * p) { if (LIVE) { Rt r; access((u64) p, n, true, false, PC); } }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, unsigned long n) { if (LIVE && n) { Rt r; access((u64) p, n, false, false, PC); } }
void __tsan_write_range(void * p, unsigned long n) { if (LIVE && n) { Rt r; access((u64) p, n, true, false, PC); } }
void __tsan_vptr_update(void ** p, void * v) { if (LIVE) { Rt r; access((u64) p, 8, *p != v, false, PC); } }
void __tsan_vptr_read(void ** p) { if (LIVE) { Rt r; access((u64) p, 8, false, false, PC); } }

} // extern "C"

namespace {

u128 rawLoad(void const * p, int n) { u128 v = 0; memcpy(&v, p, (size_t) n); return v; }
void rawStore(void * p, u128 v, int n) { memcpy(p, &v, (size_t) n); }
bool isAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool isRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

void pushStore(Loc * l, Store const & s) {
    if (!(flags & mc::WEAK) && l->n) { l->st[l->n - 1] = s; return; }
    if (l->n == l->cap) { int nc = l->cap ? l->cap * 2 : 8; l->st = (Store *) __libc_realloc(l->st, sizeof(Store) * (size_t) nc); l->cap = nc; }
    l->st[l->n++] = s;
}
Loc * atomicLoc(void * p, int n) {
    Loc * l = findLoc((u64) p, true);
    if (l->n && l->size != n) { l->n = 0; l->lastSc = -1; for (int t = 0; t < TMAX; ++t) l->nrd[t] = 0; }
    if (!l->n) { l->size = n; Store s; memset(&s, 0, sizeof s); s.val = rawLoad(p, n); s.h = mix((u64) p, (u64) s.val); s.relHead = -1; pushStore(l, s); }
    return l;
}
int lowerBound(Loc * l, Thread * t, bool sc) {
    int lb = 0;
    for (int i = l->n - 1; i > 0; --i) if (t->vc.c[l->st[i].tid] >= l->st[i].epoch) { lb = i; break; }
    for (int u = 0; u < nthr; ++u) for (int k = l->nrd[u] - 1; k >= 0; --k) if (t->vc.c[u] >= l->rd[u][k].epoch) { if (l->rd[u][k].idx > lb) lb = l->rd[u][k].idx; break; }
    if (sc && l->lastSc > lb) lb = l->lastSc;
    return lb;
}
void recordRead(Loc * l, Thread * t, int idx) {
    if (!(flags & mc::WEAK)) return;
    int const u = t->id; u32 const ep = t->vc.c[u];
    if (l->nrd[u]) { ReadRec & r = l->rd[u][l->nrd[u] - 1]; if (r.idx >= idx) return; if (r.epoch == ep) { r.idx = idx; return; } }
    if (l->nrd[u] == l->crd[u]) { int nc = l->crd[u] ? l->crd[u] * 2 : 8; l->rd[u] = (ReadRec *) __libc_realloc(l->rd[u], sizeof(ReadRec) * (size_t) nc); l->crd[u] = nc; }
    l->rd[u][l->nrd[u]].epoch = ep; l->rd[u][l->nrd[u]].idx = idx; ++l->nrd[u];
}
void readFrom(Thread * t, Store const & s, int mo) {
    if (s.hasRel) { if (isAcq(mo)) join(t->vc, s.rel); else join(t->acqPending, s.rel); }
    t->h = mix(mix(t->h, 0x10ad), s.h);
}
u128 aLoad(void * p, int n, int mo, void const * pc) {
    Thread * t = cur;
    schedPoint(OP_ATOMIC, p, pc, "load");
    access((u64) p, (u64) n, false, true, pc);
    Loc * l = atomicLoc(p, n); int idx = l->n - 1;
    if ((flags & mc::WEAK) && bound - usedBudget >= 1) {
        int const lb = lowerBound(l, t, mo == 5); int const alts = l->n - lb;
        int const c = choicePoint(alts, mix(0x1ead, (u64) p)); if (c) { usedBudget += 1; idx -= c; if (verbose) traceEv("stale load (%d stores behind)", c); }
    }
    recordRead(l, t, idx);
    Store & s = l->st[idx]; readFrom(t, s, mo);
    if (idx == l->n - 1) observe((u64) p, s.h); else t->nobs = 0;
    if (verbose) traceEv("  loaded %llx mo=%d", (unsigned long long) s.val, mo);
    return s.val;
}
void commitStore(Loc * l, Thread * t, void * p, int n, u128 v, int mo, bool rmw) {
    Store s; memset(&s, 0, sizeof s); Store const & prev = l->st[l->n - 1];
    s.val = v; s.tid = (u8) t->id; s.epoch = t->vc.c[t->id]; s.sc = mo == 5;
    if (isRel(mo)) { s.rel = t->vc; s.hasRel = true; s.relHead = t->id; }
    else if (t->hasRelFence) { s.rel = t->relFence; s.hasRel = true; s.relHead = t->id; }
    if (rmw && prev.hasRel) { join(s.rel, prev.rel); s.hasRel = true; if (s.relHead == 0 && !isRel(mo) && !t->hasRelFence) s.relHead = prev.relHead; }
    else if (!rmw && !s.hasRel && prev.hasRel && prev.relHead == t->id) { s.rel = prev.rel; s.hasRel = true; s.relHead = t->id; }
    t->h = mix(mix(mix(t->h, 0x57), prev.h), (u64) v); s.h = t->h;
    rawStore(p, v, n); pushStore(l, s); if (s.sc) l->lastSc = l->n - 1;
    recordRead(l, t, l->n - 1);
    t->vc.c[t->id]++; effect(t); wroteTo((u64) p);
}
void aStore(void * p, int n, u128 v, int mo, void const * pc) {
    schedPoint(OP_ATOMIC, p, pc, "store"); access((u64) p, (u64) n, true, true, pc);
    Loc * l = atomicLoc(p, n); commitStore(l, cur, p, n, v, mo, false);
    if (verbose) traceEv("  stored %llx mo=%d", (unsigned long long) v, mo);
}
enum Rmw { R_XCHG, R_ADD, R_SUB, R_AND, R_OR, R_XOR, R_NAND };
u128 aRmw(void * p, int n, Rmw op, u128 v, int mo, void const * pc) {
    schedPoint(OP_ATOMIC, p, pc, "rmw"); access((u64) p, (u64) n, true, true, pc);
    Thread * t = cur; Loc * l = atomicLoc(p, n); Store s = l->st[l->n - 1]; readFrom(t, s, mo);
    u128 const o = s.val; u128 r = 0;
    switch (op) { case R_XCHG: r = v; break; case R_ADD: r = o + v; break; case R_SUB: r = o - v; break; case R_AND: r = o & v; break; case R_OR: r = o | v; break; case R_XOR: r = o ^ v; break; case R_NAND: r = ~(o & v); break; }
    if (n < 16) r &= ((u128) 1 << (n * 8)) - 1;
    commitStore(l, t, p, n, r, mo, true);
    if (verbose) traceEv("  rmw %llx -> %llx mo=%d", (unsigned long long) o, (unsigned long long) r, mo);
    return o;
}
bool aCas(void * p, int n, void * exp, u128 des, int mo, int fmo, bool weak, void const * pc) {
    schedPoint(OP_ATOMIC, p, pc, "cas");
    Thread * t = cur; Loc * l = atomicLoc(p, n); Store s = l->st[l->n - 1];
    u128 const e = rawLoad(exp, n);
    bool ok = s.val == e;
    if (ok && weak && (flags & mc::CASFAIL) && bound - usedBudget >= 1) { int c = choicePoint(2, 0xca5); t->h = mix(t->h, (u64) c); if (c) { usedBudget++; ok = false; if (verbose) traceEv("weak CAS fails spuriously"); } }
    access((u64) p, (u64) n, ok, true, pc);
    if (!ok) { recordRead(l, t, l->n - 1); readFrom(t, s, fmo); observe((u64) p, s.h); rawStore(exp, s.val, n); if (verbose) traceEv("  cas failed, value %llx", (unsigned long long) s.val); return false; }
    readFrom(t, s, mo); commitStore(l, t, p, n, des, mo, true);
    if (verbose) traceEv("  cas %llx -> %llx", (unsigned long long) e, (unsigned long long) des);
    return true;
}
void aFence(int mo) {
    Thread * t = cur; Obj * o = nullptr;
    if (mo == 5) { schedPoint(OP_POINT, (void *) &seqSc, nullptr, "fence"); o = getObj(&seqSc, K_SYS); join(t->vc, o->clk); t->h = mix(t->h, o->h); }
    if (isAcq(mo)) join(t->vc, t->acqPending);
    if (isRel(mo)) { t->relFence = t->vc; t->hasRelFence = true; t->vc.c[t->id]++; }
    if (o) { o->clk = t->vc; o->h = t->h; t->vc.c[t->id]++; }
    t->h = mix(t->h, 0xfe);
}
} // namespace

/* Atomic operations under mc::Quiet happen on the real memory only. */
static void quietSync(void * p, int n) { if (!cur) return; Loc * l = findLoc((u64) p, false); if (l && l->n && l->size == n) l->st[l->n - 1].val = rawLoad(p, n); }

extern "C" {
#define ATOMICS(B, T) \
T __tsan_atomic ## B ## _load(T const volatile * p, int mo) { if (!LIVE) { T v; memcpy(&v, (void *) p, sizeof v); return v; } Rt r; return (T) aLoad((void *) p, B / 8, mo, PC); } \
void __tsan_atomic ## B ## _store(T volatile * p, T v, int mo) { if (!LIVE) { memcpy((void *) p, &v, sizeof v); quietSync((void *) p, B / 8); return; } Rt r; aStore((void *) p, B / 8, (u128) v, mo, PC); } \
T __tsan_atomic ## B ## _exchange(T volatile * p, T v, int mo) { if (!LIVE) { T o = *p; *p = v; quietSync((void *) p, B / 8); return o; } Rt r; return (T) aRmw((void *) p, B / 8, R_XCHG, (u128) v, mo, PC); } \
T __tsan_atomic ## B ## _fetch_add(T volatile * p, T v, int mo) { if (!LIVE) { T o = *p; *p = (T) (o + v); quietSync((void *) p, B / 8); return o; } Rt r; return (T) aRmw((void *) p, B / 8, R_ADD, (u128) v, mo, PC); } \
T __tsan_atomic ## B ## _fetch_sub(T volatile * p, T v, int mo) { if (!LIVE) { T o = *p; *p = (T) (o - v); quietSync((void *) p, B / 8); return o; } Rt r; return (T) aRmw((void *) p, B / 8, R_SUB, (u128) v, mo, PC); } \
T __tsan_atomic ## B ## _fetch_and(T volatile * p, T v, int mo) { if (!LIVE) { T o = *p; *p = o & v; quietSync((void *) p, B / 8); return o; } Rt r; return (T) aRmw((void *) p, B / 8, R_AND, (u128) v, mo, PC); } \
T __tsan_atomic ## B ## _fetch_or(T volatile * p, T v, int mo) { if (!LIVE) { T o = *p; *p = o | v; quietSync((void *) p, B / 8); return o; } Rt r; return (T) aRmw((void *) p, B / 8, R_OR, (u128) v, mo, PC); } \
T __tsan_atomic ## B ## _fetch_xor(T volatile * p, T v, int mo) { if (!LIVE) { T o = *p; *p = o ^ v; quietSync((void *) p, B / 8); return o; } Rt r; return (T) aRmw((void *) p, B / 8, R_XOR, (u128) v, mo, PC); } \
T __tsan_atomic ## B ## _fetch_nand(T volatile * p, T v, int mo) { if (!LIVE) { T o = *p; *p = (T) ~(o & v); quietSync((void *) p, B / 8); return o; } Rt r; return (T) aRmw((void *) p, B / 8, R_NAND, (u128) v, mo, PC); } \
int __tsan_atomic ## B ## _compare_exchange_strong(T volatile * p, T * e, T d, int mo, int fmo) { if (!LIVE) { if (*p == *e) { *p = d; quietSync((void *) p, B / 8); return 1; } *e = *p; return 0; } Rt r; return aCas((void *) p, B / 8, e, (u128) d, mo, fmo, false, PC); } \
int __tsan_atomic ## B ## _compare_exchange_weak(T volatile * p, T * e, T d, int mo, int fmo) { if (!LIVE) { if (*p == *e) { *p = d; quietSync((void *) p, B / 8); return 1; } *e = *p; return 0; } Rt r; return aCas((void *) p, B / 8, e, (u128) d, mo, fmo, true, PC); } \
T __tsan_atomic ## B ## _compare_exchange_val(T volatile * p, T e, T d, int mo, int fmo) { if (!LIVE) { T o = *p; if (o == e) { *p = d; quietSync((void *) p, B / 8); } return o; } Rt r; aCas((void *) p, B / 8, &e, (u128) d, mo, fmo, false, PC); return e; }
ATOMICS(8, u8) ATOMICS(16, u16) ATOMICS(32, u32) ATOMICS(64, u64)
typedef unsigned __int128 u128_t;
ATOMICS(128, u128_t)
void __tsan_atomic_thread_fence(int mo) { if (LIVE) { Rt r; aFence(mo); } }
void __tsan_atomic_signal_fence(int) {}
/* libatomic entry points (16-byte atomics) */
}

/* ======================= main ======================= */
namespace {

void jsonStr(FILE * f, char const * s) { fputc('"', f); for (; *s; ++s) { if (*s == '"' || *s == '\\') fputc('\\', f); if ((u8) *s < 32) { fputs("\\u0020", f); continue; } fputc(*s, f); } fputc('"', f); }

mc::Scenario * findScenario(char const * n) { for (mc::Scenario * s = scenarios; s; s = s->next) if (!strcmp(s->name, n)) return s; return nullptr; }

/* Re-executes one schedule in a child process; returns 1 if it violates. */
int replayOnce(mc::Scenario * sc, int bnd, Choice const * c, int n, FILE * tr) {
    memset(shm, 0, offsetof(Shm, q));
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        initProcess(); replayMode = true; curScenario = sc; flags = sc->flags; bound = bnd; prefixLen = n; memcpy(prefix, c, sizeof(Choice) * (size_t) n);
        if (tr) { verbose = true; trace = tr; }
        armWatchdog();
        runExecution(); if (tr) fflush(tr); _exit(0);
    }
    int st; waitpid(p, &st, 0);
    return shm->violated ? 1 : shm->ierr ? -1 : 0;
}

} // namespace

int main(int argc, char ** argv) {
    char const * tier = "quick", * only = nullptr, * replay = nullptr, * out = nullptr, * tracePath = nullptr; int jobs = 8; double budget = 60; int forceBound = -1; bool list = false;
    for (int i = 1; i < argc; ++i) {
        auto val = [&]() -> char const * { if (i + 1 >= argc) { fprintf(stderr, "missing value\n"); _exit(2); } return argv[++i]; };
        if (!strcmp(argv[i], "--tier")) tier = val(); else if (!strcmp(argv[i], "--scenario")) only = val(); else if (!strcmp(argv[i], "--jobs")) jobs = atoi(val());
        else if (!strcmp(argv[i], "--budget")) budget = atof(val()); else if (!strcmp(argv[i], "--replay")) replay = val(); else if (!strcmp(argv[i], "--out")) out = val();
        else if (!strcmp(argv[i], "--trace")) tracePath = val(); else if (!strcmp(argv[i], "--bound")) forceBound = atoi(val()); else if (!strcmp(argv[i], "--list")) list = true;
        else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 2; }
    }
    if (list) { for (mc::Scenario * s = scenarios; s; s = s->next) printf("%s\n", s->name); return 0; }
    bool const thorough = !strcmp(tier, "thorough");
    shm = (Shm *) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (shm == MAP_FAILED) { perror("mmap"); return 2; }

    if (replay) {
        FILE * f = fopen(replay, "r"); if (!f) { perror(replay); return 2; }
        char scn[200]; int bnd, n; if (fscanf(f, "scenario %199s bound %d choices %d", scn, &bnd, &n) != 3 || n > MAXCHOICES) { fprintf(stderr, "bad replay file\n"); return 2; }
        static Choice c[MAXCHOICES]; for (int i = 0; i < n; ++i) { int a, b; if (fscanf(f, "%d/%d", &a, &b) != 2) { fprintf(stderr, "bad replay file\n"); return 2; } c[i].chosen = (u16) a; c[i].n = (u16) b; }
        fclose(f); mc::Scenario * s = findScenario(scn); if (!s) { fprintf(stderr, "no scenario %s\n", scn); return 2; }
        FILE * tr = tracePath ? fopen(tracePath, "w") : stdout;
        int r = replayOnce(s, bnd, c, n, tr); if (tr != stdout) fclose(tr);
        printf("replay: %s %s\n", r == 1 ? "VIOLATES:" : r == 0 ? "holds" : "internal error:", r == 1 ? shm->msg : r < 0 ? shm->imsg : "");
        return r == 1 ? 1 : r == 0 ? 0 : 2;
    }

    FILE * of = out ? fopen(out, "w") : stdout; if (!of) { perror(out); return 2; }
    int nsc = 0; for (mc::Scenario * s = scenarios; s; s = s->next) if ((!only || !strcmp(only, s->name)) && (thorough || !(s->flags & mc::THOROUGHONLY))) ++nsc;
    int rc = 0; i64 const t0 = wallNs(); i64 const total = (i64) (budget * 1e9);
    struct Prog { int done = -1; bool capped = false, bad = false, skip = false; u64 ex = 0, st = 0, tr = 0, pr = 0, oc = 0, ms = 0, mt = 0, na = 0; i64 wall = 0; };
    static Prog progs[512]; int const nAll = [] { int n = 0; for (mc::Scenario * s = scenarios; s; s = s->next) ++n; return n; }(); (void) nAll;
    /* Pass 0 gives every scenario its share plus whatever earlier ones left
       over; pass 1 gives what is left at the end to those cut short; in the
       quick tier, pass 2 uses some of what is still left to go deeper. */
    i64 tEnd = t0 + total;
    for (int pass = 0; pass < (thorough || forceBound >= 0 ? 2 : 3); ++pass) {
        int idx = 0, todo = 0, k = 0;
        if (pass == 0) todo = nsc; else if (pass == 1) for (int i = 0; i < 512; ++i) todo += progs[i].capped && !progs[i].bad;
        if (pass == 2) { for (mc::Scenario * s = scenarios; s && k < 512; s = s->next, ++k) todo += !progs[k].skip && !progs[k].bad && !progs[k].capped && progs[k].done < s->thoroughBound; k = 0;
            if (rc) break; if (tEnd > wallNs() + 15000000000ll) tEnd = wallNs() + 15000000000ll; }
        for (mc::Scenario * s = scenarios; s && k < 512; s = s->next, ++k) {
            Prog & g = progs[k];
            if (only && strcmp(only, s->name)) { g.skip = true; continue; }
            if (!thorough && (s->flags & mc::THOROUGHONLY)) { g.skip = true; continue; }
            if (pass == 1 && (!g.capped || g.bad)) continue;
            if (rc == 1 && wallNs() - t0 > total) { g.skip = true; continue; } /* the answer is known */
            if (pass == 2 && (g.skip || g.bad || g.capped || g.done >= s->thoroughBound)) continue;
            i64 const share = (tEnd - wallNs()) / (todo - idx); ++idx;
            if (pass == 1 && share < 1500000000ll) continue;
            if (pass == 2 && share < 100000000ll) continue;
            i64 const sEnd = wallNs() + (share > 0 ? share : 200000000ll);
            int const maxB = forceBound >= 0 ? forceBound : thorough || pass == 2 ? s->thoroughBound : s->quickBound;
            g.capped = false; i64 const ts = wallNs();
            for (int b = g.done + 1; b <= maxB; ++b) {
                resetShm(b == g.done + 1 && (pass || b == 0)); curScenario = s; flags = s->flags; bound = b; deadlineWall = sEnd;
                runParallel(b == 0 ? 1 : jobs);
                g.ex += shm->execs; g.tr += shm->transitions; g.pr += shm->prunes; g.na += shm->nAccess; g.st += shm->states; if (shm->nOutcomes > g.oc) g.oc = shm->nOutcomes; if (shm->maxSteps > g.ms) g.ms = shm->maxSteps; if (shm->maxThreads > g.mt) g.mt = shm->maxThreads;
                if (shm->visitedFull) fprintf(stderr, "note: %s: state cache full, pruning less\n", s->name);
                if (shm->violated) {
                    static Choice vcp[MAXCHOICES]; int n = shm->vlen; memcpy(vcp, shm->vc, sizeof(Choice) * (size_t) n); static char msg[2048]; snprintf(msg, sizeof msg, "%s", shm->msg);
                    int r1 = replayOnce(s, b, vcp, n, nullptr); bool same1 = r1 == 1 && true; char m1[2048]; snprintf(m1, sizeof m1, "%s", r1 < 0 ? shm->imsg : shm->msg);
                    FILE * tf = tracePath ? fopen(tracePath, "w") : nullptr;
                    int r2 = replayOnce(s, b, vcp, n, tf); if (tf) fclose(tf);
                    fprintf(of, "{\"scenario\":\"%s\",\"violation\":", s->name); jsonStr(of, msg); fprintf(of, ",\"reproduced\":%s,\"bound\":%d,\"executions\":%llu,\"replay_msg\":", same1 && r2 == 1 ? "true" : "false", b, (unsigned long long) g.ex); jsonStr(of, m1);
                    fprintf(of, ",\"replay\":\"scenario %s bound %d choices %d", s->name, b, n); for (int i = 0; i < n; ++i) fprintf(of, " %d/%d", vcp[i].chosen, vcp[i].n); fprintf(of, "\"}\n"); fflush(of);
                    rc = same1 && r2 == 1 ? (rc == 2 ? 2 : 1) : 2; g.bad = true; break;
                }
                if (shm->ierr) { fprintf(of, "{\"scenario\":\"%s\",\"internal_error\":", s->name); jsonStr(of, shm->imsg); fprintf(of, "}\n"); fflush(of); rc = 2; g.bad = true; break; }
                if (shm->capped) { g.capped = pass < 2; break; }
                g.done = b;
            }
            g.wall += wallNs() - ts;
        }
    }
    int k = 0;
    for (mc::Scenario * s = scenarios; s && k < 512; s = s->next, ++k) {
        Prog & g = progs[k]; if (g.skip || g.bad) continue;
        int const maxB = forceBound >= 0 ? forceBound : thorough ? s->thoroughBound : s->quickBound;
        fprintf(of, "{\"scenario\":\"%s\",\"bound_completed\":%d,\"bound_wanted\":%d,\"capped\":%s,\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"accesses_checked\":%llu,\"prunes\":%llu,\"outcomes\":%llu,\"max_steps\":%llu,\"threads\":%llu,\"wall_s\":%.2f}\n",
            s->name, g.done, maxB, g.capped ? "true" : "false", (unsigned long long) g.ex, (unsigned long long) g.st, (unsigned long long) g.tr, (unsigned long long) g.na, (unsigned long long) g.pr, (unsigned long long) g.oc, (unsigned long long) g.ms, (unsigned long long) g.mt, (double) g.wall / 1e9);
    }
    fflush(of);
    return rc;
}
