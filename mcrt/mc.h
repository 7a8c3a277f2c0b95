/* mcrt: harness-side API of the stateless model checker. */
#ifndef MCRT_MC_H
#define MCRT_MC_H
#include <cstdint>
#include <cstddef>

namespace mc {

/** Report a property violation (never returns). */
[[noreturn]] void fail(char const * fmt, ...) __attribute__((format(printf,1,2)));

/** Environment/data nondeterminism: all n answers are explored. `cost` is
    charged against the deviation bound for every answer but 0. */
int choose(int n, int cost = 0, char const * what = "choose");

/** Scheduling point + position in the global real-time order. */
std::uint64_t stamp(char const * what = nullptr);

/** Ghost counters (0..63): sequentially consistent harness-only state, which is
    invisible to the race detector and creates no happens-before edges. */
long ghostAdd(int idx, long delta); /* scheduling point; returns new value */
long ghostGet(int idx);             /* not a scheduling point */
void ghostSet(int idx, long v);     /* not a scheduling point */

/** Ghost log: append v to log `idx` (0..7). Not a scheduling point. */
void logPush(int idx, long v);
int logSize(int idx);
long logAt(int idx, int i);

/** Harmless scheduling point. */
void point();

/** Fold an observed result into the outcome of this execution. */
void outcome(std::uint64_t v);

/** Virtual clock. */
std::int64_t nowNs();
void advanceTime(std::int64_t ns);

/** Block the calling thread until pred(arg) (evaluated in the scheduler). */
void blockUntil(bool (*pred)(void *), void * arg, char const * what);
/** Same with a deadline on the virtual clock; returns false on timeout. */
bool blockUntilTimed(bool (*pred)(void *), void * arg, std::int64_t deadlineNs, char const * what);

/** Block the calling thread until no other thread can take a step (at most one
    thread at a time may use this). */
void awaitQuiescence(char const * what);

/** Number of scheduling points thread `tid` has passed. Fold any decision made
    on it into the state with outcome(). */
int points(int tid);
int self(); /* id of the calling thread, 0 = scenario body */
int liveThreads(); /* threads not yet finished, including the caller */

/** Text for the trace of a replay. */
void note(char const * fmt, ...) __attribute__((format(printf,1,2)));

/** Number of live heap blocks of this execution. */
long liveBlocks();

/** Raw access to harness memory from fault models: skip instrumentation. */
struct Quiet { Quiet(); ~Quiet(); };

/** Orders simulated-system-call effects: creates a full ordering (and
    happens-before, like a kernel does) on object `obj`. */
void sysPoint(void const * obj, char const * what);
void sysHb(void const * obj); /* acquire+release on obj, no scheduling point */

/* Fault injection into operator new/malloc: while armed every allocation of the
   calling execution may fail at cost 1. */
void armAllocFaults(bool on);

struct Scenario {
    char const * name;
    void (*fn)();
    int quickBound;    /* deviation bound for the quick tier */
    int thoroughBound; /* and for the thorough tier */
    unsigned flags;
    Scenario * next;
    Scenario(char const * n, void (*f)(), int qb, int tb, unsigned fl);
};

enum Flags : unsigned {
    WEAK = 1u,          /* explore stale values of weak atomic loads */
    SPURIOUS = 2u,      /* explore spurious condition wake-ups */
    NOLEAK = 4u,        /* do not treat live blocks at the end as a leak */
    UNLOCKPOINTS = 8u,  /* scheduling point before every unlock */
    EARLYTIMEOUT = 16u, /* timed waits may time out before other threads ran */
    THOROUGHONLY = 32u,
    CASFAIL = 64u,      /* weak CAS may fail spuriously */
};

} /* namespace mc */

#define MC_CHECK(c, ...) do { if (!(c)) ::mc::fail(__VA_ARGS__); } while (0)
#define MC_SCENARIO(name, qb, tb, flags) \
    static void mcScenario_ ## name(); \
    static ::mc::Scenario mcScenarioReg_ ## name(#name, &mcScenario_ ## name, qb, tb, flags); \
    static void mcScenario_ ## name()

#endif
