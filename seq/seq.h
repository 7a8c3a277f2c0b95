/* seq: exhaustive bounded enumerator ("stateless explicit-state model checker")
   for sequential code. A test body is a deterministic function of the answers
   of choose(); the engine runs it once for every possible answer vector
   (depth-first, restarted from the initial state), on the real code, under
   AddressSanitizer and UBSan, next to a reference model. */
#ifndef SEQ_SEQ_H
#define SEQ_SEQ_H
#include <cstddef>
#include <cstdint>

namespace seq {

[[noreturn]] void fail(char const * fmt, ...) __attribute__((format(printf,1,2)));
/** All n answers 0..n-1 are explored. */
int choose(int n);
inline bool flip() { return choose(2) != 0; }
/** Tier-dependent bound given at registration. */
int depth();
bool thorough();
/** Describes the current step; only printed on replay. */
void op(char const * fmt, ...) __attribute__((format(printf,1,2)));
/** Registers a reached (model) state, for the coverage counts. */
void state(std::uint64_t hash);
/** Counts n transitions checked (choose() already counts one). */
void count(std::uint64_t n = 1);
/** Gives a long loop in one path more time. */
void progress();
/** Live heap blocks allocated by this path. */
long liveBlocks();
/** While armed, every operator new/malloc of this path may fail; at most
    `maxFaults` per path. */
void armAllocFaults(int maxFaults);
void disarmAllocFaults();
int faultsFired();
/** For harnesses with allocation functions of their own: whether this one fails. */
bool allocFault();
/** Disable leak check for this path. */
void allowLeaks();
/** Records one sample of what was checked (kept: the first few). */
void sample(char const * fmt, ...) __attribute__((format(printf,1,2)));

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h;
}

struct Test {
    char const * name; void (*fn)(); int quick; int thorough; Test * next;
    Test(char const * n, void (*f)(), int q, int t);
};

/** Object with identity whose lifetime is checked: double destruction, use
    after destruction and leaks are violations. */
struct Tracked {
    static long live; /* number of live objects */
    int v;
    void * self;
    std::uint32_t magic;
    void chk(char const * w) const {
        if (magic != 0x7ac4edu) fail("%s of an object which is not alive", w);
        if (self != this) fail("%s of an object which was relocated bytewise", w);
    }
    Tracked(int v_ = 0) : v(v_), self(this), magic(0x7ac4edu) { ++live; }
    Tracked(Tracked const & o) : v(o.v), self(this), magic(0x7ac4edu) { o.chk("copy"); ++live; }
    Tracked(Tracked && o) : v(o.v), self(this), magic(0x7ac4edu) { o.chk("move"); if (&o != this) o.v = -1; ++live; }
    Tracked & operator=(Tracked const & o) { chk("assignment to"); o.chk("assignment from"); v = o.v; return *this; }
    Tracked & operator=(Tracked && o) { chk("assignment to"); o.chk("assignment from"); v = o.v; if (&o != this) o.v = -1; return *this; }
    ~Tracked() { chk("destruction"); magic = 0xdeadu; --live; }
    friend bool operator==(Tracked const & a, Tracked const & b) { a.chk("compare"); b.chk("compare"); return a.v == b.v; }
    friend bool operator!=(Tracked const & a, Tracked const & b) { return !(a == b); }
    friend bool operator<(Tracked const & a, Tracked const & b) { a.chk("compare"); b.chk("compare"); return a.v < b.v; }
};

} /* namespace seq */

#define SEQ_CHECK(c, ...) do { if (!(c)) ::seq::fail(__VA_ARGS__); } while (0)
#define SEQ_TEST(name, q, t) \
    static void seqTest_ ## name(); \
    static ::seq::Test seqTestReg_ ## name(#name, &seqTest_ ## name, q, t); \
    static void seqTest_ ## name()
#endif
