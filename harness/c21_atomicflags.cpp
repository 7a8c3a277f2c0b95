// C21: AtomicFlags: linearizability of all operation pairs/triples, and memory ordering.
#include "mc.h"
#include <atomic>
#include <cstdint>
#include <memory>
#include <thread>
#include <sharemind/AtomicFlags.h>

namespace {
using U = std::uint8_t;
using AF = sharemind::AtomicFlags<U>;
using F = sharemind::Flags<U>;
enum class E : U { x = 1, y = 2, z = 4 };
using AE = sharemind::AtomicFlags<E>;

constexpr int numOps = 18;
struct Ev { int op; U arg, arg2; int res; std::uint64_t b, e; };
/* Executes on the real object. res: 0..255 value, 256+ success/failure bits. */
int real(AF & f, int op, U a, U a2) {
    switch (op) {
    case 0: return f.fetchSetFlags(a).load();
    case 1: return f.fetchUnsetFlags(a).load();
    case 2: return f.fetchToggleFlags(a).load();
    case 3: return f.exchange(a).load();
    case 4: f.store(a); return -1;
    case 5: return f.load().load();
    case 6: { U x = a2; bool const r = f.compareExchangeStrong(x, a); return r * 256 + x; }
    case 7: { F x = a2; bool const r = f.compareExchangeStrong(x, a); return r * 256 + x.load(); }
    case 8: { U x = a2; bool const r = f.compareExchangeStrong(x, a, std::memory_order_acq_rel, std::memory_order_acquire); return r * 256 + x; }
    case 9: { F x = a2; bool const r = f.compareExchangeStrong(x, a, std::memory_order_acq_rel, std::memory_order_acquire); return r * 256 + x.load(); }
    case 10: return f.fetchSetFlags().load();
    case 11: return f.fetchUnsetFlags().load();
    case 12: f.setFlags(); return -1;
    case 13: f.unsetFlags(); return -1;
    case 14: return f.hasAnyOf(a);
    case 15: return f.hasAllOf(a);
    case 16: return f.hasNoneOf(a);
    default: /* read-modify-write by a weak loop */
        { F x = f.load(); while (!f.compareExchangeWeak(x, U(x.load() + 1))) {} return x.load(); }
    }
}
int spec(U & v, int op, U a, U a2) {
    U const o = v;
    switch (op) {
    case 0: v |= a; return o;
    case 1: v &= U(~a); return o;
    case 2: v ^= a; return o;
    case 3: v = a; return o;
    case 4: v = a; return -1;
    case 5: return o;
    case 6: case 7: case 8: case 9: if (v == a2) { v = a; return 256 + a2; } return o;
    case 10: v = 255; return o;
    case 11: v = 0; return o;
    case 12: v = 255; return -1;
    case 13: v = 0; return -1;
    case 14: return (v & a) != 0;
    case 15: return (v & a) == a;
    case 16: return (v & a) == 0;
    default: ++v; return o;
    }
}
bool lin(Ev const * ev, int n, unsigned done, U v, U final) {
    if (done == (1u << n) - 1) return v == final;
    for (int i = 0; i < n; ++i) {
        if (done >> i & 1) continue;
        bool first = true;
        for (int j = 0; j < n; ++j) if (!(done >> j & 1) && ev[j].e < ev[i].b) first = false;
        if (!first) continue;
        U w = v;
        if (spec(w, ev[i].op, ev[i].arg, ev[i].arg2) == ev[i].res && lin(ev, n, done | 1u << i, w, final)) return true;
    }
    return false;
}
void run(AF & f, Ev & e) { e.b = mc::stamp(); e.res = real(f, e.op, e.arg, e.arg2); e.e = mc::stamp(); }
void pick(Ev & e, U a) { e.op = mc::choose(numOps); e.arg = a; e.arg2 = mc::choose(2) ? 5 : 2; }
template <int threads, int perThread> void linearizable() {
    U const init = mc::choose(2) ? 5 : 2;
    AF f{init};
    static Ev ev[threads * perThread];
    for (int i = 0; i < threads * perThread; ++i) pick(ev[i], U(1 + (i % 2) * 2 + 4 * (i / 2)));
    auto body = [&](int t) { for (int k = 0; k < perThread; ++k) run(f, ev[t * perThread + k]); };
    std::thread a([&] { body(1); });
    if (threads > 2) { std::thread b([&] { body(2); }); body(0); b.join(); } else body(0);
    a.join();
    U const fin = f.load();
    if (!lin(ev, threads * perThread, 0, init, fin)) {
        for (auto const & e : ev) mc::note("op %d arg %d expected %d: %d [%llu, %llu]", e.op, e.arg, e.arg2, e.res, static_cast<unsigned long long>(e.b), static_cast<unsigned long long>(e.e));
        mc::fail("no sequential order of the operations on %d explains their results and the final value %d", init, fin);
    }
}
} // namespace

MC_SCENARIO(pairs, 4, 8, mc::CASFAIL) { linearizable<2, 1>(); }
MC_SCENARIO(two_each, 3, 6, 0) {
    /* restricted to mutating operations */
    U const init = 2;
    AF f{init};
    static Ev ev[4];
    static int const ops[] = {0, 1, 2, 3, 7, 17};
    for (int i = 0; i < 4; ++i) { ev[i].op = ops[mc::choose(6)]; ev[i].arg = U(1 + i); ev[i].arg2 = 2; }
    std::thread a([&] { run(f, ev[2]); run(f, ev[3]); });
    run(f, ev[0]); run(f, ev[1]);
    a.join();
    U const fin = f.load();
    if (!lin(ev, 4, 0, init, fin)) mc::fail("no sequential order explains the results of %d %d | %d %d", ev[0].op, ev[1].op, ev[2].op, ev[3].op);
}
MC_SCENARIO(triples, 3, 5, 0) {
    U const init = mc::choose(2) ? 5 : 2;
    AF f{init};
    static Ev ev[3];
    static int const ops[] = {0, 1, 2, 3, 6, 9, 10, 11, 5, 17};
    for (int i = 0; i < 3; ++i) { ev[i].op = ops[mc::choose(10)]; ev[i].arg = U(1 << i | 8); ev[i].arg2 = 2; }
    std::thread a([&] { run(f, ev[1]); }), b([&] { run(f, ev[2]); });
    run(f, ev[0]);
    a.join(); b.join();
    U const fin = f.load();
    if (!lin(ev, 3, 0, init, fin)) mc::fail("no sequential order explains the results of %d | %d | %d", ev[0].op, ev[1].op, ev[2].op);
}
/* Setting flags with the given (default or release) order publishes what was
   written before; reading with the given order acquires. */
MC_SCENARIO(publishes, 4, 7, mc::WEAK | mc::CASFAIL) {
    auto const rel = std::memory_order_release; auto const acq = std::memory_order_acquire;
    bool const dflt = mc::choose(2);
    AE f(0);
    U const y = U(E::y), x = U(E::x);
    int data = 0;
    int const w = mc::choose(9), r = mc::choose(10);
    auto const ar = std::memory_order_acq_rel;
    std::thread a([&] {
        data = 1;
        switch (w) {
        case 0: dflt ? f.fetchSetFlags(y) : f.fetchSetFlags(y, rel); break;
        case 1: dflt ? f.fetchToggleFlags(y) : f.fetchToggleFlags(y, rel); break;
        case 2: dflt ? f.exchange(y) : f.exchange(y, rel); break;
        case 3: dflt ? f.store(y) : f.store(y, rel); break;
        case 4: { U e = 0; dflt ? f.compareExchangeStrong(e, y) : f.compareExchangeStrong(e, y, rel, std::memory_order_relaxed); break; }
        case 5: { sharemind::Flags<E> e = U(0); while (!(dflt ? f.compareExchangeWeak(e, y) : f.compareExchangeWeak(e, y, rel, std::memory_order_relaxed))) {} break; }
        case 6: dflt ? f.setFlags() : f.setFlags(rel); break;
        case 7: dflt ? f.fetchSetFlags() : f.fetchSetFlags(rel); break;
        default: { U e = 0; while (!(dflt ? f.compareExchangeWeak(e, y) : f.compareExchangeWeak(e, y, rel))) {} break; }
        }
    });
    bool seen = false;
    switch (r) {
    case 0: seen = (dflt ? f.load() : f.load(acq)).hasAnyOf(y); break;
    case 1: seen = dflt ? f.hasAnyOf(y) : f.hasAnyOf(y, acq); break;
    case 2: seen = dflt ? f.hasAllOf(y) : f.hasAllOf(y, acq); break;
    case 3: seen = !(dflt ? f.hasNoneOf(y) : f.hasNoneOf(y, acq)); break;
    case 4: seen = (dflt ? f.fetchUnsetFlags(x) : f.fetchUnsetFlags(x, acq)).hasAnyOf(y); break;
    case 5: seen = (dflt ? f.fetchUnsetFlags() : f.fetchUnsetFlags(ar)).hasAnyOf(y); break;
    case 6: { U e = x; seen = !(dflt ? f.compareExchangeStrong(e, x) : f.compareExchangeStrong(e, x, ar, acq)) && (e & y); break; }
    case 7: { sharemind::Flags<E> e = x; seen = !(dflt ? f.compareExchangeStrong(e, x) : f.compareExchangeStrong(e, x, ar)) && e.hasAnyOf(y); break; }
    case 8: seen = (dflt ? f.exchange(x) : f.exchange(x, acq)).hasAnyOf(y); break;
    default: seen = (dflt ? f.fetchToggleFlags(x) : f.fetchToggleFlags(x, acq)).hasAnyOf(y); break;
    }
    if (seen) MC_CHECK(data == 1, "flag seen, but not what was written before setting it");
    a.join();
}
/* The same with a flag being cleared. */
MC_SCENARIO(publishes_clearing, 4, 7, mc::WEAK | mc::CASFAIL) {
    auto const rel = std::memory_order_release; auto const acq = std::memory_order_acquire; auto const rlx = std::memory_order_relaxed;
    bool const dflt = mc::choose(2);
    U const y = U(E::y), x = U(E::x);
    AE f(y);
    int data = 0;
    int const w = mc::choose(7), r = mc::choose(6);
    std::thread a([&] {
        data = 1;
        switch (w) {
        case 0: dflt ? f.unsetFlags() : f.unsetFlags(rel); break;
        case 1: dflt ? f.fetchUnsetFlags() : f.fetchUnsetFlags(rel); break;
        case 2: dflt ? f.fetchUnsetFlags(y) : f.fetchUnsetFlags(y, rel); break;
        case 3: dflt ? f.fetchToggleFlags(y) : f.fetchToggleFlags(y, rel); break;
        case 4: { U e = y; while (!(dflt ? f.compareExchangeWeak(e, 0) : f.compareExchangeWeak(e, 0, rel, rlx))) {} break; }
        case 5: { sharemind::Flags<E> e = y; dflt ? f.compareExchangeStrong(e, 0) : f.compareExchangeStrong(e, 0, rel, rlx); break; }
        default: { sharemind::Flags<E> e = y; while (!(dflt ? f.compareExchangeWeak(e, 0) : f.compareExchangeWeak(e, 0, rel))) {} break; }
        }
    });
    bool seen = false;
    switch (r) {
    case 0: seen = !(dflt ? f.has(y, y) : f.has(y, y, acq)); break;
    case 1: seen = dflt ? f.has(0, y) : f.has(0, y, acq); break;
    case 2: seen = dflt ? f.hasNoneOf(y) : f.hasNoneOf(y, acq); break;
    case 3: seen = !(dflt ? f.fetchSetFlags(x) : f.fetchSetFlags(x, acq)).hasAnyOf(y); break;
    case 4: seen = !(dflt ? f.fetchSetFlags() : f.fetchSetFlags(std::memory_order_acq_rel)).hasAnyOf(y); break;
    default: seen = !(dflt ? f.load() : f.load(acq)).hasAllOf(y); break;
    }
    if (seen) MC_CHECK(data == 1, "flag seen cleared, but not what was written before clearing it");
    a.join();
}
/* By default operations are sequentially consistent: of two threads which each change their own flags and then look at the other's, one sees the change. */
MC_SCENARIO(one_order_for_all, 4, 6, mc::WEAK) {
    U const y = U(E::y);
    AE f(0), g(y);
    int const w = mc::choose(12), r = mc::choose(7);
    auto change = [w, y](AE & a, bool set) {
        switch (w) {
        case 0: a.store(set ? y : U(0)); break;
        case 1: a.exchange(set ? y : U(0)); break;
        case 2: a.fetchToggleFlags(y); break;
        case 3: set ? a.fetchSetFlags(y) : a.fetchUnsetFlags(y); break;
        case 4: set ? a.fetchSetFlags() : a.fetchUnsetFlags(); break;
        case 5: set ? a.setFlags() : a.unsetFlags(); break;
        case 6: { U e = set ? U(0) : y; a.compareExchangeStrong(e, set ? y : U(0)); break; }
        case 7: { sharemind::Flags<E> e = set ? U(0) : y; a.compareExchangeStrong(e, set ? y : U(0)); break; }
        case 8: { U e = set ? U(0) : y; while (!a.compareExchangeWeak(e, set ? y : U(0))) {} break; }
        case 9: { sharemind::Flags<E> e = set ? U(0) : y; while (!a.compareExchangeWeak(e, set ? y : U(0))) {} break; }
        case 10: { U e = set ? U(0) : y; a.compareExchangeStrong(e, set ? y : U(0), std::memory_order_seq_cst, std::memory_order_relaxed); break; }
        default: { U e = set ? U(0) : y; while (!a.compareExchangeWeak(e, set ? y : U(0), std::memory_order_seq_cst, std::memory_order_relaxed)) {} break; }
        }
    };
    auto isSet = [r, y](AE & a) -> bool {
        switch (r) {
        case 0: return a.load().hasAnyOf(y);
        case 1: return a.has(y, y);
        case 2: return a.hasAnyOf(y);
        case 3: return a.hasAllOf(y);
        case 4: return !a.hasNoneOf(y);
        case 5: { U e = U(E::x) | y; a.compareExchangeStrong(e, e); return e & y; }
        default: return a.exchange(y).hasAnyOf(y);
        }
    };
    bool aSaw = false;
    std::thread t([&] { change(f, true); aSaw = !isSet(g); });
    change(g, false);
    bool const bSaw = isSet(f);
    t.join();
    MC_CHECK(aSaw || bSaw, "neither of two threads sees the other's change (change %d, look %d)", w, r);
}
MC_SCENARIO(counting_by_bits, 5, 8, 0) {
    AF f{U(0)};
    std::thread a([&] { f.fetchSetFlags(1); f.fetchSetFlags(2); }), b([&] { f.fetchSetFlags(4); f.fetchToggleFlags(32); }), c([&] { f.fetchSetFlags(16); f.fetchUnsetFlags(16); });
    f.fetchSetFlags(64);
    a.join(); b.join(); c.join();
    MC_CHECK(f.load().load() == (1 | 2 | 4 | 32 | 64), "updates lost: %d", f.load().load());
}
