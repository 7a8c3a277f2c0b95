// C05: every history of promise/future/packaged-task operations of one thread.
#include "seq.h"
#include <limits>
#include <memory>
#include <stdexcept>
#include <vector>
#include <sharemind/Future.h>
using namespace seq;
using sharemind::Future;
using sharemind::Promise;
using sharemind::BrokenPromiseException;

namespace {
struct Err { int n; };
int throwNext = 0;
struct Val: Tracked {
    explicit Val(int x) : Tracked(x) { if (throwNext) { throwNext = 0; throw Err{99}; } }
    Val(Val && o) : Tracked(std::move(o)) {}
    Val(Val const & o) : Tracked(o) {}
};

enum Kind { NONE, VALUE, EXC, BROKEN };
/* kinds of continuation */
enum Cont { C_NO = -1, C_PASS, C_THROW, C_IGNORE, C_FUT_READY, C_FUT_INVALID, C_FUT_EXC, C_N };
struct MS { Kind k = NONE; int v = 0; int cont = C_NO; int contTo = -1; };

constexpr int NP = 2, NF = 2;

struct World {
    Promise<Val> p[NP];
    Future<Val> f[NF];
    std::vector<MS> s;
    int ps[NP], pf[NP], fs[NF]; /* state indices or -1 */
    int contRuns = 0, mContRuns = 0;
    int serial = 0;

    int newState() { s.push_back(MS()); return (int) s.size() - 1; }
    void set(int i, Kind k, int v) {
        SEQ_CHECK(s[i].k == NONE, "harness model: set twice");
        s[i].k = k; s[i].v = v;
        if (s[i].cont != C_NO) { int const c = s[i].cont, to = s[i].contTo; s[i].cont = C_NO; runCont(c, i, to); }
    }
    void runCont(int c, int from, int to) {
        ++mContRuns;
        Kind const k = s[from].k; int const v = s[from].v;
        switch (c) {
            case C_PASS: if (k == VALUE) set(to, VALUE, v + 100); else set(to, k, v); break;
            case C_THROW: set(to, EXC, 55); break;
            case C_IGNORE: set(to, VALUE, 1000); break;
            case C_FUT_READY: set(to, VALUE, 2000); break;
            case C_FUT_INVALID: set(to, BROKEN, 0); break;
            case C_FUT_EXC: set(to, EXC, 66); break;
        }
    }
    template <typename G> Kind kindOf(G g, int & v) {
        try { v = g(); return VALUE; }
        catch (Err const & e) { v = e.n; return EXC; }
        catch (BrokenPromiseException const & e) { SEQ_CHECK(e.what() && *e.what(), "no message"); v = 0; return BROKEN; }
    }
    void setPs(int i, int st, int ft) { /* promise i gets overwritten */
        if (ps[i] >= 0) set(ps[i], BROKEN, 0);
        ps[i] = st; pf[i] = ft;
    }
    void check() {
        for (int i = 0; i < NP; ++i) {
            SEQ_CHECK(p[i].isValid() == (ps[i] >= 0), "promise %d: isValid() is %d", i, p[i].isValid());
            SEQ_CHECK(p[i].hasFuture() == (pf[i] >= 0), "promise %d: hasFuture() is %d", i, p[i].hasFuture());
        }
        for (int i = 0; i < NF; ++i) {
            SEQ_CHECK(f[i].isValid() == (fs[i] >= 0), "future %d: isValid() is %d", i, f[i].isValid());
            if (fs[i] >= 0) {
                bool const r = s[fs[i]].k != NONE;
                SEQ_CHECK(f[i].isReady() == r, "future %d: isReady() is %d", i, f[i].isReady());
                SEQ_CHECK(f[i].waitFor(std::chrono::nanoseconds(0)) == r, "future %d: waitFor(0)", i);
                if (r) f[i].wait();
            }
        }
        SEQ_CHECK(contRuns == mContRuns, "%d continuations ran, expected %d", contRuns, mContRuns);
        std::uint64_t h = 7;
        for (int i = 0; i < NP; ++i) { h = mix(h, ps[i] < 0); h = mix(h, pf[i] < 0); h = mix(h, ps[i] == pf[i]); }
        for (int i = 0; i < NF; ++i) { h = mix(h, fs[i] < 0 ? 99 : s[fs[i]].k * 16 + s[fs[i]].cont + 1); h = mix(h, fs[i] >= 0 && (fs[i] == ps[0]) ); }
        state(h);
    }
    Future<Val> then(Future<Val> & x, int c) {
        switch (c) {
            case C_PASS: return x.then([this](Future<Val> y) { ++contRuns; SEQ_CHECK(y.isValid() && y.isReady(), "continuation got an unready future"); Val v(y.takeValue()); v.v += 100; return v; });
            case C_THROW: return x.then([this](Future<Val>) -> Val { ++contRuns; throw Err{55}; });
            case C_IGNORE: return x.then([this](Future<Val> y) { ++contRuns; SEQ_CHECK(y.isReady(), "unready"); return Val(1000); });
            case C_FUT_READY: return x.then([this](Future<Val>) { ++contRuns; return sharemind::makeReadyFuture(Val(2000)); });
            case C_FUT_INVALID: return x.then([this](Future<Val>) { ++contRuns; return Future<Val>(); });
            default: return x.then([this](Future<Val>) { ++contRuns; return sharemind::makeExceptionalFuture<Val>(Err{66}); });
        }
    }
};
} // namespace

SEQ_TEST(histories, 5, 6) {
    throwNext = 0;
    World w;
    for (int i = 0; i < NP; ++i) { w.ps[i] = w.pf[i] = w.newState(); }
    for (int i = 0; i < NF; ++i) w.fs[i] = -1;
    w.check();
    struct Op { int k, a, b, c; };
    for (int step = 0; step < depth(); ++step) {
        std::vector<Op> ops;
        for (int i = 0; i < NP; ++i) {
            ops.push_back({0, i, 0, 0});
            if (w.ps[i] >= 0) { ops.push_back({1, i, 0, 0}); ops.push_back({2, i, 0, 0}); ops.push_back({3, i, 0, 0}); ops.push_back({9, i, 0, 0}); }
            if (w.pf[i] >= 0) for (int j = 0; j < NF; ++j) ops.push_back({4, i, j, 0});
        }
        for (int j = 0; j < NF; ++j) {
            if (w.fs[j] >= 0) {
                if (w.s[w.fs[j]].k != NONE) ops.push_back({5, j, 0, 0});
                for (int c = 0; c < C_N; ++c) ops.push_back({6, j, (j + c) % NF, c});
                ops.push_back({7, j, 1 - j, 0});
            }
        }
        ops.push_back({8, 0, 0, 0}); /* swap promises */
        ops.push_back({10, 0, 0, 0}); /* move promise 0 to 1 */
        ops.push_back({11, 0, 0, 0}); /* swap futures */
        ops.push_back({12, 0, 0, 0}); /* self move / self swap */
        Op const o = ops[choose((int) ops.size())];
        switch (o.k) {
            case 0: { op("p%d = Promise()", o.a); int const st = w.newState(); w.p[o.a] = Promise<Val>(); w.setPs(o.a, st, st); break; }
            case 1: { int const v = ++w.serial; op("p%d.setValue(%d)", o.a, v); int const st = w.ps[o.a]; w.ps[o.a] = -1;
                if (v & 1) w.p[o.a].setValue(Val(v)); else { Val const x(v); w.p[o.a].setValue(x); SEQ_CHECK(x.v == v, "setValue changed its argument"); }
                w.set(st, VALUE, v); break; }
            case 2: { int const v = ++w.serial; op("p%d.setException(%d)", o.a, v); int const st = w.ps[o.a]; w.ps[o.a] = -1;
                if (v & 1) w.p[o.a].setException(Err{v}); else w.p[o.a].setException(std::make_exception_ptr(Err{v}));
                w.set(st, EXC, v); break; }
            case 3: { op("p%d.abandon()", o.a); int const st = w.ps[o.a]; w.ps[o.a] = -1; w.p[o.a].abandon(); w.set(st, BROKEN, 0); break; }
            case 9: { op("p%d.emplaceValue() throws", o.a); bool t = false; throwNext = 1;
                try { w.p[o.a].emplaceValue(1); } catch (Err const & e) { t = e.n == 99; }
                SEQ_CHECK(t, "exception from the value constructor lost"); break; }
            case 4: { op("f%d = p%d.takeFuture()", o.b, o.a); w.f[o.b] = w.p[o.a].takeFuture(); w.fs[o.b] = w.pf[o.a]; w.pf[o.a] = -1; break; }
            case 5: { op("f%d.takeValue()", o.a); int v = -1; Kind const k = w.kindOf([&] { return w.f[o.a].takeValue().v; }, v);
                MS const & m = w.s[w.fs[o.a]]; SEQ_CHECK(k == m.k && (k == BROKEN || v == m.v), "takeValue gave kind %d value %d, expected kind %d value %d", k, v, m.k, m.v);
                w.fs[o.a] = -1; break; }
            case 6: { op("f%d = f%d.then(kind %d)", o.b, o.a, o.c); int const from = w.fs[o.a], to = w.newState();
                Future<Val> r(w.then(w.f[o.a], o.c)); SEQ_CHECK(!w.f[o.a].isValid(), "future valid after then()"); w.fs[o.a] = -1;
                w.f[o.b] = std::move(r); w.fs[o.b] = to;
                if (w.s[from].k != NONE) w.runCont(o.c, from, to); else { w.s[from].cont = o.c; w.s[from].contTo = to; }
                break; }
            case 7: { op("f%d = std::move(f%d)", o.b, o.a); w.f[o.b] = std::move(w.f[o.a]); w.fs[o.b] = w.fs[o.a]; w.fs[o.a] = -1; break; }
            case 8: { op("swap(p0, p1)"); using std::swap; swap(w.p[0], w.p[1]); std::swap(w.ps[0], w.ps[1]); std::swap(w.pf[0], w.pf[1]); break; }
            case 10: { op("p1 = std::move(p0)"); w.p[1] = std::move(w.p[0]); int const a = w.ps[0], b = w.pf[0]; w.ps[0] = w.pf[0] = -1; w.setPs(1, a, b); break; }
            case 11: { op("swap(f0, f1)"); using std::swap; swap(w.f[0], w.f[1]); std::swap(w.fs[0], w.fs[1]); break; }
            case 12: { op("self swap"); w.p[0].swap(w.p[0]); w.f[0].swap(w.f[0]); break; }
        }
        w.check();
    }
    /* End: promises go first, whatever is left gets broken, then futures are checked. */
    for (int i = 0; i < NP; ++i) { { Promise<Val> x(std::move(w.p[i])); } if (w.ps[i] >= 0) { int const st = w.ps[i]; w.ps[i] = -1; w.set(st, BROKEN, 0); } }
    for (int j = 0; j < NF; ++j) if (w.fs[j] >= 0) {
        MS const & m = w.s[w.fs[j]];
        if (m.k == NONE) { SEQ_CHECK(!w.f[j].isReady(), "ready"); continue; }
        int v = -1; Kind const k = w.kindOf([&] { return w.f[j].takeValue().v; }, v);
        SEQ_CHECK(k == m.k && (k == BROKEN || v == m.v), "final takeValue gave kind %d value %d, expected kind %d value %d", k, v, m.k, m.v);
    }
    SEQ_CHECK(w.contRuns == w.mContRuns, "%d continuations ran, expected %d", w.contRuns, w.mContRuns);
    sample("%d states created, %d continuations run, serial %d", (int) w.s.size(), w.contRuns, w.serial);
}

SEQ_TEST(packaged_tasks, 5, 7) {
    throwNext = 0;
    int calls = 0;
    sharemind::PackagedTask<Val(int)> t([&](int x) { ++calls; if (x == 0) throw Err{7}; return Val(x); }), u;
    SEQ_CHECK(t.isValid() && !u.isValid(), "validity");
    Future<Val> f(t.takeFuture());
    bool run = false, haveTask = true; int res = 0; bool reset = false;
    for (int i = 0; i < depth(); ++i) {
        int const o = choose(5);
        if (o == 0) { std::swap(t, u); haveTask = !haveTask; op("swap"); }
        else if (o == 1) { op("move"); if (haveTask) { u = std::move(t); } else { t = std::move(u); } haveTask = !haveTask; }
        else if (o == 2 || o == 3) {
            if (run) continue;
            op("run(%d)", o - 2);
            sharemind::PackagedTask<Val(int)> & x = haveTask ? t : u;
            x(o - 2); run = true; res = o - 2;
            SEQ_CHECK(!x.isValid(), "task valid after being run");
        } else if (!reset && !run) {
            op("reset");
            sharemind::PackagedTask<Val(int)> & x = haveTask ? t : u;
            x.reset(); reset = true;
            bool broken = false; try { f.takeValue(); } catch (BrokenPromiseException const &) { broken = true; }
            SEQ_CHECK(broken, "reset did not break the earlier promise");
            f = x.takeFuture();
            SEQ_CHECK(x.isValid(), "invalid after reset");
        }
        SEQ_CHECK(f.isReady() == run, "readiness");
        SEQ_CHECK(calls == (run ? 1 : 0), "called %d times", calls);
    }
    if (run) {
        try { int const v = f.takeValue().v; SEQ_CHECK(res == 1 && v == 1, "value %d", v); }
        catch (Err const & e) { SEQ_CHECK(res == 0 && e.n == 7, "exception"); }
    }
}
/* Resetting a task: it can be run again, and its earlier future, wherever that is, gets no other result. */
template <typename R, typename Get> void resetTask(Get get) {
    int calls = 0; int const before = choose(3); bool const taken = flip(), twice = flip();
    sharemind::PackagedTask<R(int)> t([&](int x) { ++calls; if (x == 0) throw Err{7}; return R(x); });
    Future<R> f;
    if (taken) f = t.takeFuture();
    if (before) t(before - 1);
    SEQ_CHECK(t.isValid() == !before && calls == (before ? 1 : 0), "before reset");
    op("reset"); t.reset(); if (twice) t.reset();
    SEQ_CHECK(t.isValid(), "invalid after reset");
    if (taken) {
        int r = -1;
        try { get(f); r = 2; } catch (Err const &) { r = 1; } catch (BrokenPromiseException const &) { r = 0; }
        SEQ_CHECK(r == before, "the earlier future received %d instead of %d", r, before);
    }
    Future<R> g(t.takeFuture());
    SEQ_CHECK(g.isValid() && !g.isReady() && t.isValid(), "after reset");
    int const again = choose(2);
    t(again);
    SEQ_CHECK(calls == (before ? 2 : 1) && g.isReady() && !t.isValid(), "run after reset");
    int r = -1; try { get(g); r = 1; } catch (Err const &) { r = 0; }
    SEQ_CHECK(r == again, "result after reset");
    state(before * 8 + taken * 4 + twice * 2 + again);
}
SEQ_TEST(reset_task, 0, 0) {
    throwNext = 0;
    if (flip()) resetTask<Val>([](Future<Val> & f) { SEQ_CHECK(f.takeValue().v == 1, "value"); });
    else resetTask<void>([](Future<void> & f) { f.takeValue(); });
}
SEQ_TEST(void_and_helpers, 0, 0) {
    {
        int n = 0; int const how = choose(3);
        sharemind::PackagedTask<void(int)> t([&](int x) { n = x; if (how == 1) throw Err{4}; });
        auto f(t.takeFuture());
        if (how < 2) t(3); else { sharemind::PackagedTask<void(int)> z(std::move(t)); }
        int r = 0;
        try { f.takeValue(); r = 1; } catch (Err const & e) { r = 2; SEQ_CHECK(e.n == 4, "exc"); } catch (BrokenPromiseException const &) { r = 3; }
        SEQ_CHECK(r == how + 1 && n == (how < 2 ? 3 : 0), "void task: %d", r);
    }
    { auto f(sharemind::makeReadyFuture()); SEQ_CHECK(f.isValid() && f.isReady(), "ready"); f.takeValue(); }
    { auto f(sharemind::makeReadyFuture(Val(3))); SEQ_CHECK(f.takeValue().v == 3, "v"); }
    { Val v(4); auto f(sharemind::makeReadyFuture(v)); SEQ_CHECK(v.v == 4 && f.takeValue().v == 4, "v"); }
    { auto f(sharemind::makeBrokenFuture<int>()); bool b = false; try { f.takeValue(); } catch (BrokenPromiseException const &) { b = true; } SEQ_CHECK(b && !f.isValid(), "broken"); }
    { auto f(sharemind::makeExceptionalFuture<int>(Err{3})); bool b = false; try { f.takeValue(); } catch (Err const & e) { b = e.n == 3; } SEQ_CHECK(b, "exc"); }
    { auto f(sharemind::makeExceptionalFuture<void>(std::make_exception_ptr(Err{3}))); bool b = false; try { f.takeValue(); } catch (Err const & e) { b = e.n == 3; } SEQ_CHECK(b, "exc"); }
    /* void chains with every outcome */
    int const how = choose(3), c = choose(4);
    Promise<void> p; auto f(p.takeFuture()); int runs = 0;
    bool const before = choose(2);
    auto set = [&] { if (how == 0) p.setValue(); else if (how == 1) p.setException(Err{8}); else p.abandon(); };
    if (before) set();
    Future<void> g;
    if (c == 0) g = f.then([&](Future<void> x) { ++runs; x.takeValue(); });
    else if (c == 1) g = f.then([&](Future<void>) { ++runs; throw Err{9}; });
    else if (c == 2) g = f.then([&](Future<void> x) { ++runs; return x; });
    else g = f.then([&](Future<void>) { ++runs; return Future<void>(); });
    if (!before) { SEQ_CHECK(!g.isReady() && runs == 0, "too early"); set(); }
    SEQ_CHECK(runs == 1 && g.isReady(), "ran %d times", runs);
    int r = 0, n = 0; try { g.takeValue(); r = 0; } catch (Err const & e) { r = 1; n = e.n; } catch (BrokenPromiseException const &) { r = 2; }
    if (c == 0 || c == 2) SEQ_CHECK(r == how && (r != 1 || n == 8), "outcome %d of %d", r, how);
    else if (c == 1) SEQ_CHECK(r == 1 && n == 9, "outcome");
    else SEQ_CHECK(r == 2, "outcome");
    state(how * 16 + c * 2 + before);
}
/* Allocation failures while creating promises and attaching continuations. */
SEQ_TEST(alloc_faults, 0, 0) {
    throwNext = 0;
    armAllocFaults(2);
    try {
        Promise<Val> p;
        Future<Val> f(p.takeFuture());
        bool attached = false; Future<Val> g;
        for (int i = 0; i < 2 && !attached; ++i) {
            try { g = f.then([](Future<Val> x) { return x.takeValue(); }); attached = true; }
            catch (std::bad_alloc const &) { SEQ_CHECK(f.isValid(), "failed then() consumed the future"); }
        }
        disarmAllocFaults();
        p.setValue(Val(3));
        if (attached) SEQ_CHECK(g.takeValue().v == 3, "value"); else SEQ_CHECK(f.takeValue().v == 3, "value");
    } catch (std::bad_alloc const &) { op("Promise() failed"); }
    disarmAllocFaults();
}
/* Every failure while packaging a task, or resetting it, reaches the caller and leaves what was there. */
namespace {
struct CopyFails {};
int copiesLeft = -1;
template <int Size> struct Fn {
    int data[Size]; int * calls;
    Fn(int * c): calls(c) { for (int & d : data) d = 6; }
    Fn(Fn const & o): calls(o.calls) { for (int i = 0; i < Size; ++i) data[i] = o.data[i]; if (copiesLeft >= 0 && !copiesLeft--) throw CopyFails(); }
    int operator()(int x) { ++*calls; return x + data[Size - 1]; }
};
template <typename F> void packaging(F const & f, int & calls) {
    using Task = sharemind::PackagedTask<int(int)>;
    int const copies = choose(4) - 1; int const resets = choose(3); bool const again = flip();
    long const live = seq::liveBlocks();
    {
        Task t; bool made = false; int failures = 0;
        copiesLeft = copies; armAllocFaults(2);
        try { Task x(f); t = std::move(x); made = true; } catch (CopyFails const &) { ++failures; } catch (std::bad_alloc const &) { ++failures; }
        SEQ_CHECK(made || failures == 1, "failure lost");
        SEQ_CHECK(t.isValid() == made, "validity");
        if (made) {
            Future<int> u(t.takeFuture());
            for (int i = 0; i < resets; ++i) {
                bool const had = t.isValid();
                try { t.reset(); bool broken = false; if (i || had) { try { u.takeValue(); } catch (BrokenPromiseException const &) { broken = true; } SEQ_CHECK(broken || !had, "reset did not break the earlier promise"); } u = t.takeFuture(); SEQ_CHECK(t.isValid(), "invalid after reset"); }
                catch (std::bad_alloc const &) { SEQ_CHECK(t.isValid() == had && u.isValid() && !u.isReady(), "a failed reset changed the task"); }
            }
            disarmAllocFaults(); copiesLeft = -1;
            t(4); SEQ_CHECK(calls == 1 && !t.isValid() && u.isReady() && u.takeValue() == 10, "result");
            if (again) { t.reset(); Future<int> v(t.takeFuture()); SEQ_CHECK(!v.isReady() && t.isValid(), "after reset"); t(5); SEQ_CHECK(calls == 2 && v.takeValue() == 11, "result after reset"); }
        }
        disarmAllocFaults(); copiesLeft = -1;
    }
    SEQ_CHECK(seq::liveBlocks() == live, "%ld blocks leaked", seq::liveBlocks() - live);
}
}
SEQ_TEST(failing_packaging, 0, 0) { int calls = 0; switch (choose(3)) { case 0: packaging(Fn<1>(&calls), calls); break; case 1: packaging(Fn<20>(&calls), calls); break; default: packaging([&calls](int x) { ++calls; return x + 6; }, calls); } }
/* Long chains of continuations, many promises at a time. */
SEQ_TEST(long_chains, 0, 0) {
    static int const ns[] = {10, 40, 150}; int const n = ns[choose(3)], how = choose(3), at = choose(3), kind = choose(2); bool const before = flip(); throwNext = 0; int runs = 0;
    {
        Promise<Val> p; Future<Val> f(p.takeFuture()); auto set = [&] { if (how == 0) p.setValue(Val(5)); else if (how == 1) p.setException(Err{8}); else p.abandon(); }; if (before) set();
        for (int i = 0; i < n; ++i) { bool const thrower = at && i == (at == 1 ? n / 2 : n - 1); if (kind) f = f.then([&runs, i, thrower](Future<Val> x) { SEQ_CHECK(runs++ == i, "continuation %d runs at %d", i, runs); if (thrower) throw Err{9}; Val v(x.takeValue()); return Val(v.v + 1); }); else f = f.then([&runs, i, thrower](Future<Val> x) { SEQ_CHECK(runs++ == i, "continuation %d runs at %d", i, runs); if (thrower) throw Err{9}; return x; }); }
        if (!before) { SEQ_CHECK(!runs && !f.isReady(), "too early"); set(); }
        SEQ_CHECK(runs == n && f.isReady(), "%d of %d continuations ran", runs, n);
        int r = 0, v = 0; try { v = f.takeValue().v; } catch (Err const & e) { r = 1; v = e.n; } catch (BrokenPromiseException const &) { r = 2; }
        if (at) SEQ_CHECK(at == 1 ? r == 1 && v == 9 : r == 1 && v == 9, "outcome %d", r); else SEQ_CHECK(r == how && v == (how == 0 ? kind ? 5 + n : 5 : how == 1 ? 8 : 0), "outcome %d with %d", r, v);
    }
    SEQ_CHECK(Tracked::live == 0, "%ld values left", Tracked::live); state(mix(n, how * 64 + at * 16 + kind * 2 + before));
}
SEQ_TEST(many_promises, 0, 0) {
    throwNext = 0; static int const ns[] = {20, 130, 300}; int const n = ns[choose(3)], order = choose(3), mod = 1 + choose(3); std::vector<Promise<Val>> p(n); std::vector<Future<Val>> f; for (auto & x : p) f.push_back(x.takeFuture());
    for (int i = 0; i < n; ++i) { int const k = order == 0 ? i : order == 1 ? n - 1 - i : (i * 37 + 3) % n; SEQ_CHECK(!f[k].isReady(), "ready before"); switch (k % mod) { case 0: p[k].setValue(Val(k)); break; case 1: p[k].setException(Err{k}); break; case 2: p[k].abandon(); break; } SEQ_CHECK(f[k].isReady(), "not ready"); }
    for (int k = 0; k < n; ++k) { int r = 0, v = 0; try { v = f[k].takeValue().v; } catch (Err const & e) { r = 1; v = e.n; } catch (BrokenPromiseException const &) { r = 2; } SEQ_CHECK(r == k % mod && (r == 2 || v == k), "promise %d: outcome %d", k, r); }
}
/* A continuation looks at, reuses or destroys the promise or task which completes it. */
namespace {
template <typename P, typename Fut, typename Set, typename Fresh>
void reentrant(Set set, Fresh fresh) {
    int const what = choose(3); int runs = 0; bool const chained = flip();
    {
        std::unique_ptr<P> p(fresh());
        Fut f(p->takeFuture());
        auto c = [&](Fut x) {
            ++runs;
            SEQ_CHECK(x.isValid() && x.isReady(), "the future given to the continuation is not ready");
            SEQ_CHECK(p && !p->isValid(), "the promise is valid although it is fulfilled");
            if (what == 1) p.reset();
            else if (what == 2) { std::unique_ptr<P> q(fresh()); *p = std::move(*q); }
            return 5;
        };
        auto r = chained ? f.then([](Fut x) { return x; }).then(std::move(c)) : f.then(std::move(c));
        SEQ_CHECK(!runs, "too early");
        set(*p);
        SEQ_CHECK(runs == 1, "the continuation ran %d times", runs);
        SEQ_CHECK(r.isReady() && r.takeValue() == 5, "result");
        SEQ_CHECK((what == 1) == !p, "promise");
        if (p) { SEQ_CHECK(p->isValid() == (what == 2), "isValid() is %d", p->isValid()); if (what == 2) { Fut g(p->takeFuture()); SEQ_CHECK(!g.isReady(), "ready"); set(*p); SEQ_CHECK(g.isReady(), "not ready"); } }
    }
    SEQ_CHECK(Tracked::live == 0, "%ld values left", Tracked::live);
}
}
SEQ_TEST(reentrant_continuations, 0, 0) {
    using PV = Promise<Val>; using FV = Future<Val>; using P0 = Promise<void>; using F0 = Future<void>; throwNext = 0;
    auto v = [] { return new PV(); }; auto z = [] { return new P0(); };
    switch (choose(12)) {
        case 0: reentrant<PV, FV>([](PV & p) { p.setValue(Val(1)); }, v); break;
        case 1: reentrant<PV, FV>([](PV & p) { Val const x(1); p.setValue(x); }, v); break;
        case 2: reentrant<PV, FV>([](PV & p) { p.emplaceValue(1); }, v); break;
        case 3: reentrant<PV, FV>([](PV & p) { p.setException(Err{1}); }, v); break;
        case 4: reentrant<PV, FV>([](PV & p) { p.setException(std::make_exception_ptr(Err{1})); }, v); break;
        case 5: reentrant<PV, FV>([](PV & p) { p.abandon(); }, v); break;
        case 6: reentrant<P0, F0>([](P0 & p) { p.setReady(); }, z); break;
        case 7: reentrant<P0, F0>([](P0 & p) { p.setValue(); }, z); break;
        case 8: reentrant<P0, F0>([](P0 & p) { p.setException(Err{1}); }, z); break;
        case 9: reentrant<P0, F0>([](P0 & p) { p.abandon(); }, z); break;
        case 10: { using T = sharemind::PackagedTask<Val(int)>; reentrant<T, FV>([](T & t) { t(3); }, [] { return new T([](int x) { return Val(x); }); }); break; }
        default: { using T = sharemind::PackagedTask<void(int)>; reentrant<T, F0>([](T & t) { t(3); }, [] { return new T([](int) {}); }); break; }
    }
}
/* Continuations are any callables: move-only ones, lvalues (copied), functions. */
namespace {
struct Cb { Tracked t; int * runs; int operator()(Future<Val> x) { ++*runs; SEQ_CHECK(t.v == 7, "continuation with value %d", t.v); t.v = 8; return x.takeValue().v + 1; } };
struct MoveOnlyCb: Cb { MoveOnlyCb(int * r) : Cb{Tracked(7), r} {} MoveOnlyCb(MoveOnlyCb &&) = default; };
int plainCb(Future<Val> x) { return x.takeValue().v + 1; }
}
SEQ_TEST(callables, 0, 0) {
    throwNext = 0; int const how = choose(6); bool const before = flip(); int runs = 0;
    {
        Promise<Val> p; Future<Val> f(p.takeFuture()), none; Future<int> r;
        if (before) p.setValue(Val(4));
        Cb lv{Tracked(7), &runs};
        if (how == 0) r = f.then(MoveOnlyCb(&runs));
        else if (how == 1) r = f.then(lv);
        else if (how == 2) { Cb const c{Tracked(7), &runs}; r = f.then(c); }
        else if (how == 3) r = f.then(plainCb);
        else if (how == 4) r = f.then(&plainCb);
        else { auto u = std::make_unique<Tracked>(7); r = f.then([u = std::move(u), &runs](Future<Val> x) { ++runs; SEQ_CHECK(u && u->v == 7, "captured value"); return x.takeValue().v + 1; }); }
        lv.t.v = how == 1 && !before ? 1 : lv.t.v;
        if (how == 1 && before) SEQ_CHECK(lv.t.v == 7, "the callable given was changed to %d", lv.t.v);
        SEQ_CHECK(!f.isValid(), "future still valid");
        if (!before) { SEQ_CHECK(!runs && !r.isReady(), "too early"); p.setValue(Val(4)); }
        SEQ_CHECK(r.isReady() && r.takeValue() == 5, "result");
        SEQ_CHECK(runs == (how == 3 || how == 4 ? 0 : 1), "ran %d times", runs);
    }
    SEQ_CHECK(Tracked::live == 0, "%ld values left", Tracked::live);
}
