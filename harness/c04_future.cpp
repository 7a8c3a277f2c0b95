// C04: promise/future hand-over under every interleaving.
#include "mc.h"
#include <atomic>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <sharemind/Future.h>

using sharemind::Future;
using sharemind::Promise;
using sharemind::BrokenPromiseException;

namespace {
struct Err { int n; };

/* A value with two words, so that torn or early access is seen, and whose
   lifetime is counted. Ghost counter 10: number of live values. */
struct Val {
    int a, b; void * keep;
    explicit Val(int x) : a(x), b(x + 1), keep(new int(x)) { mc::Quiet q; mc::ghostSet(10, mc::ghostGet(10) + 1); }
    Val(Val && o) noexcept : a(o.a), b(o.b), keep(o.keep) { o.keep = nullptr; mc::Quiet q; mc::ghostSet(10, mc::ghostGet(10) + 1); }
    Val(Val const &) = delete;
    ~Val() { delete static_cast<int *>(keep); mc::Quiet q; mc::ghostSet(10, mc::ghostGet(10) - 1); }
    void check(int x) const { MC_CHECK(a == x && b == x + 1 && keep && *static_cast<int *>(keep) == x, "wrong value %d/%d, expected %d", a, b, x); }
};
void endCheck() { MC_CHECK(mc::ghostGet(10) == 0, "%ld values were not destroyed", mc::ghostGet(10)); }

template <typename F> int outcomeOf(F f) {
    try { f(); return 1; }
    catch (Err const & e) { MC_CHECK(e.n == 5, "wrong exception content"); return 2; }
    catch (BrokenPromiseException const &) { return 3; }
}
} // namespace

MC_SCENARIO(set_vs_take, 8, 20, mc::SPURIOUS) {
    {
        Promise<Val> p;
        Future<Val> f(p.takeFuture());
        int const how = mc::choose(4);
        std::thread t([&] {
            Promise<Val> q(std::move(p));
            if (how == 0) q.setValue(Val(3));
            else if (how == 1) q.setException(Err{5});
            else if (how == 2) q.abandon();
            /* 3: destroyed */
        });
        int const r = outcomeOf([&] { f.takeValue().check(3); });
        MC_CHECK(r == (how == 0 ? 1 : how == 1 ? 2 : 3), "set %d, received %d", how, r);
        MC_CHECK(!f.isValid(), "still valid after the value was taken");
        t.join();
    }
    endCheck();
}
MC_SCENARIO(set_vs_take_void, 8, 20, mc::SPURIOUS) {
    Promise<void> p;
    Future<void> f(p.takeFuture());
    int const how = mc::choose(4);
    int data = 0; /* published by the promise */
    std::thread t([&] {
        Promise<void> q(std::move(p));
        data = 9;
        if (how == 0) q.setReady();
        else if (how == 1) q.setException(std::make_exception_ptr(Err{5}));
        else if (how == 2) q.abandon();
    });
    int const r = outcomeOf([&] { f.takeValue(); });
    MC_CHECK(data == 9, "write before the result not visible");
    MC_CHECK(r == (how == 0 ? 1 : how == 1 ? 2 : 3), "set %d, received %d", how, r);
    t.join();
}
MC_SCENARIO(wait_then_take, 7, 14, mc::SPURIOUS) {
    {
        Promise<Val> p;
        Future<Val> f(p.takeFuture());
        std::thread t([&] { p.setValue(Val(4)); });
        bool const r0 = f.isReady();
        f.wait();
        MC_CHECK(f.isReady(), "not ready after wait");
        (void) r0;
        MC_CHECK(f.waitFor(std::chrono::seconds(0)), "waitFor on a ready future timed out");
        f.takeValue().check(4);
        t.join();
    }
    endCheck();
}
MC_SCENARIO(timed_wait, 7, 14, mc::SPURIOUS | mc::EARLYTIMEOUT) {
    {
        Promise<Val> p;
        Future<Val> f(p.takeFuture());
        std::thread t([&] { p.setValue(Val(4)); });
        std::int64_t const t0 = mc::nowNs();
        bool const until = mc::choose(2);
        bool const ok = until
            ? f.waitUntil(std::chrono::steady_clock::now() + std::chrono::milliseconds(50))
            : f.waitFor(std::chrono::milliseconds(50));
        if (ok) MC_CHECK(f.isReady(), "reported ready but is not");
        else MC_CHECK(mc::nowNs() - t0 >= 50000000, "timed out too early");
        f.wait();
        f.takeValue().check(4);
        t.join();
    }
    endCheck();
}
MC_SCENARIO(waiter_is_woken_in_time, 7, 14, 0) {
    Promise<void> p;
    Future<void> f(p.takeFuture());
    std::thread t([&] { p.setReady(); });
    std::int64_t const t0 = mc::nowNs();
    MC_CHECK(f.waitFor(std::chrono::hours(1)), "timed out");
    MC_CHECK(mc::nowNs() - t0 < 1000000000ll, "the result did not wake the waiter");
    t.join();
}
/* However long the wait. */
MC_SCENARIO(long_waits, 5, 9, 0) {
    Promise<int> p;
    Future<int> f(p.takeFuture());
    std::int64_t const hour = 3600000000000ll, t0 = mc::nowNs();
    auto const due = std::chrono::steady_clock::now() + std::chrono::hours(72);
    std::thread t([&] { std::this_thread::sleep_until(due); p.setValue(6); });
    bool const until = mc::choose(2);
    if (until ? f.waitUntil(std::chrono::steady_clock::now() + std::chrono::hours(30)) : f.waitFor(std::chrono::hours(30)))
        MC_CHECK(mc::nowNs() - t0 >= 72 * hour, "ready before the result was set");
    else
        MC_CHECK(mc::nowNs() - t0 >= 30 * hour, "timed out too early");
    std::int64_t const t1 = mc::nowNs();
    bool const ok = until ? f.waitUntil(std::chrono::steady_clock::now() + std::chrono::hours(50)) : f.waitFor(std::chrono::hours(50));
    MC_CHECK(ok || mc::nowNs() - t1 >= 50 * hour, "timed out too early");
    f.wait();
    MC_CHECK(f.isReady() && f.takeValue() == 6, "value");
    t.join();
}
MC_SCENARIO(two_waiters, 6, 10, mc::SPURIOUS) {
    Promise<int> p;
    Future<int> f(p.takeFuture());
    std::thread a([&] { f.wait(); });
    std::thread b([&] { f.wait(); });
    int const how = mc::choose(2);
    if (how) p.setValue(1); else p.setException(Err{5});
    a.join(); b.join();
    outcomeOf([&] { MC_CHECK(f.takeValue() == 1, "value"); });
}
MC_SCENARIO(two_waiters_void, 6, 10, 0) {
    Promise<void> p;
    Future<void> f(p.takeFuture());
    std::thread a([&] { f.wait(); });
    std::thread b([&] { f.wait(); });
    p.setReady();
    a.join(); b.join();
}
MC_SCENARIO(then_vs_set, 7, 16, 0) {
    {
        Promise<Val> p;
        Future<Val> f(p.takeFuture());
        int const how = mc::choose(4);
        int const what = mc::choose(3);
        std::thread t([&] {
            Promise<Val> q(std::move(p));
            if (how == 0) q.setValue(Val(3));
            else if (how == 1) q.setException(Err{5});
            else if (how == 2) q.abandon();
        });
        int got = 0;
        auto f2(f.then([&](Future<Val> x) -> Val {
            mc::ghostAdd(0, 1);
            MC_CHECK(x.isValid() && x.isReady(), "continuation got an unready future");
            if (what == 1) throw std::runtime_error("from continuation");
            got = 1;
            if (what == 2) { try { x.takeValue(); } catch (...) {} return Val(8); }
            Val v(x.takeValue()); v.check(3); return v;
        }));
        MC_CHECK(!f.isValid(), "future still valid after then");
        int r = 0;
        try { r = outcomeOf([&] { f2.takeValue().check(what == 2 ? 8 : 3); }); }
        catch (std::runtime_error const & e) { MC_CHECK(std::string(e.what()) == "from continuation", "message"); r = 4; }
        MC_CHECK(mc::ghostGet(0) == 1, "continuation ran %ld times", mc::ghostGet(0));
        int const expect = what == 1 ? 4 : what == 2 ? 1 : how == 0 ? 1 : how == 1 ? 2 : 3;
        MC_CHECK(r == expect, "promise %d continuation %d: received %d, expected %d", how, what, r, expect);
        t.join();
    }
    endCheck();
}
MC_SCENARIO(then_void_chain, 6, 12, 0) {
    Promise<void> p;
    Future<void> f(p.takeFuture());
    int const how = mc::choose(3);
    std::thread t([&] {
        Promise<void> q(std::move(p));
        if (how == 0) q.setReady(); else if (how == 1) q.setException(Err{5});
    });
    auto f3(f.then([&](Future<void> x) { mc::ghostAdd(0, 1); x.takeValue(); return 6; })
             .then([&](Future<int> y) { mc::ghostAdd(1, 1); int v = y.takeValue(); MC_CHECK(v == 6, "value"); }));
    int const r = outcomeOf([&] { f3.takeValue(); });
    MC_CHECK(r == (how == 0 ? 1 : how == 1 ? 2 : 3), "set %d, received %d", how, r);
    MC_CHECK(mc::ghostGet(0) == 1 && mc::ghostGet(1) == 1, "continuations ran %ld and %ld times", mc::ghostGet(0), mc::ghostGet(1));
    t.join();
}
/* A continuation which returns a future: its result is passed on. */
MC_SCENARIO(then_future, 5, 8, 0) {
    {
        Promise<Val> p, inner;
        Future<Val> f(p.takeFuture());
        int const how = mc::choose(4);
        std::thread t([&] { p.setValue(Val(1)); });
        std::thread u([&] {
            Promise<Val> q(std::move(inner));
            if (how == 0) q.setValue(Val(3)); else if (how == 1) q.setException(Err{5});
        });
        Future<Val> fi; 
        if (how != 3) { fi = Future<Val>(); }
        Promise<Val> own;
        Future<Val> ownF(own.takeFuture());
        own.setValue(Val(7));
        auto f2(f.then([&](Future<Val> x) -> Future<Val> {
            x.takeValue().check(1);
            if (how == 3) return Future<Val>(); /* invalid */
            if (how == 2) return std::move(ownF);
            Promise<Val> z; auto r(z.takeFuture());
            if (how == 0) z.setValue(Val(3)); else z.setException(Err{5});
            return r;
        }));
        int const r = outcomeOf([&] { f2.takeValue().check(how == 2 ? 7 : 3); });
        MC_CHECK(r == (how == 1 ? 2 : how == 3 ? 3 : 1), "case %d received %d", how, r);
        t.join(); u.join();
    }
    endCheck();
}
/* A continuation returning a future which another thread completes later. */
MC_SCENARIO(then_future_later, 6, 10, 0) {
    {
        Promise<int> p;
        Promise<Val> inner;
        Future<int> f(p.takeFuture());
        Future<Val> fi(inner.takeFuture());
        int const how = mc::choose(3);
        std::thread t([&] { p.setValue(1); });
        std::thread u([&] {
            Promise<Val> q(std::move(inner));
            if (how == 0) q.setValue(Val(3)); else if (how == 1) q.setException(Err{5});
        });
        auto f2(f.then([&](Future<int> x) -> Future<Val> { MC_CHECK(x.takeValue() == 1, "v"); return std::move(fi); }));
        int const r = outcomeOf([&] { f2.takeValue().check(3); });
        MC_CHECK(r == (how == 0 ? 1 : how == 1 ? 2 : 3), "case %d received %d", how, r);
        t.join(); u.join();
    }
    endCheck();
}
/* Future destroyed (or its continuation's future dropped) at any time. */
MC_SCENARIO(drop_future, 7, 14, 0) {
    {
        Promise<Val> p;
        int const how = mc::choose(3), cont = mc::choose(2);
        {
            std::unique_ptr<Future<Val> > f(new Future<Val>(p.takeFuture()));
            std::thread t([&] {
                Promise<Val> q(std::move(p));
                if (how == 0) q.setValue(Val(3)); else if (how == 1) q.setException(Err{5});
            });
            if (cont) { auto f2(f->then([&](Future<Val>) { mc::ghostAdd(0, 1); })); }
            f.reset();
            t.join();
        }
        MC_CHECK(mc::ghostGet(0) == cont, "continuation ran %ld times", mc::ghostGet(0));
    }
    endCheck();
}
/* Overwriting an unfulfilled promise abandons it. */
MC_SCENARIO(overwrite_promise, 6, 12, 0) {
    Promise<int> p;
    Future<int> f(p.takeFuture());
    std::thread t([&] { p = Promise<int>(); });
    int const r = outcomeOf([&] { f.takeValue(); });
    MC_CHECK(r == 3, "received %d", r);
    t.join();
}
/* Two threads move the promise on; only the last one sets it. */
MC_SCENARIO(handover, 6, 12, 0) {
    {
        Promise<Val> p;
        Future<Val> f(p.takeFuture());
        std::thread t([&] {
            Promise<Val> q(std::move(p));
            MC_CHECK(!p.isValid(), "moved-from promise is valid");
            std::thread u([&] { Promise<Val> r; r = std::move(q); r.setValue(Val(2)); });
            u.join();
        });
        f.takeValue().check(2);
        t.join();
    }
    endCheck();
}
MC_SCENARIO(packaged_task, 7, 14, 0) {
    {
        int const fail = mc::choose(3);
        sharemind::PackagedTask<Val(int)> task([fail](int x) { if (fail == 1) throw Err{5}; return Val(x); });
        auto f(task.takeFuture());
        std::thread t([&] { auto x(std::move(task)); if (fail != 2) x(6); });
        int const r = outcomeOf([&] { f.takeValue().check(6); });
        MC_CHECK(r == (fail == 0 ? 1 : fail == 1 ? 2 : 3), "case %d received %d", fail, r);
        t.join();
    }
    endCheck();
}
