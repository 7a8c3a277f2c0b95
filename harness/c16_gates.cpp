// C16: Stoppable and NoStartThread under every interleaving.
#include "mc.h"
#include <atomic>
#include <chrono>
#include <limits>
#include <memory>
#include <new>
#include <thread>
#include <utility>
#include <sharemind/NoStartThread.h>
#include <sharemind/SimpleWait.h>
#include <sharemind/Stoppable.h>

namespace {
using sharemind::Stoppable;
using sharemind::NoStartThread;
struct E { int v; explicit E(int v_ = 7) : v(v_) {} };
}

MC_SCENARIO(stop, 6, 10, mc::WEAK) {
    Stoppable s;
    MC_CHECK(!s.stopRequested(), "stop requested initially");
    auto body = [&] {
        bool seen = false;
        for (int i = 0; i < 3; ++i) {
            bool const must = mc::ghostGet(1 + mc::self());
            bool const r = s.stopRequested();
            MC_CHECK(r || !seen, "stop request forgotten");
            MC_CHECK(!r || mc::ghostGet(0), "stop requested by nobody");
            MC_CHECK(r || !must, "own stop request not noticed");
            seen = r;
        }
    };
    std::thread a(body);
    std::thread b([&] { mc::ghostSet(0, 1); s.stop(); mc::ghostSet(1 + mc::self(), 1); body(); });
    body();
    a.join(); b.join();
    MC_CHECK(s.stopRequested(), "stop request forgotten");
    s.stop();
    MC_CHECK(s.stopRequested(), "stop request forgotten");
    s.reset();
    MC_CHECK(!s.stopRequested(), "not reset");
    s.stop();
    MC_CHECK(s.stopRequested(), "stop request lost after reset");
}
/* A body guarded by the gate is not entered once stop was noticed/ordered. */
MC_SCENARIO(guarded_loop, 6, 10, 0) {
    Stoppable s;
    std::thread a([&] {
        Stoppable::TestActor<E> t(s);
        try { for (;;) { t(); MC_CHECK(mc::ghostGet(0) <= 1, "the guarded body was entered after stop"); if (mc::ghostGet(0)) mc::ghostAdd(0, 1); mc::point(); } }
        catch (E const & e) { MC_CHECK(e.v == 7, "exception"); }
    });
    s.stop(); mc::ghostSet(0, 1);
    a.join();
}
MC_SCENARIO(throwing_checks, 2, 3, 0) {
    Stoppable s;
    s.throwIfStopRequested<E>();
    s.throwIfStopRequested(E(3));
    Stoppable::CustomTestActor<Stoppable, E> t(s);
    t();
    s.stop();
    int n = 0;
    try { s.throwIfStopRequested<E>(); } catch (E const & e) { MC_CHECK(e.v == 7, "v"); ++n; }
    try { s.throwIfStopRequested(E(3)); } catch (E const & e) { MC_CHECK(e.v == 3, "v"); ++n; }
    try { t(); } catch (E const & e) { ++n; }
    MC_CHECK(n == 3, "%d of 3 checks threw", n);
    s.reset();
    t();
}
/* An exception passed in is left alone unless it is thrown; a lvalue is copied, a rvalue is moved. */
namespace {
struct Payload {
    int v; int copies = 0, moves = 0;
    explicit Payload(int v_) : v(v_) {}
    Payload(Payload const & o) noexcept : v(o.v), copies(o.copies + 1), moves(o.moves) {}
    Payload(Payload && o) noexcept : v(o.v), copies(o.copies), moves(o.moves + 1) { o.v = -1; }
    Payload & operator=(Payload const &) = delete;
};
struct MoveOnly { std::unique_ptr<int> p; };
}
MC_SCENARIO(exceptions_passed_in, 4, 7, 0) {
    Stoppable s; Stoppable const & cs = s;
    std::thread a([&] { mc::ghostSet(0, 1); s.stop(); });
    Payload kept(3); Payload const constant(4); MoveOnly m{std::make_unique<int>(5)}; int thrown = 0;
    for (int i = 0; i < 2; ++i) {
        mc::ghostAdd(20, 1);
        try { cs.throwIfStopRequested(kept); } catch (Payload const & e) { MC_CHECK(e.v == 3 && e.copies, "the exception thrown"); ++thrown; }
        MC_CHECK(kept.v == 3 && !kept.copies && !kept.moves, "an exception passed by reference was changed");
        try { cs.throwIfStopRequested(constant); } catch (Payload const & e) { MC_CHECK(e.v == 4, "the exception thrown"); ++thrown; }
    }
    bool threw = false;
    for (int i = 0; i < 3 && !threw; ++i) {
        mc::ghostAdd(20, 1);
        try { cs.throwIfStopRequested(std::move(kept)); MC_CHECK(kept.v == 3, "the exception was consumed although none was thrown"); } catch (Payload const & e) { threw = true; MC_CHECK(e.v == 3 && !e.copies, "the exception thrown"); MC_CHECK(mc::ghostGet(0), "stop requested by nobody"); }
    }
    threw = false;
    try { cs.throwIfStopRequested(std::move(m)); MC_CHECK(!!m.p, "the exception was consumed although none was thrown"); } catch (MoveOnly const & e) { threw = true; MC_CHECK(e.p && *e.p == 5, "the exception thrown"); }
    a.join();
    if (!threw) {
        try { cs.throwIfStopRequested(std::move(m)); mc::fail("stop not noticed"); } catch (MoveOnly const & e) { MC_CHECK(e.p && *e.p == 5, "the exception thrown"); }
    }
    mc::outcome(thrown);
}
MC_SCENARIO(with_waiting, 4, 7, mc::SPURIOUS) {
    Stoppable s; sharemind::SimpleWait w;
    std::thread a([&] { try { w.waitOrStop(Stoppable::TestActor<E>(s)); mc::fail("released without notification"); } catch (E const &) {} });
    s.stop();
    a.join();
}

/* ---- NoStartThread ---- ghost 10: started; 11: body runs; 12: live callables */
namespace {
struct Fn {
    int * v; 
    explicit Fn(int * v_ = nullptr) : v(v_) { mc::ghostSet(12, mc::ghostGet(12) + 1); }
    Fn(Fn const & o) noexcept : v(o.v) { mc::ghostSet(12, mc::ghostGet(12) + 1); }
    ~Fn() { mc::ghostSet(12, mc::ghostGet(12) - 1); }
    void operator()() noexcept {
        MC_CHECK(mc::ghostGet(10), "body run before start");
        MC_CHECK(mc::self() != 0, "body run by the wrong thread");
        if (v) { MC_CHECK(*v == 1, "stale"); *v = 2; }
        MC_CHECK(mc::ghostAdd(11, 1) == 1, "body run twice");
    }
};
void go(NoStartThread & t) { mc::ghostSet(10, 1); t.start(); }
void end(long runs) { MC_CHECK(mc::ghostGet(11) == runs, "body run %ld times, expected %ld", mc::ghostGet(11), runs); MC_CHECK(mc::ghostGet(12) == 0, "callables leaked"); MC_CHECK(mc::liveThreads() == 1, "threads left"); }
}
MC_SCENARIO(started_and_joined, 6, 10, mc::SPURIOUS) {
    int v = 0;
    { NoStartThread t{Fn(&v)}; MC_CHECK(t.joinable(), "not joinable"); v = 1; go(t); t.join(); MC_CHECK(v == 2, "stale"); MC_CHECK(!t.joinable(), "joinable after join"); }
    end(1);
}
MC_SCENARIO(started_and_destroyed, 6, 10, 0) { { NoStartThread t{Fn()}; go(t); } end(1); }
MC_SCENARIO(started_and_stopped, 6, 10, 0) { { NoStartThread t{Fn()}; go(t); t.stop(); MC_CHECK(mc::ghostGet(11) == 1, "stopped before the body had finished"); t.stop(); } end(1); }
MC_SCENARIO(never_started, 6, 10, mc::SPURIOUS) { { NoStartThread t{Fn()}; } end(0); }
MC_SCENARIO(stopped_unstarted, 6, 10, 0) { { NoStartThread t{Fn()}; t.stop(); MC_CHECK(!t.joinable(), "joinable"); t.stop(); } end(0); }
MC_SCENARIO(function_set_later, 6, 10, 0) {
    { NoStartThread t; t.setFunction(Fn()); go(t); t.join(); }
    end(1);
}
MC_SCENARIO(function_replaced, 6, 10, 0) {
    { NoStartThread t{Fn()}; t.setFunction([]() noexcept { mc::ghostAdd(11, 1); mc::ghostAdd(13, 1); }); go(t); t.join(); MC_CHECK(mc::ghostGet(13) == 1, "the replaced function was run"); }
    end(1);
}
MC_SCENARIO(no_function, 6, 10, 0) { { NoStartThread t; go(t); t.join(); } { NoStartThread t; } end(0); }
MC_SCENARIO(started_by_other_thread, 5, 9, 0) {
    { NoStartThread t{Fn()}; std::thread a([&] { go(t); }); a.join(); t.join(); }
    end(1);
}
MC_SCENARIO(thread_out_of_memory, 4, 6, 0) {
    bool bad = false;
    mc::armAllocFaults(true);
    try { NoStartThread t{Fn()}; mc::armAllocFaults(false); go(t); } catch (std::bad_alloc const &) { bad = true; }
    mc::armAllocFaults(false);
    end(bad ? 0 : 1);
}
