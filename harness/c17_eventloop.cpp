// C17: EventLoop over a simulated kernel, under every interleaving and interruption.
#include "mc.h"
#include <atomic>
#include <chrono>
#include <cstring>
#include <exception>
#include <limits>
#include <memory>
#include <mutex>
#include <thread>
#include <utility>
#include "simkernel.h"
#include <sharemind/EventLoop.h>
#include <sharemind/SingleThreadEventLoop.h>

namespace {
using Loop = sharemind::EventLoop;
/* ghosts: 0 handler calls begun, 1 finished, 2 run() calls returned, 3 run() begun,
   8+id calls of handler id, 16+id last events, 24+id handler must not be called any more */
template <typename F> struct Handler final: Loop::EventHandler {
    int id; F f;
    Handler(int i, F f_) : id(i), f(f_) {}
    void handleEvents(Loop::EventSet const ev) noexcept override {
        MC_CHECK(mc::ghostGet(24 + id) == 0, "handler %d called although removed", id);
        mc::ghostSet(0, mc::ghostGet(0) + 1);
        mc::ghostSet(16 + id, ev);
        mc::ghostSet(8 + id, mc::ghostGet(8 + id) + 1);
        f(ev);
        mc::point();
        mc::ghostSet(1, mc::ghostGet(1) + 1);
    }
};
template <typename F> Handler<F> handler(int id, F f) { return Handler<F>(id, f); }
struct NoMore { int id; ~NoMore() { mc::ghostSet(24 + id, 1); } };
void run(Loop & l) {
    mc::ghostSet(3, mc::ghostGet(3) + 1);
    try { l.run(); } catch (...) { mc::fail("run() failed"); }
    mc::ghostSet(2, mc::ghostGet(2) + 1);
}
void called(int id, long times) {
    struct A { int i; long n; } a{8 + id, times};
    mc::blockUntil([](void * p) { auto & x = *static_cast<A *>(p); return mc::ghostGet(x.i) >= x.n; }, &a, "waits for a handler call");
}
/* Any handler call running when the wait began has finished when it ends. */
void iterationEnd(Loop & l, bool yield) {
    long const begun = mc::ghostGet(0);
    yield ? l.yieldUntilLoopIterationEnd() : l.spinUntilLoopIterationEnd();
    MC_CHECK(mc::ghostGet(1) >= begun, "the wait ended during a handler call which had been running before");
}
struct Kernel { Kernel(bool faults = false) { sim::reset(); sim::k.faults = faults; } ~Kernel() { sim::injectFaults(false); } };
} // namespace

/* ---- dispatch ---- */
namespace {
void dispatch(bool faults) {
    Kernel kn(faults);
    int const a = sim::open(), b = sim::open();
    {
        Loop l;
        auto ha = handler(0, [&](Loop::EventSet) { sim::clear(a); });
        auto hb = handler(1, [&](Loop::EventSet) { sim::clear(b); });
        std::thread t([&] { run(l); });
        MC_CHECK(l.insert(a, EPOLLIN, ha), "not inserted");
        sim::signal(b, EPOLLOUT | EPOLLIN);
        MC_CHECK(l.insert(b, EPOLLOUT, hb), "not inserted");
        sim::signal(a, EPOLLIN);
        called(0, 1); called(1, 1);
        MC_CHECK(mc::ghostGet(16) == EPOLLIN && mc::ghostGet(17) == EPOLLOUT, "called with events %lx, %lx", mc::ghostGet(16), mc::ghostGet(17));
        MC_CHECK(mc::ghostGet(8) == 1 && mc::ghostGet(9) == 1, "called again");
        l.stop();
        t.join();
    }
    sim::injectFaults(false);
    MC_CHECK(sim::openFds() == 2, "descriptors leaked");
}
}
MC_SCENARIO(dispatch, 5, 8, 0) { dispatch(false); }
MC_SCENARIO(dispatch_interrupted, 4, 6, 0) { dispatch(true); }
/* Every re-enabled descriptor is served again. */
MC_SCENARIO(rearmed, 6, 9, 0) {
    Kernel kn;
    int const a = sim::open();
    Loop l;
    Loop::EventHandler * self = nullptr;
    auto h = handler(0, [&](Loop::EventSet) { sim::clear(a); if (mc::ghostGet(8) < 2) l.modify(a, EPOLLIN, *self); });
    self = &h;
    MC_CHECK(l.insert(a, EPOLLIN, h), "not inserted");
    std::thread t([&] { run(l); });
    sim::signal(a, EPOLLIN);
    mc::blockUntil([](void *) { return mc::ghostGet(1) == 1; }, nullptr, "waits for a handler call");
    sim::signal(a, EPOLLIN);
    called(0, 2);
    l.stop();
    t.join();
}
/* Disabled and removed descriptors are not served. */
MC_SCENARIO(removed, 4, 6, 0) {
    Kernel kn;
    int const a = sim::open();
    Loop l;
    auto h = handler(0, [&](Loop::EventSet) {});
    l.insert(a, EPOLLIN, h);
    std::thread t([&] { run(l); });
    bool const disable = mc::choose(2);
    std::thread s([&] { sim::signal(a, EPOLLIN); });
    if (disable) l.disable(a); else MC_CHECK(l.remove(a), "not removed");
    iterationEnd(l, mc::choose(2));
    mc::ghostSet(24, 1);
    s.join();
    /* A whole iteration more. */
    iterationEnd(l, false);
    MC_CHECK(mc::ghostGet(8) <= 1, "called %ld times", mc::ghostGet(8));
    if (disable) { mc::ghostSet(24, 0); long const n = mc::ghostGet(8); l.modify(a, EPOLLIN, h); called(0, n + 1); }
    l.stop();
    t.join();
}
/* The usual way to get rid of a handler, next to another one running. */
MC_SCENARIO(remove_wait_destroy, 5, 8, 0) {
    Kernel kn;
    int const a = sim::open(), b = sim::open();
    Loop l;
    auto hb = handler(1, [&](Loop::EventSet) { sim::clear(b); });
    l.insert(b, EPOLLIN, hb);
    std::thread t([&] { run(l); });
    {
        auto f = [&](Loop::EventSet) {};
        std::unique_ptr<Handler<decltype(f)>> h(new Handler<decltype(f)>(0, f));
        sim::signal(a, EPOLLIN);
        l.insert(a, EPOLLIN, *h);
        sim::signal(b, EPOLLIN);
        l.remove(a);
        iterationEnd(l, false);
        mc::ghostSet(24, 1);
    }
    called(1, 1);
    l.stop();
    t.join();
}

/* ---- stopping ---- */
namespace {
void stopAnytime(bool faults) {
    Kernel kn(faults);
    Loop l;
    std::thread t([&] { run(l); });
    l.stop();
    t.join();
    MC_CHECK(mc::ghostGet(2) == 1, "run() did not return");
    MC_CHECK(sim::allCloexec(), "a descriptor would be inherited by programs executed");
}
}
MC_SCENARIO(stop_anytime, 6, 9, 0) { stopAnytime(false); }
MC_SCENARIO(stop_interrupted, 6, 9, 0) { stopAnytime(true); }
/* stop() waits for handler calls in progress. */
MC_SCENARIO(stop_waits, 6, 9, 0) {
    Kernel kn;
    int const a = sim::open();
    Loop l;
    auto h = handler(0, [&](Loop::EventSet) {});
    l.insert(a, EPOLLIN, h);
    sim::signal(a, EPOLLIN);
    std::thread t([&] { run(l); });
    std::thread s([&] { called(0, 1); l.stop(); MC_CHECK(mc::ghostGet(1) == 1, "stop() returned during a handler call"); });
    s.join(); t.join();
    MC_CHECK(mc::ghostGet(8) == 1, "called %ld times", mc::ghostGet(8));
}
MC_SCENARIO(several_stoppers, 4, 7, mc::UNLOCKPOINTS) {
    Kernel kn;
    Loop l;
    std::thread t([&] { run(l); });
    std::thread a([&] { l.stop(); }), b([&] { l.stopAsync(); int const f = sim::open(true); mc::point(); (void) f; });
    l.stop();
    a.join(); b.join(); t.join();
}
MC_SCENARIO(stop_from_handler, 6, 10, 0) {
    Kernel kn;
    int const a = sim::open();
    Loop l;
    auto h = handler(0, [&](Loop::EventSet) { l.stopAsync(); });
    l.insert(a, EPOLLIN, h);
    std::thread t([&] { run(l); });
    sim::signal(a, EPOLLIN);
    if (mc::choose(2)) l.stop();
    t.join();
}
/* Events pending together with the request to stop are either served or not;
   stopping comes through nevertheless. */
MC_SCENARIO(stop_among_events, 5, 9, 0) {
    Kernel kn;
    int const a = sim::open(), b = sim::open();
    Loop l;
    Loop::EventHandler * pa = nullptr, * pb = nullptr;
    auto ha = handler(0, [&](Loop::EventSet) { l.modify(a, EPOLLIN, *pa); std::this_thread::yield(); });
    auto hb = handler(1, [&](Loop::EventSet) { l.modify(b, EPOLLIN, *pb); std::this_thread::yield(); });
    pa = &ha; pb = &hb;
    sim::signal(a, EPOLLIN); sim::signal(b, EPOLLIN); /* always ready */
    l.insert(a, EPOLLIN, ha); l.insert(b, EPOLLIN, hb);
    std::thread t([&] { run(l); });
    l.stop();
    MC_CHECK(mc::ghostGet(0) == mc::ghostGet(1), "stop() returned during a handler call");
    t.join();
}
/* Destroying the loop stops it and waits until it has stopped. */
MC_SCENARIO(destroyed_while_running, 6, 9, 0) {
    Kernel kn;
    int const a = sim::open();
    auto h = handler(0, [&](Loop::EventSet) { sim::clear(a); });
    std::unique_ptr<Loop> l(new Loop);
    l->insert(a, EPOLLIN, h);
    sim::signal(a, EPOLLIN);
    Loop & loop = *l;
    std::thread t([&] { run(loop); });
    called(0, 1);
    l.reset();
    MC_CHECK(mc::ghostGet(0) == mc::ghostGet(1), "the loop was destroyed during a handler call");
    t.join();
    MC_CHECK(sim::openFds() == 1, "descriptors leaked");
}
/* After stopping running is over at once, forever. */
MC_SCENARIO(run_after_stop, 6, 9, 0) {
    Kernel kn;
    Loop l;
    l.stop();
    std::thread t([&] { run(l); });
    std::thread u([&] { run(l); });
    t.join(); u.join();
    MC_CHECK(mc::ghostGet(2) == 2, "run() did not return");
}

/* ---- waiting for the iteration to end ---- */
namespace {
void waiters(bool faults, int n, bool secondYields) {
    Kernel kn(faults);
    int const a = sim::open();
    Loop l;
    auto h = handler(0, [&](Loop::EventSet) { mc::point(); });
    l.insert(a, EPOLLIN, h);
    std::thread t([&] { run(l); });
    sim::signal(a, EPOLLIN);
    if (n > 1) { std::thread w([&] { iterationEnd(l, secondYields); }); iterationEnd(l, false); w.join(); }
    else iterationEnd(l, secondYields);
    l.stop();
    t.join();
    MC_CHECK(mc::ghostGet(8) <= 1, "called %ld times", mc::ghostGet(8));
}
}
MC_SCENARIO(waiter, 5, 8, mc::UNLOCKPOINTS) { waiters(false, 1, mc::choose(2)); }
MC_SCENARIO(waiter_interrupted, 5, 7, 0) { waiters(true, 1, false); }
MC_SCENARIO(two_waiters, 4, 5, mc::UNLOCKPOINTS) { waiters(false, 2, mc::choose(2)); }
/* Nothing hinges on waits in the kernel timing out: who waits for the end of an
   iteration wakes the loop up. */
namespace {
void wakes(bool faults, int n) {
    Kernel kn(faults);
    sim::k.patient = true;
    int const a = sim::open();
    Loop l;
    auto h = handler(0, [&](Loop::EventSet) { mc::point(); });
    l.insert(a, EPOLLIN, h);
    std::thread t([&] { run(l); });
    bool const busy = mc::choose(2);
    if (busy) sim::signal(a, EPOLLIN);
    if (n > 1) { std::thread w([&] { iterationEnd(l, true); }); iterationEnd(l, false); w.join(); }
    else iterationEnd(l, false);
    iterationEnd(l, true);
    l.stop();
    t.join();
}
}
MC_SCENARIO(wakes_idle_loop, 4, 7, 0) { wakes(false, 1); }
MC_SCENARIO(wakes_idle_loop_twice, 3, 5, mc::UNLOCKPOINTS) { wakes(false, 2); }
MC_SCENARIO(wakes_idle_loop_interrupted, 3, 5, 0) { wakes(true, 1); }
/* Waiting when no loop runs ends at once, also for several threads. */
MC_SCENARIO(waiters_without_loop, 5, 8, mc::UNLOCKPOINTS) {
    Kernel kn;
    Loop l;
    std::thread a([&] { iterationEnd(l, false); }), b([&] { iterationEnd(l, true); });
    iterationEnd(l, true);
    a.join(); b.join();
}
/* Waiting while the loop is being stopped still waits for the handler. */
MC_SCENARIO(waiter_during_stop, 4, 6, mc::UNLOCKPOINTS) {
    Kernel kn;
    int const a = sim::open();
    Loop l;
    auto h = handler(0, [&](Loop::EventSet) {});
    l.insert(a, EPOLLIN, h);
    sim::signal(a, EPOLLIN);
    std::thread t([&] { run(l); });
    std::thread s([&] { mc::choose(2) ? l.stop() : l.stopAsync(); });
    iterationEnd(l, false);
    s.join(); t.join();
}
/* A waiter never writes into a descriptor which took the number of a closed one. */
MC_SCENARIO(waiter_during_stop_foreign, 5, 8, 0) {
    Kernel kn;
    Loop l;
    std::thread t([&] { run(l); });
    std::thread s([&] { l.stopAsync(); sim::open(true); });
    iterationEnd(l, true);
    s.join(); t.join();
}
/* The wake-up pipe holds exactly what a flush takes at once: 1536 bytes, of
   which all but one come from other waiters. */
MC_SCENARIO(flush_boundary, 3, 5, 0) {
    Kernel kn(mc::choose(2));
    long const have = 1534 + mc::choose(4) + 1536 * mc::choose(2);
    int const a = sim::open();
    Loop l;
    auto h = handler(0, [&](Loop::EventSet) { sim::clear(a); });
    l.insert(a, EPOLLIN, h);
    for (auto & f : sim::k.file) if (f.kind == sim::PIPE_R) f.bytes = have;
    std::thread t([&] { run(l); });
    iterationEnd(l, false);
    sim::signal(a, EPOLLIN);
    called(0, 1);
    l.stop();
    t.join();
}
/* A full wake-up pipe is fine, too. */
MC_SCENARIO(pipe_full, 3, 5, 0) {
    Kernel kn;
    Loop l;
    for (auto & f : sim::k.file) if (f.kind == sim::PIPE_R) f.bytes = 65536;
    std::thread t([&] { run(l); });
    iterationEnd(l, true);
    l.stop();
    t.join();
}

/* ---- the loop with a thread of its own ---- */
MC_SCENARIO(single_thread_loop, 6, 9, 0) {
    Kernel kn;
    int const a = sim::open();
    auto h = handler(0, [&](Loop::EventSet) { sim::clear(a); });
    {
        sharemind::SingleThreadEventLoop l;
        l.insert(a, EPOLLIN, h);
        sim::signal(a, EPOLLIN);
        if (mc::choose(2)) called(0, 1);
        if (mc::choose(2)) l.stop();
    }
    MC_CHECK(mc::ghostGet(0) == mc::ghostGet(1), "handler running after destruction");
    MC_CHECK(sim::openFds() == 1, "descriptors leaked");
}
MC_SCENARIO(single_thread_loop_fails, 4, 7, 0) {
    Kernel kn;
    {
        struct H { void operator()() const noexcept {
            try { throw; } catch (Loop::EpollWaitException const & e) {
                MC_CHECK(!std::strcmp(e.what(), "epoll_wait() failed!"), "wrong message");
                try { std::rethrow_if_nested(e); mc::fail("no cause"); } catch (sharemind::ErrnoException const & c) { MC_CHECK(c.errorNumber() == EBADF, "wrong error number"); } }
            catch (...) { mc::fail("wrong exception"); }
            mc::ghostSet(5, mc::ghostGet(5) + 1); } };
        sharemind::SingleThreadEventLoop l{H()};
        sim::failWaits(EBADF);
        if (mc::choose(2)) mc::blockUntil([](void *) { return mc::ghostGet(5) == 1; }, nullptr, "failure");
    }
    MC_CHECK(mc::ghostGet(5) <= 1, "reported %ld times", mc::ghostGet(5));
}

/* ---- failures to create and registration histories (one thread) ---- */
MC_SCENARIO(creation_failures, 2, 3, 0) {
    Kernel kn;
    int const w = mc::choose(3);
    (w == 0 ? sim::k.failCreate : w == 1 ? sim::k.failPipe : sim::k.failCtl) = EMFILE;
    auto cause = [](std::exception const & e) { try { std::rethrow_if_nested(e); mc::fail("no cause"); } catch (sharemind::ErrnoException const & c) { MC_CHECK(c.errorNumber() == EMFILE, "wrong error number"); } };
    try { Loop l; mc::fail("no failure"); }
    catch (Loop::EpollCreateException const & e) { MC_CHECK(w == 0, "wrong exception"); cause(e); }
    catch (Loop::PipeCreateException const & e) { MC_CHECK(w == 1, "wrong exception"); cause(e); }
    catch (Loop::EpollCtlException const & e) { MC_CHECK(w == 2, "wrong exception"); cause(e); }
    MC_CHECK(sim::openFds() == 0, "descriptors leaked");
}
namespace {
void registrations(int depth, bool faults) {
    Kernel kn(faults);
    int const fd[2] = {sim::open(), sim::open()};
    {
        Loop l;
        auto h0 = handler(0, [&](Loop::EventSet) {}); auto h1 = handler(1, [&](Loop::EventSet) {});
        struct { bool in; unsigned ev; int h; } m[2] = {};
        for (int s = 0; s < depth; ++s) {
            int const i = mc::choose(2), op = mc::choose(7);
            unsigned const ev = mc::choose(2) ? EPOLLIN : EPOLLOUT;
            bool const before = m[i].in;
            bool const threw = [&] { try {
                switch (op) {
                case 0: { bool const r = l.insert(fd[i], ev, h0); MC_CHECK(r == !m[i].in, "insert() returns %d", r); if (r) { m[i].in = true; m[i].ev = ev; m[i].h = 0; } } break;
                case 1: l.modify(fd[i], ev, h1); MC_CHECK(m[i].in, "modified an unknown descriptor"); m[i].ev = ev; m[i].h = 1; break;
                case 2: l.disable(fd[i]); MC_CHECK(m[i].in, "disabled an unknown descriptor"); m[i].ev = 0; break;
                case 3: { bool const r = l.insertOrModify(fd[i], ev, h1); MC_CHECK(r == !m[i].in, "insertOrModify() returns %d", r); m[i].in = true; m[i].ev = ev; m[i].h = 1; } break;
                case 4: { bool const r = l.insertDisabledOrDisable(fd[i]); MC_CHECK(r == !m[i].in, "insertDisabledOrDisable() returns %d", r); m[i].in = true; m[i].ev = 0; } break;
                case 5: { bool const r = l.remove(fd[i]); MC_CHECK(r == m[i].in, "remove() returns %d", r); m[i].in = false; } break;
                default: l.insertDisabled(fd[i]); MC_CHECK(!m[i].in, "inserted twice"); m[i].in = true; m[i].ev = 0; break;
                }
                return false;
            } catch (Loop::EpollCtlException const & e) {
                try { std::rethrow_if_nested(e); mc::fail("no cause"); } catch (sharemind::ErrnoException const & c) { MC_CHECK(c.errorNumber() == (op == 6 ? EEXIST : ENOENT), "error %d", c.errorNumber()); }
                return true;
            } }();
            MC_CHECK(threw == (((op == 1 || op == 2) && !before) || (op == 6 && before)), "operation %d failed unexpectedly (or did not)", op);
        }
        /* What is dispatched? */
        sim::signal(fd[0], EPOLLIN | EPOLLERR); sim::signal(fd[1], EPOLLOUT | EPOLLIN);
        std::thread t([&] { run(l); });
        iterationEnd(l, false);
        iterationEnd(l, false);
        l.stop();
        t.join();
        long want[2] = {};
        for (int i = 0; i < 2; ++i) if (m[i].in && m[i].ev) ++want[m[i].h]; /* all of them ready: */
        for (int h = 0; h < 2; ++h) MC_CHECK(mc::ghostGet(8 + h) == want[h], "handler %d called %ld times instead of %ld", h, mc::ghostGet(8 + h), want[h]);
    }
    sim::injectFaults(false);
    MC_CHECK(sim::openFds() == 2, "descriptors leaked");
}
}
MC_SCENARIO(registrations, 0, 0, 0) { registrations(3, false); }
MC_SCENARIO(registrations_interrupted, 1, 3, 0) { registrations(2, true); }
MC_SCENARIO(registrations_deep, 0, 0, mc::THOROUGHONLY) { registrations(4, false); }
/* Whatever the kernel refuses is reported, with the reason, and changes nothing. */
MC_SCENARIO(failed_registrations, 1, 3, 0) {
    Kernel kn;
    int const fd = sim::open();
    Loop l;
    auto h = handler(0, [&](Loop::EventSet) {}); auto g = handler(1, [&](Loop::EventSet) {});
    bool const in = mc::choose(2);
    if (in) l.insert(fd, EPOLLIN, h);
    int const op = mc::choose(7), why = mc::choose(4);
    int const e = why == 0 ? EBADF : why == 1 ? ENOSPC : why == 2 ? ENOMEM : EPERM;
    sim::k.failCtl = e;
    try {
        switch (op) {
        case 0: l.insert(fd, EPOLLOUT, g); break;
        case 1: l.modify(fd, EPOLLOUT, g); break;
        case 2: l.disable(fd); break;
        case 3: l.insertOrModify(fd, EPOLLOUT, g); break;
        case 4: l.insertDisabledOrDisable(fd); break;
        case 5: l.remove(fd); break;
        default: l.insertDisabled(fd); break;
        }
        mc::fail("a failure is not reported");
    } catch (Loop::EpollCtlException const & x) {
        MC_CHECK(!std::strcmp(x.what(), "epoll_ctl() failed!"), "wrong message");
        try { std::rethrow_if_nested(x); mc::fail("no cause"); } catch (sharemind::ErrnoException const & c) { MC_CHECK(c.errorNumber() == e, "error %d", c.errorNumber()); }
    }
    sim::k.failCtl = 0;
    sim::signal(fd, EPOLLIN | EPOLLOUT);
    std::thread t([&] { run(l); });
    iterationEnd(l, false); iterationEnd(l, false);
    l.stop();
    t.join();
    MC_CHECK(mc::ghostGet(8) == in && mc::ghostGet(9) == 0, "wrong handler calls");
}
/* Named sets of events. */
MC_SCENARIO(event_sets, 0, 0, 0) {
    Loop::EventSet const in = EPOLLIN | EPOLLPRI, out = EPOLLOUT, err = EPOLLERR, hup = EPOLLHUP, rdhup = EPOLLRDHUP;
    auto same = [](Loop::EventSet a, Loop::EventSet b) { MC_CHECK(a == b, "%lx instead of %lx", (unsigned long) a, (unsigned long) b); };
    same(Loop::COMMON_ERROR_EVENTS, err); same(Loop::INPUT_ERROR_EVENTS, err); same(Loop::OUTPUT_ERROR_EVENTS, err); same(Loop::ALL_ERROR_EVENTS, err);
    same(Loop::COMMON_HUP_EVENTS, hup); same(Loop::INPUT_HUP_EVENTS, hup | rdhup); same(Loop::OUTPUT_HUP_EVENTS, hup); same(Loop::ALL_HUP_EVENTS, hup | rdhup);
    same(Loop::COMMON_FATAL_EVENTS, err | hup); same(Loop::INPUT_FATAL_EVENTS, err | hup | rdhup); same(Loop::OUTPUT_FATAL_EVENTS, err | hup); same(Loop::ALL_FATAL_EVENTS, err | hup | rdhup);
    same(Loop::COMMON_DATA_EVENTS, 0); same(Loop::INPUT_DATA_EVENTS, in); same(Loop::OUTPUT_DATA_EVENTS, out); same(Loop::ALL_DATA_EVENTS, in | out);
    same(Loop::ALL_INPUT_EVENTS, in | err | hup | rdhup); same(Loop::ALL_OUTPUT_EVENTS, out | err | hup); same(Loop::ALL_EVENTS, in | out | err | hup | rdhup);
}
MC_SCENARIO(created_handlers, 5, 7, 0) {
    Kernel kn;
    int const a = sim::open();
    Loop l;
    auto h = Loop::createHandler([](Loop::EventSet ev) noexcept { mc::ghostSet(16, ev); mc::ghostSet(8, mc::ghostGet(8) + 1); });
    int calls = 0;
    auto g = Loop::createSimpleHandler([calls]() mutable noexcept { mc::ghostSet(9, ++calls); });
    l.insert(a, EPOLLIN, *h);
    std::thread t([&] { run(l); });
    sim::signal(a, EPOLLIN | EPOLLOUT);
    called(0, 1);
    MC_CHECK(mc::ghostGet(16) == EPOLLIN, "handler got %lx", mc::ghostGet(16));
    l.modify(a, EPOLLIN, *g);
    called(1, 1);
    l.modify(a, EPOLLIN, *g);
    called(1, 2);
    l.stop();
    t.join();
    MC_CHECK(mc::ghostGet(8) == 1 && mc::ghostGet(9) == 2, "wrong number of calls");
}
