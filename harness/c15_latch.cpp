// C15: Latch and SimpleWait under every interleaving.
#include "mc.h"
#include <atomic>
#include <chrono>
#include <limits>
#include <memory>
#include <thread>
#include <sharemind/Latch.h>
#include <sharemind/SimpleWait.h>

namespace {
using sharemind::SimpleWait;
/* ghost 0: countdowns begun; 1: countdowns which reported to be the last */
struct Lt {
    sharemind::Latch<> l; int n;
    explicit Lt(int n_) : l(unsigned(n_)), n(n_) {}
    void down() { mc::ghostAdd(0, 1); if (l.countDown()) mc::ghostSet(1, mc::ghostGet(1) + 1); }
    void due(char const * w) { MC_CHECK(mc::ghostGet(0) == n, "%s after %ld of %d countdowns", w, mc::ghostGet(0), n); }
    void wait() { l.wait(); due("a waiter was released"); MC_CHECK(l.isReady(), "not ready"); }
    void downAndWait() { mc::ghostAdd(0, 1); l.countDownAndWait(); due("a participant was released"); }
    void ready() { if (l.isReady()) due("ready"); }
};
} // namespace

MC_SCENARIO(waiters, 6, 9, mc::SPURIOUS) {
    Lt l(2);
    std::thread a([&] { l.wait(); }), b([&] { l.down(); });
    l.ready();
    l.down();
    l.wait();
    a.join(); b.join();
    MC_CHECK(mc::ghostGet(1) == 1, "%ld countdowns claim to be the last", mc::ghostGet(1));
}
MC_SCENARIO(two_waiters, 5, 8, mc::SPURIOUS) {
    Lt l(1);
    std::thread a([&] { l.wait(); }), b([&] { l.wait(); });
    l.down();
    a.join(); b.join();
    l.wait();
}
MC_SCENARIO(barrier, 5, 8, mc::SPURIOUS) {
    Lt l(3);
    std::thread a([&] { l.downAndWait(); }), b([&] { l.downAndWait(); });
    l.downAndWait();
    a.join(); b.join();
    MC_CHECK(l.l.isReady(), "not ready");
}
MC_SCENARIO(mixed, 5, 8, 0) {
    Lt l(3);
    std::thread a([&] { l.downAndWait(); }), b([&] { l.down(); l.wait(); }), c([&] { l.wait(); });
    l.down();
    a.join(); b.join(); c.join();
}
MC_SCENARIO(last_reported_once, 5, 8, 0) {
    Lt l(3);
    std::thread a([&] { l.down(); }), b([&] { l.down(); });
    l.down();
    a.join(); b.join();
    MC_CHECK(mc::ghostGet(1) == 1, "%ld countdowns claim to be the last", mc::ghostGet(1));
}
MC_SCENARIO(wide_counter, 1, 1, 0) {
    sharemind::Latch<unsigned char> l(255);
    for (int i = 0; i < 255; ++i) { MC_CHECK(!l.isReady(), "ready after %d", i); MC_CHECK(l.countDown() == (i == 254), "last at %d", i); }
    MC_CHECK(l.isReady(), "not ready"); l.wait();
}
/* The latch may be destroyed once everybody has passed it. */
MC_SCENARIO(destroyed_after_join, 5, 8, 0) {
    int v = 0, w = 0;
    {
        Lt l(2);
        std::thread a([&] { v = 1; l.downAndWait(); MC_CHECK(w == 2, "stale"); });
        w = 2; l.downAndWait(); MC_CHECK(v == 1, "stale");
        a.join();
    }
}
/* Whoever was waiting may destroy the latch at once: countdowns are through with
   it before they release anybody. */
MC_SCENARIO(destroyed_by_waiter, 6, 9, mc::UNLOCKPOINTS) {
    bool const all = mc::choose(2);
    std::unique_ptr<sharemind::Latch<>> l(new sharemind::Latch<>(all ? 3u : 2u)); auto & r = *l;
    std::thread a([&] { r.countDown(); }), b([&] { r.countDown(); });
    if (all) r.countDownAndWait(); else r.wait();
    l.reset();
    a.join(); b.join();
}
MC_SCENARIO(latch_visibility, 5, 8, mc::WEAK) {
    Lt l(2); int v = 0, w = 0;
    std::thread a([&] { v = 1; l.down(); }), b([&] { w = 1; l.down(); });
    l.wait();
    MC_CHECK(v == 1 && w == 1, "stale");
    a.join(); b.join();
}

/* ---- SimpleWait ---- ghost 5: notification begun */
MC_SCENARIO(flag, 6, 10, mc::SPURIOUS) {
    SimpleWait w; int v = 0;
    auto waiter = [&] { w.wait(); MC_CHECK(mc::ghostGet(5), "released without notification"); MC_CHECK(v == 3, "stale"); };
    std::thread a(waiter), b(waiter);
    v = 3;
    mc::ghostSet(5, 1);
    w.notifyReady();
    w.wait();
    w.notifyReady();
    a.join(); b.join();
}
/* One notification releases everybody. */
MC_SCENARIO(flag_once_for_all, 6, 9, mc::SPURIOUS) {
    SimpleWait w; int v = 0;
    auto waiter = [&] { w.wait(); MC_CHECK(mc::ghostGet(5), "released without notification"); MC_CHECK(v == 3, "stale"); };
    bool const stoppable = mc::choose(2);
    std::thread a(waiter), b([&] { if (stoppable) w.waitOrStop([] {}); else w.wait(); MC_CHECK(mc::ghostGet(5), "released without notification"); MC_CHECK(v == 3, "stale"); });
    v = 3;
    mc::ghostSet(5, 1);
    w.notifyReady();
    a.join(); b.join();
}
MC_SCENARIO(flag_two_notifiers, 5, 8, mc::SPURIOUS) {
    SimpleWait w;
    std::thread a([&] { mc::ghostSet(5, 1); w.notifyReady(); }), b([&] { mc::ghostSet(5, 1); w.notifyReady(); });
    w.wait();
    MC_CHECK(mc::ghostGet(5), "released without notification");
    a.join(); b.join();
}
MC_SCENARIO(flag_destroyed_by_waiter, 6, 9, mc::UNLOCKPOINTS) {
    std::unique_ptr<SimpleWait> w(new SimpleWait); auto & r = *w;
    bool const stoppable = mc::choose(2);
    std::thread a([&] { r.notifyReady(); });
    if (stoppable) r.waitOrStop([] {}); else r.wait();
    w.reset();
    a.join();
}
namespace { struct Stop {}; }
MC_SCENARIO(flag_or_stop, 5, 8, mc::SPURIOUS | mc::EARLYTIMEOUT) {
    SimpleWait w; 
    std::thread a([&] { mc::ghostSet(5, 1); w.notifyReady(); });
    std::thread s([&] { mc::ghostSet(6, 1); });
    bool stopped = false;
    try { w.waitOrStop([] { if (mc::ghostGet(6)) throw Stop(); }); MC_CHECK(mc::ghostGet(5), "released without notification"); }
    catch (Stop const &) { stopped = true; MC_CHECK(mc::ghostGet(6), "stopped"); }
    mc::outcome(stopped);
    a.join(); s.join();
    w.wait();
    w.waitOrStop([] { mc::fail("stop condition asked although ready"); });
}
/* Nobody notifies: the stop condition is noticed within the loop duration. */
MC_SCENARIO(stop_only, 4, 7, mc::SPURIOUS) {
    SimpleWait w;
    std::thread s([&] { mc::ghostSet(6, 1); });
    long const t0 = mc::nowNs(); bool stopped = false;
    int asked = 0;
    try { w.waitOrStop([&] { ++asked; if (asked > 3 && mc::ghostGet(6)) throw Stop(); }, sharemind::StaticLoopDuration<5u>()); } catch (Stop const &) { stopped = true; }
    MC_CHECK(stopped && mc::nowNs() - t0 <= 6 * 5 * 1000000l, "stopped after %ld ns", long(mc::nowNs() - t0));
    s.join();
}
