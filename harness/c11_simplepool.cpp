// C11: SimpleThreadPool under every interleaving.
#include "mc.h"
#include <atomic>
#include <chrono>
#include <limits>
#include <memory>
#include <new>
#include <system_error>
#include <thread>
#include <utility>
#include <sharemind/SimpleThreadPool.h>
#include <sharemind/Strand.h>

namespace {
using Pool = sharemind::SimpleThreadPool;
using TP = sharemind::ThreadPool;
/* ghost 0..: runs; 20: number of runs; 30: pool gone; 40: live functors; 41: running */
struct Fn {
    int i; int * v;
    Fn(int i_, int * v_ = nullptr) : i(i_), v(v_) { mc::ghostSet(40, mc::ghostGet(40) + 1); }
    Fn(Fn const & o) : i(o.i), v(o.v) { mc::ghostSet(40, mc::ghostGet(40) + 1); }
    ~Fn() { MC_CHECK(i >= 0, "functor destroyed twice"); i = -1; mc::ghostSet(40, mc::ghostGet(40) - 1); }
    void operator()() {
        mc::ghostAdd(41, 1);
        MC_CHECK(i >= 0, "dead functor called");
        MC_CHECK(!mc::ghostGet(30), "task run after its pool was joined");
        MC_CHECK(mc::ghostGet(i) == 0, "task %d run twice", i);
        mc::ghostSet(i, 1);
        if (v) { MC_CHECK(*v == 10 + i, "stale"); *v = 20 + i; }
        mc::ghostAdd(20, 1);
        mc::ghostAdd(41, -1);
    }
};
void put(TP & p, int i, int * v = nullptr) { p.submit(TP::createSimpleTask(Fn(i, v))); }
int need;
void awaitRuns(int n) { need = n; mc::blockUntil([](void *) { return mc::ghostGet(20) >= need; }, nullptr, "await runs"); }
void gone() { MC_CHECK(mc::ghostGet(41) == 0, "a task still runs"); MC_CHECK(mc::liveThreads() == 1, "%d threads left", mc::liveThreads()); mc::ghostSet(30, 1); }
void end() { MC_CHECK(mc::ghostGet(40) == 0, "%ld functors leaked", mc::ghostGet(40)); }
} // namespace

MC_SCENARIO(one_thread, 6, 10, mc::SPURIOUS) {
    {
        Pool p(1);
        put(p, 0); put(p, 1);
        awaitRuns(2);
    }
    gone(); end();
}
MC_SCENARIO(destroyed_at_once, 6, 10, 0) { { Pool p(2); put(p, 0); put(p, 1); } gone(); mc::outcome(mc::ghostGet(20)); end(); }
MC_SCENARIO(unused, 6, 10, mc::SPURIOUS) { { Pool p(2); } gone(); }
MC_SCENARIO(empty, 3, 5, 0) {
    { Pool p(0); put(p, 0); p.join(); MC_CHECK(!p.stopNotified(), "stop"); p.stopAndJoin(); MC_CHECK(p.stopNotified(), "stop"); }
    gone(); end();
    MC_CHECK(mc::ghostGet(20) == 0, "task run by nobody");
}
/* There really are n workers. */
MC_SCENARIO(all_workers_work, 4, 7, 0) {
    {
        Pool p(3);
        for (int i = 0; i < 3; ++i)
            p.submit(TP::createSimpleTask([] { mc::ghostAdd(42, 1); mc::blockUntil([](void *) { return mc::ghostGet(42) == 3; }, nullptr, "the other workers"); mc::ghostAdd(20, 1); }));
        awaitRuns(3);
    }
    gone();
}
MC_SCENARIO(stop_then_destroy, 5, 9, 0) {
    {
        Pool p(2);
        put(p, 0);
        p.stopAndJoin();
        gone();
        put(p, 1);
        p.stopAndJoin();
        p.join();
    }
    MC_CHECK(mc::ghostGet(1) == 0, "task run after stop");
    end();
}
MC_SCENARIO(two_stoppers, 5, 9, 0) {
    {
        Pool p(1);
        put(p, 0);
        std::thread t([&] { p.stopAndJoin(); mc::ghostSet(43, 1); });
        p.stopAndJoin();
        MC_CHECK(mc::ghostGet(41) == 0, "a task still runs");
        t.join();
        gone();
    }
    end();
}
MC_SCENARIO(joined_by_one_stopped_by_other, 5, 9, mc::SPURIOUS) {
    {
        Pool p(2);
        std::thread t([&] { put(p, 0); awaitRuns(1); p.notifyStop(); });
        p.join();
        MC_CHECK(mc::ghostGet(20) == 1, "joined although not stopped");
        t.join();
        gone();
    }
    end();
}
MC_SCENARIO(task_submits, 5, 9, 0) {
    {
        Pool p(2);
        p.submit(TP::createSimpleTask([&p] { put(p, 0); put(p, 1); }));
        awaitRuns(2);
    }
    gone(); end();
}
MC_SCENARIO(stopped_by_task, 5, 9, 0) {
    {
        Pool p(2);
        p.submit(TP::createSimpleTask([&p] { p.notifyStop(); }));
        p.join();
        gone();
    }
}
/* The pool is destroyed after somebody else, or a task, has told it to stop. */
MC_SCENARIO(notified_then_destroyed, 5, 9, 0) {
    int const by = mc::choose(2);
    {
        Pool p(2);
        put(p, 0);
        if (by) { p.submit(TP::createSimpleTask([&p] { p.notifyStop(); mc::ghostSet(45, 1); })); mc::blockUntil([](void *) { return mc::ghostGet(45) != 0; }, nullptr, "stop"); }
        else p.notifyStop();
    }
    gone(); end();
}
MC_SCENARIO(visibility, 4, 8, mc::WEAK) {
    int a = 10, b = 11;
    {
        Pool p(2);
        put(p, 0, &a); put(p, 1, &b);
        awaitRuns(2);
        p.stopAndJoin();
        MC_CHECK(a == 20 && b == 21, "effects of the tasks are not visible after joining");
    }
    end();
}
MC_SCENARIO(with_strand, 3, 6, 0) {
    {
        auto p = std::make_shared<Pool>(2);
        {
            sharemind::Strand s(p);
            s.submit(TP::createSimpleTask(Fn(0)));
            s.submit(TP::createSimpleTask(Fn(1)));
            awaitRuns(2);
        }
        p->stopAndJoin();
    }
    gone(); end();
}
/* Construction fails half-way: the threads already started are joined. */
MC_SCENARIO(out_of_memory, 4, 7, 0) {
    mc::armAllocFaults(true);
    try { Pool p(2); put(p, 0); put(p, 1); mc::outcome(1); }
    catch (std::bad_alloc const &) { mc::outcome(2); }
    mc::armAllocFaults(false);
    gone();
}
/* Many workers, many tasks. ghost 0: set of those run. */
MC_SCENARIO(many_tasks, 1, 2, 0) {
    { Pool p(1); for (int i = 0; i < 30; ++i) p.submit(TP::createSimpleTask([i] { long const s = mc::ghostGet(0); MC_CHECK(s == (1l << i) - 1, "task %d run out of order", i); mc::ghostSet(0, s | 1l << i); mc::ghostAdd(20, 1); })); awaitRuns(30); }
    gone();
}
MC_SCENARIO(four_workers, 0, 0, 0) {
    {
        Pool p(4);
        for (int i = 0; i < 4; ++i) {
            p.submit(TP::createSimpleTask([] { mc::ghostAdd(42, 1); mc::blockUntil([](void *) { return mc::ghostGet(42) == 4; }, nullptr, "the other workers"); mc::ghostAdd(20, 1); }));
            need = i + 1; mc::blockUntil([](void *) { return mc::ghostGet(42) >= need; }, nullptr, "a worker for the next task");
        }
        awaitRuns(4);
    }
    gone();
}
