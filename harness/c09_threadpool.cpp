// C09: ThreadPool under every interleaving.
#include "mc.h"
#include <atomic>
#include <chrono>
#include <limits>
#include <memory>
#include <thread>
#include <utility>
#include <sharemind/ThreadPool.h>

namespace {
struct Pool: sharemind::ThreadPool {
    using ThreadPool::workerThread;
    using ThreadPool::workerThreadUntil;
    using ThreadPool::oneTaskWorkerThread;
    using ThreadPool::oneTaskWorkerThreadUntil;
};
using TP = sharemind::ThreadPool;
using std::chrono::milliseconds;
/* ghost 0..: runs of task i; 20: number of runs; 21..: start positions; 40: live functors */
struct Fn {
    int i; int const * data;
    Fn(int i_, int const * d = nullptr) : i(i_), data(d) { mc::ghostSet(40, mc::ghostGet(40) + 1); }
    Fn(Fn const & o) : i(o.i), data(o.data) { mc::ghostSet(40, mc::ghostGet(40) + 1); }
    ~Fn() { MC_CHECK(i >= 0, "functor destroyed twice"); i = -1; mc::ghostSet(40, mc::ghostGet(40) - 1); }
    void operator()() {
        MC_CHECK(i >= 0, "dead functor called");
        if (data) MC_CHECK(*data == 100 + i, "task does not see what its submitter wrote");
        mc::ghostSet(21 + i, mc::ghostGet(20) + 1);
        MC_CHECK(mc::ghostGet(i) == 0, "task %d run twice", i);
        mc::ghostSet(i, 1);
        mc::ghostAdd(20, 1);
    }
};
void put(TP & p, int i, int const * d = nullptr) { p.submit(TP::createSimpleTask(Fn(i, d))); }
int need;
void awaitRuns(int n) { need = n; mc::blockUntil([](void *) { return mc::ghostGet(20) >= need; }, nullptr, "await runs"); }
void done() { MC_CHECK(mc::ghostGet(40) == 0, "%ld functors leaked", mc::ghostGet(40)); }
} // namespace

MC_SCENARIO(one_worker, 7, 12, mc::SPURIOUS) {
    {
        Pool p;
        std::thread w([&] { p.workerThread(); });
        put(p, 0); put(p, 1); put(p, 2);
        awaitRuns(3);
        MC_CHECK(mc::ghostGet(21) == 1 && mc::ghostGet(22) == 2 && mc::ghostGet(23) == 3, "tasks run out of order");
        p.notifyStop();
        w.join();
    }
    done();
}
MC_SCENARIO(submit_before_start, 7, 12, 0) {
    {
        Pool p;
        put(p, 0); put(p, 1);
        std::thread w([&] { p.workerThread(); });
        awaitRuns(2);
        p.notifyStop();
        MC_CHECK(p.stopNotified(), "stop not noticed");
        w.join();
    }
    done();
}
MC_SCENARIO(two_workers, 5, 9, 0) {
    {
        Pool p;
        std::thread w([&] { p.workerThread(); }), v([&] { p.workerThread(); });
        put(p, 0); put(p, 1); put(p, 2);
        awaitRuns(3);
        MC_CHECK(!p.stopNotified(), "stop noticed");
        p.notifyStop();
        w.join(); v.join();
    }
    done();
}
MC_SCENARIO(two_submitters, 5, 9, 0) {
    {
        Pool p;
        std::thread w([&] { p.workerThread(); });
        std::thread s([&] { put(p, 0); put(p, 1); });
        put(p, 2); put(p, 3);
        s.join();
        awaitRuns(4);
        MC_CHECK(mc::ghostGet(21) < mc::ghostGet(22) && mc::ghostGet(23) < mc::ghostGet(24), "tasks of one submitter run out of order");
        p.notifyStop();
        w.join();
    }
    done();
}
MC_SCENARIO(two_and_two, 4, 7, 0) {
    {
        Pool p;
        std::thread w([&] { p.workerThread(); }), v([&] { p.workerThread(); });
        std::thread s([&] { put(p, 0); });
        put(p, 1);
        s.join();
        awaitRuns(2);
        p.notifyStop();
        w.join(); v.join();
    }
    done();
}
/* With two workers tasks may overlap, but are taken in order: when a task
   waits for an earlier one, it must not wait forever. */
MC_SCENARIO(later_waits_for_earlier, 5, 9, 0) {
    {
        Pool p;
        std::thread w([&] { p.workerThread(); }), v([&] { p.workerThread(); });
        put(p, 0);
        p.submit(TP::createSimpleTask([] { mc::blockUntil([](void *) { return mc::ghostGet(0) > 0; }, nullptr, "earlier task"); mc::ghostAdd(20, 1); }));
        put(p, 2);
        awaitRuns(3);
        p.notifyStop();
        w.join(); v.join();
    }
    done();
}
/* Stopping with tasks pending and workers busy or asleep. */
MC_SCENARIO(stop_any_time, 6, 10, mc::SPURIOUS) {
    {
        Pool p;
        std::thread w([&] { p.workerThread(); });
        std::thread s([&] { p.notifyStop(); mc::ghostSet(60, 1); });
        put(p, 0); put(p, 1);
        s.join();
        MC_CHECK(p.stopNotified(), "stop forgotten");
        w.join();
        mc::outcome(mc::ghostGet(20));
        long const n = mc::ghostGet(20);
        put(p, 2);
        p.workerThread();
        MC_CHECK(!p.oneTaskWorkerThread(), "task run after stop");
        MC_CHECK(mc::ghostGet(20) == n, "task run after stop");
    }
    done();
}
/* Whoever asks whether a stop was requested, at any time. */
MC_SCENARIO(stop_observed, 5, 9, 0) {
    Pool p;
    std::thread w([&] { p.workerThread(); });
    std::thread s([&] { mc::ghostSet(59, 1); p.notifyStop(); mc::ghostSet(60, 1); });
    bool const before = mc::ghostGet(60), r = p.stopNotified(), after = mc::ghostGet(59);
    MC_CHECK(!before || r, "stop not noticed");
    MC_CHECK(after || !r, "stop noticed which was not requested");
    MC_CHECK(!r || p.stopNotified(), "stop forgotten");
    w.join(); s.join();
}
MC_SCENARIO(stop_two_sleepers, 6, 10, mc::SPURIOUS) {
    Pool p;
    std::thread w([&] { p.workerThread(); }), v([&] { MC_CHECK(!p.oneTaskWorkerThread(), "task run without any being submitted"); });
    p.notifyStop();
    w.join(); v.join();
}
MC_SCENARIO(stop_by_task, 6, 10, 0) {
    {
        Pool p;
        std::thread w([&] { p.workerThread(); });
        p.submit(TP::createSimpleTask([&] { p.notifyStop(); }));
        put(p, 0);
        w.join();
        MC_CHECK(mc::ghostGet(0) == 0, "task run after stop");
    }
    done();
}
/* Tasks which submit tasks; reusable tasks. */
MC_SCENARIO(task_submits, 5, 9, 0) {
    {
        Pool p;
        std::thread w([&] { p.workerThread(); });
        p.submit(TP::createSimpleTask([&] { put(p, 1); put(p, 2); put(p, 0); }));
        awaitRuns(3);
        p.notifyStop();
        w.join();
    }
    done();
}
MC_SCENARIO(custom_task_resubmitted, 5, 9, 0) {
    {
        Pool p;
        std::thread w([&] { p.workerThread(); }), v([&] { p.workerThread(); });
        int n = 0;
        p.submit(TP::createTask([&](TP::Task && t) {
            MC_CHECK(bool(t), "no task given");
            ++n; /* runs of one task never overlap */
            mc::ghostAdd(20, 1);
            if (n < 3) p.submit(std::move(t));
        }));
        put(p, 5);
        awaitRuns(4);
        p.notifyStop();
        w.join(); v.join();
        MC_CHECK(n == 3, "ran %d times", n);
    }
    done();
}
MC_SCENARIO(reusable_task, 5, 9, 0) {
    {
        Pool p;
        std::thread w([&] { p.workerThread(); });
        int n = 0; TP::ReusableTask * self = nullptr;
        TP::ReusableTask t([&] { ++n; if (n < 3) p.submit(std::move(*self)); else p.notifyStop(); });
        self = &t;
        p.submit(std::move(t));
        w.join();
        MC_CHECK(n == 3, "ran %d times", n);
        MC_CHECK(bool(t), "the task was not returned");
    }
}
/* What the submitter wrote is visible to the task, also on weak memory. */
MC_SCENARIO(visibility, 4, 8, mc::WEAK) {
    {
        int a = 0, b = 0;
        Pool p;
        std::thread w([&] { p.workerThread(); });
        std::thread s([&] { a = 100; put(p, 0, &a); });
        b = 101; put(p, 1, &b);
        awaitRuns(2);
        p.notifyStop();
        w.join(); s.join();
    }
    done();
}
/* Bounded participation. */
MC_SCENARIO(one_task_workers, 5, 9, 0) {
    {
        Pool p;
        std::thread w([&] { MC_CHECK(p.oneTaskWorkerThread(), "not run"); }), v([&] { MC_CHECK(p.oneTaskWorkerThread(), "not run"); });
        put(p, 0); put(p, 1); put(p, 2);
        w.join(); v.join();
        MC_CHECK(mc::ghostGet(20) == 2, "%ld tasks run by two", mc::ghostGet(20));
        MC_CHECK(mc::ghostGet(0) && mc::ghostGet(1) && !mc::ghostGet(2), "wrong tasks");
    }
    done();
}
MC_SCENARIO(timed_worker, 6, 10, mc::SPURIOUS) {
    {
        Pool p;
        auto const t0 = std::chrono::steady_clock::now();
        auto const due = t0 + milliseconds(10);
        std::thread w([&] {
            auto const s = p.workerThreadUntil(due);
            MC_CHECK(s == TP::Timeout, "status %d", int(s));
            MC_CHECK(std::chrono::steady_clock::now() >= due, "returned early");
        });
        put(p, 0);
        w.join();
        mc::outcome(mc::ghostGet(20));
        put(p, 1);
        auto s = p.oneTaskWorkerThreadUntil(std::chrono::steady_clock::now() + milliseconds(5));
        MC_CHECK(s == TP::Ok, "status %d", int(s));
        s = p.workerThreadUntil(std::chrono::steady_clock::now() + milliseconds(5));
        MC_CHECK(s == TP::Timeout && mc::ghostGet(20) == 2, "status %d", int(s));
        p.notifyStop();
        s = p.workerThreadUntil(std::chrono::steady_clock::now() + milliseconds(5));
        MC_CHECK(s == TP::StopNotified, "status %d", int(s));
        s = p.oneTaskWorkerThreadUntil(std::chrono::steady_clock::now() + milliseconds(5));
        MC_CHECK(s == TP::StopNotified, "status %d", int(s));
    }
    done();
}
/* A bounded worker comes back in time although another one waits for ever. */
MC_SCENARIO(timed_next_to_untimed, 5, 9, 0) {
    {
        Pool p;
        std::thread w([&] { p.workerThread(); });
        auto const s = p.oneTaskWorkerThreadUntil(std::chrono::steady_clock::now() + milliseconds(10));
        MC_CHECK(s == TP::Timeout, "status %d", int(s));
        put(p, 0);
        awaitRuns(1);
        p.notifyStop();
        w.join();
    }
    done();
}
MC_SCENARIO(timed_next_to_timed, 4, 8, mc::EARLYTIMEOUT) {
    {
        Pool p;
        auto const t0 = std::chrono::steady_clock::now();
        std::thread w([&] { auto const s = p.oneTaskWorkerThreadUntil(t0 + milliseconds(20)); MC_CHECK(s == TP::Ok || s == TP::Timeout, "status %d", int(s)); mc::ghostAdd(50, s == TP::Ok); });
        std::thread v([&] { auto const s = p.oneTaskWorkerThreadUntil(t0 + milliseconds(10)); MC_CHECK(s == TP::Ok || s == TP::Timeout, "status %d", int(s)); mc::ghostAdd(50, s == TP::Ok); });
        put(p, 0);
        w.join(); v.join();
        MC_CHECK(mc::ghostGet(20) == mc::ghostGet(50), "%ld tasks run, %ld reported", mc::ghostGet(20), mc::ghostGet(50));
        while (mc::ghostGet(20) < 1) p.oneTaskWorkerThread();
    }
    done();
}
MC_SCENARIO(timed_stop, 5, 9, 0) {
    Pool p;
    std::thread w([&] { auto const s = p.workerThreadUntil(std::chrono::steady_clock::now() + std::chrono::hours(1)); mc::outcome(s); MC_CHECK(s == TP::StopNotified, "status %d", int(s)); });
    p.notifyStop();
    w.join();
}
/* An exception leaves the pool usable. */
MC_SCENARIO(throwing_task, 5, 9, 0) {
    {
        Pool p;
        std::thread w([&] { for (int i = 0; i < 2; ++i) try { p.workerThread(); } catch (int) { mc::ghostAdd(20, 1); } });
        p.submit(TP::createSimpleTask([] { throw 1; }));
        put(p, 0);
        awaitRuns(2);
        p.notifyStop();
        w.join();
    }
    done();
}
/* Many tasks. ghost 0: set of those run; 1, 2: last of each submitter; 20: number. */
namespace {
template <typename P> void many(P & p, int from, int n, bool ordered, int who) {
    for (int i = from; i < from + n; ++i)
        p.submit(TP::createSimpleTask([i, ordered, who] { long const s = mc::ghostGet(0); MC_CHECK(!(s >> i & 1), "task %d run twice", i); mc::ghostSet(0, s | 1l << i); if (ordered) { MC_CHECK(mc::ghostGet(1 + who) <= i, "task %d run after task %ld", i, mc::ghostGet(1 + who) - 1); mc::ghostSet(1 + who, i + 1); } mc::ghostAdd(20, 1); }));
}
} // namespace
MC_SCENARIO(many_tasks, 1, 2, 0) {
    Pool p; std::thread w([&] { p.workerThread(); });
    many(p, 0, 36, true, 0); awaitRuns(36); MC_CHECK(mc::ghostGet(0) == (1l << 36) - 1, "not all run"); p.notifyStop(); w.join();
}
MC_SCENARIO(many_tasks_queued, 1, 2, 0) {
    Pool p; many(p, 0, 36, true, 0); std::thread w([&] { p.workerThread(); }); many(p, 36, 4, true, 0);
    awaitRuns(40); MC_CHECK(mc::ghostGet(0) == (1l << 40) - 1, "not all run"); p.notifyStop(); w.join();
}
MC_SCENARIO(many_tasks_of_two, 1, 2, 0) {
    Pool p; std::thread s([&] { many(p, 0, 10, true, 0); });
    many(p, 10, 10, true, 1); s.join(); std::thread w([&] { p.workerThread(); }); awaitRuns(20); MC_CHECK(mc::ghostGet(0) == (1l << 20) - 1, "not all run"); p.notifyStop(); w.join();
}
MC_SCENARIO(many_workers, 0, 1, 0) {
    Pool p; std::thread w[3]; for (auto & x : w) x = std::thread([&] { p.workerThread(); });
    many(p, 0, 12, false, 0); awaitRuns(12); MC_CHECK(mc::ghostGet(0) == (1l << 12) - 1, "not all run"); p.notifyStop(); for (auto & x : w) x.join();
}
