// C12: ParticipatoryThreadPool under every interleaving.
#include "mc.h"
#include <atomic>
#include <chrono>
#include <limits>
#include <memory>
#include <thread>
#include <utility>
#include <sharemind/ParticipatoryThreadPool.h>

namespace {
using Pool = sharemind::ParticipatoryThreadPool;
using TP = sharemind::ThreadPool;
using Clock = std::chrono::steady_clock;
using std::chrono::milliseconds;
/* ghost 0..: runs; 20: number of runs; 40: live functors; 50+t: thread t participates; 60: joined */
struct In { int t; In() : t(mc::self()) { mc::ghostSet(50 + t, 1); } ~In() { mc::ghostSet(50 + t, 0); } };
struct Fn {
    int i;
    Fn(int i_) : i(i_) { mc::ghostSet(40, mc::ghostGet(40) + 1); }
    Fn(Fn const & o) : i(o.i) { mc::ghostSet(40, mc::ghostGet(40) + 1); }
    ~Fn() { MC_CHECK(i >= 0, "functor destroyed twice"); i = -1; mc::ghostSet(40, mc::ghostGet(40) - 1); }
    void operator()() {
        MC_CHECK(i >= 0, "dead functor called");
        MC_CHECK(mc::ghostGet(50 + mc::self()), "task run by a thread which does not participate");
        MC_CHECK(!mc::ghostGet(60), "task run although the pool was joined");
        MC_CHECK(mc::ghostGet(i) == 0, "task %d run twice", i);
        mc::ghostSet(i, 1);
        mc::ghostAdd(20, 1);
    }
};
void put(TP & p, int i) { p.submit(TP::createSimpleTask(Fn(i))); }
int need;
void awaitRuns(int n) { need = n; mc::blockUntil([](void *) { return mc::ghostGet(20) >= need; }, nullptr, "await runs"); }
void end() { MC_CHECK(mc::ghostGet(40) == 0, "%ld functors leaked", mc::ghostGet(40)); }
bool within(Pool & p) { In in; return p.participateOnce(); }
} // namespace

MC_SCENARIO(participate, 5, 9, mc::SPURIOUS) {
    {
        Pool p;
        std::thread a([&] { In in; p.participate(); });
        put(p, 0); put(p, 1);
        awaitRuns(2);
        p.notifyStop();
        a.join();
    }
    end();
}
MC_SCENARIO(two_participants, 4, 7, 0) {
    {
        Pool p;
        std::thread a([&] { In in; p.participate(); }), b([&] { In in; p.participate(); });
        put(p, 0); put(p, 1);
        awaitRuns(2);
        p.notifyStop();
        a.join(); b.join();
    }
    end();
}
/* stopAndJoin() waits until nobody participates any more. */
MC_SCENARIO(stop_and_join, 5, 9, mc::SPURIOUS) {
    {
        Pool p;
        std::thread a([&] { In in; mc::ghostSet(61, 1); p.participate(); mc::ghostSet(62, 1); });
        put(p, 0);
        awaitRuns(1);
        p.stopAndJoin();
        mc::ghostSet(60, 1);
        put(p, 1);
        a.join();
        MC_CHECK(!within(p), "a stopped pool ran a task");
        p.join();
    }
    end();
}
MC_SCENARIO(destroyed_while_ending, 5, 9, 0) {
    {
        auto * p = new Pool;
        std::thread a([p] { In in; p->participate(); });
        put(*p, 0);
        awaitRuns(1);
        delete p; /* waits for the participant to have left */
        mc::ghostSet(60, 1);
        a.join();
    }
    end();
}
/* The same for those who take part in the other ways. */
MC_SCENARIO(destroyed_while_others_end, 5, 9, 0) {
    int const how = mc::choose(5);
    {
        auto * p = new Pool;
        std::thread a([p, how] {
            In in;
            switch (how) {
                case 0: p->participateOnce(); break;
                case 1: p->participateFor(std::chrono::hours(1)); break;
                case 2: p->participateUntil(Clock::now() + std::chrono::hours(1)); break;
                case 3: p->participateOnceFor(std::chrono::hours(1)); break;
                default: p->participateOnceUntil(Clock::now() + std::chrono::hours(1)); break;
            }
        });
        put(*p, 0);
        awaitRuns(1);
        delete p; /* waits for the participant to have left */
        mc::ghostSet(60, 1);
        a.join();
    }
    end();
}
/* Taking part for no time at all still runs what is there to be run. */
MC_SCENARIO(no_time, 3, 5, 0) {
    int const how = mc::choose(4);
    {
        Pool p; In in;
        auto part = [&] {
            auto const past = Clock::now() - milliseconds(1);
            switch (how) { case 0: return p.participateFor(milliseconds(0)); case 1: return p.participateUntil(past); case 2: return p.participateOnceFor(milliseconds(0)); default: return p.participateOnceUntil(past); }
        };
        MC_CHECK(part() == TP::Timeout, "status");
        put(p, 0); put(p, 1);
        if (how < 2) { MC_CHECK(part() == TP::Timeout, "status"); MC_CHECK(mc::ghostGet(20) == 2, "%ld tasks run", mc::ghostGet(20)); }
        else for (int i = 0; i < 2; ++i) { MC_CHECK(part() == TP::Ok, "status"); MC_CHECK(mc::ghostGet(20) == i + 1, "%ld tasks run", mc::ghostGet(20)); }
        MC_CHECK(part() == TP::Timeout, "status");
        p.notifyStop();
        MC_CHECK(part() == TP::StopNotified, "status");
    }
    end();
}
MC_SCENARIO(join_waits_for_the_running_task, 5, 9, 0) {
    Pool p;
    std::thread a([&] { In in; p.participate(); });
    p.submit(TP::createSimpleTask([] { mc::ghostAdd(20, 1); mc::point(); mc::point(); mc::ghostSet(45, 1); }));
    awaitRuns(1);
    p.stopAndJoin();
    MC_CHECK(mc::ghostGet(45) == 1, "joined while a task was running");
    a.join();
}
MC_SCENARIO(once, 5, 9, 0) {
    {
        Pool p;
        std::thread a([&] { MC_CHECK(within(p), "no task run"); }), b([&] { MC_CHECK(within(p), "no task run"); });
        put(p, 0); put(p, 1); put(p, 2);
        a.join(); b.join();
        MC_CHECK(mc::ghostGet(20) == 2 && mc::ghostGet(0) && mc::ghostGet(1), "%ld tasks run", mc::ghostGet(20));
        p.join();
        MC_CHECK(within(p), "no task run"); MC_CHECK(mc::ghostGet(2) == 1, "not run");
    }
    end();
}
MC_SCENARIO(once_or_stopped, 5, 9, mc::SPURIOUS) {
    {
        Pool p;
        std::thread a([&] { mc::ghostAdd(46, within(p)); });
        std::thread b([&] { p.notifyStop(); });
        put(p, 0);
        a.join(); b.join();
        MC_CHECK(mc::ghostGet(46) == mc::ghostGet(20), "%ld tasks run, %ld reported", mc::ghostGet(20), mc::ghostGet(46));
        mc::outcome(mc::ghostGet(20));
    }
    end();
}
/* For a time. */
MC_SCENARIO(timed, 5, 9, mc::SPURIOUS) {
    {
        Pool p;
        auto const t0 = Clock::now();
        std::thread a([&] { In in; auto const s = p.participateFor(milliseconds(10)); MC_CHECK(s == TP::Timeout, "status %d", int(s)); MC_CHECK(Clock::now() >= t0 + milliseconds(10), "returned early"); });
        put(p, 0);
        a.join();
        mc::outcome(mc::ghostGet(20));
        put(p, 1);
        In in;
        auto u = Clock::now() + milliseconds(5);
        auto s = p.participateUntil(u); MC_CHECK(s == TP::Timeout && mc::ghostGet(20) == 2, "status %d runs %ld", int(s), mc::ghostGet(20));
        MC_CHECK(Clock::now() >= u, "returned early"); u = Clock::now() + milliseconds(5);
        s = p.participateOnceFor(milliseconds(5)); MC_CHECK(s == TP::Timeout, "status %d", int(s));
        MC_CHECK(Clock::now() >= u, "returned early"); u = Clock::now() + milliseconds(5);
        s = p.participateOnceUntil(u); MC_CHECK(s == TP::Timeout, "status %d", int(s));
        MC_CHECK(Clock::now() >= u, "returned early");
        put(p, 2); put(p, 3);
        s = p.participateOnceUntil(Clock::now() + milliseconds(5)); MC_CHECK(s == TP::Ok && mc::ghostGet(20) == 3, "status %d", int(s));
        s = p.participateOnceFor(milliseconds(5)); MC_CHECK(s == TP::Ok && mc::ghostGet(20) == 4, "status %d", int(s));
        p.stopAndJoin();
        put(p, 4);
        s = p.participateOnceFor(milliseconds(5)); MC_CHECK(s == TP::StopNotified, "status %d", int(s));
        s = p.participateFor(milliseconds(5)); MC_CHECK(s == TP::StopNotified, "status %d", int(s));
        MC_CHECK(mc::ghostGet(4) == 0, "task run after stop");
    }
    end();
}
MC_SCENARIO(timed_next_to_untimed, 5, 9, 0) {
    {
        Pool p;
        std::thread a([&] { In in; p.participate(); });
        { In in; auto const s = p.participateFor(milliseconds(10)); MC_CHECK(s == TP::Timeout, "status %d", int(s)); }
        put(p, 0);
        awaitRuns(1);
        p.notifyStop();
        a.join();
    }
    end();
}
MC_SCENARIO(timed_and_stopped, 5, 9, 0) {
    {
        Pool p;
        std::thread a([&] { In in; auto const s = p.participateFor(std::chrono::hours(1)); MC_CHECK(s == TP::StopNotified, "status %d", int(s)); });
        p.notifyStop();
        a.join();
        p.join();
    }
}
/* Stopped by a task it runs, the participant reports the stop, unless it was to run just that one. */
MC_SCENARIO(stopped_by_own_task, 4, 7, 0) {
    {
        Pool p;
        int const k = mc::choose(6);
        p.submit(TP::createSimpleTask([&] { mc::ghostAdd(20, 1); p.notifyStop(); }));
        put(p, 1);
        {
            In in;
            auto const s = k == 0 ? p.participateFor(std::chrono::hours(1)) : k == 1 ? p.participateUntil(Clock::now() + std::chrono::hours(1))
                : k == 2 ? p.participateOnceFor(std::chrono::hours(1)) : k == 3 ? p.participateOnceUntil(Clock::now() + std::chrono::hours(1))
                : k == 4 ? (p.participateOnce() ? TP::Ok : TP::Timeout) : (p.participate(), TP::StopNotified);
            MC_CHECK(s == (k == 0 || k == 1 || k == 5 ? TP::StopNotified : TP::Ok), "status %d", int(s));
        }
        MC_CHECK(mc::ghostGet(20) == 1, "task run after stop");
        p.join();
    }
    end();
}
/* The task arrives while somebody waits for one, long before the time is over. */
MC_SCENARIO(timed_once_in_time, 4, 7, 0) {
    {
        Pool p;
        int const k = mc::choose(3);
        std::thread a([&] { In in; auto const s = k == 0 ? p.participateOnceFor(std::chrono::hours(1)) : k == 1 ? p.participateOnceUntil(Clock::now() + std::chrono::hours(1)) : (p.participateOnce() ? TP::Ok : TP::StopNotified); MC_CHECK(s == TP::Ok, "status %d", int(s)); });
        mc::awaitQuiescence("somebody waits");
        put(p, 0);
        a.join();
        MC_CHECK(mc::ghostGet(20) == 1, "task not run");
    }
    end();
}
MC_SCENARIO(timed_others, 4, 7, mc::EARLYTIMEOUT) {
    {
        Pool p;
        std::thread a([&] { In in; auto const s = p.participateOnceFor(milliseconds(10)); MC_CHECK(s == TP::Ok || s == TP::Timeout, "status %d", int(s)); mc::ghostAdd(46, s == TP::Ok); });
        std::thread b([&] { In in; auto const s = p.participateOnceFor(milliseconds(20)); MC_CHECK(s == TP::Ok || s == TP::Timeout, "status %d", int(s)); mc::ghostAdd(46, s == TP::Ok); });
        put(p, 0);
        a.join(); b.join();
        MC_CHECK(mc::ghostGet(46) == mc::ghostGet(20), "%ld tasks run, %ld reported", mc::ghostGet(20), mc::ghostGet(46));
        p.join();
    }
    end();
}
/* A task's exception reaches the participant, which no longer participates. */
MC_SCENARIO(throwing_task, 4, 8, 0) {
    {
        Pool p;
        std::thread a([&] { In in; try { p.participate(); mc::fail("no exception"); } catch (int) { mc::ghostSet(47, 1); } });
        p.submit(TP::createSimpleTask([] { throw 1; }));
        put(p, 0);
        a.join();
        MC_CHECK(mc::ghostGet(47), "lost");
        p.join();
        MC_CHECK(within(p), "no task run");
    }
    end();
}
/* join() without a stop: it waits for whoever participates, and for nobody else. */
namespace {
template <typename F> void joined(F f) {
    {
        Pool p;
        put(p, 0);
        std::thread a([&] { f(p); });
        std::thread b([&] { p.join(); });
        p.join();
        a.join(); b.join();
        In in;
        p.participateOnceFor(milliseconds(1));
        MC_CHECK(mc::ghostGet(20) == 1 && mc::ghostGet(0) == 1, "task not run");
    }
    end();
}
/* The joiner starts to wait only when the task runs, that is when somebody participates. */
template <typename F> void joinedWhileIn(F f) {
    {
        Pool p;
        p.submit(TP::createSimpleTask([] { mc::ghostAdd(20, 1); mc::point(); mc::ghostSet(45, 1); }));
        std::thread a([&] { In in; f(p); });
        awaitRuns(1);
        std::thread b([&] { p.join(); MC_CHECK(mc::ghostGet(45) == 1, "joined while a task was running"); });
        p.join();
        MC_CHECK(mc::ghostGet(45) == 1, "joined while a task was running");
        a.join(); b.join();
    }
    end();
}
} // namespace
MC_SCENARIO(joined_once, 4, 7, 0) { joined([](Pool & p) { within(p); }); }
MC_SCENARIO(joined_timed, 3, 6, 0) { joined([](Pool & p) { In in; p.participateFor(milliseconds(10)); }); }
MC_SCENARIO(joined_while_once, 4, 7, 0) { joinedWhileIn([](Pool & p) { p.participateOnce(); }); }
MC_SCENARIO(joined_while_for, 3, 6, 0) { joinedWhileIn([](Pool & p) { p.participateFor(milliseconds(10)); }); }
MC_SCENARIO(joined_while_until, 3, 6, 0) { joinedWhileIn([](Pool & p) { p.participateUntil(Clock::now() + milliseconds(10)); }); }
MC_SCENARIO(joined_while_once_for, 4, 7, 0) { joinedWhileIn([](Pool & p) { p.participateOnceFor(milliseconds(10)); }); }
MC_SCENARIO(joined_while_once_until, 4, 7, 0) { joinedWhileIn([](Pool & p) { p.participateOnceUntil(Clock::now() + milliseconds(10)); }); }
/* join() waits for all who participate, also when one of them leaves earlier. */
MC_SCENARIO(joined_when_all_left, 4, 7, 0) {
    {
        Pool p;
        std::thread a([&] { In in; mc::ghostAdd(56, 1); MC_CHECK(p.participateOnce(), "no task run"); });
        std::thread b([&] { In in; mc::ghostAdd(56, 1); p.participateOnceFor(std::chrono::hours(1)); });
        for (int i = 0; i < 2; ++i)
            p.submit(TP::createSimpleTask([] {
                mc::ghostAdd(57, 1);
                mc::blockUntil([](void *) { return mc::ghostGet(57) == 2; }, nullptr, "both run");
                if (mc::ghostAdd(58, 1) == 2) { mc::blockUntil([](void *) { return mc::ghostGet(50 + 1) + mc::ghostGet(50 + 2) == 1; }, nullptr, "the other left"); mc::point(); }
                mc::ghostAdd(59, 1);
            }));
        mc::blockUntil([](void *) { return mc::ghostGet(57) == 2; }, nullptr, "both run");
        p.join();
        MC_CHECK(mc::ghostGet(59) == 2, "joined while a task was running");
        a.join(); b.join();
    }
}
/* Two threads waiting for the end, and one participant of two which leaves first. */
MC_SCENARIO(two_joiners_two_participants, 3, 5, 0) {
    {
        Pool p;
        std::thread a([&] { In in; p.participateFor(milliseconds(10)); }), b([&] { In in; p.participate(); });
        std::thread c([&] { p.stopAndJoin(); mc::ghostSet(60, 1); });
        p.stopAndJoin();
        a.join(); b.join(); c.join();
        put(p, 0);
        MC_CHECK(!within(p), "a stopped pool ran a task");
    }
    end();
}
/* Many tasks, many participations. ghost 0: number of tasks run so far; 20: number. */
namespace { void many(Pool & p, int from, int n) { for (int i = from; i < from + n; ++i) p.submit(TP::createSimpleTask([i] { MC_CHECK(mc::ghostGet(0) == i, "task %d run after %ld others", i, mc::ghostGet(0)); mc::ghostSet(0, i + 1); mc::ghostAdd(20, 1); })); } }
MC_SCENARIO(many_tasks, 1, 2, 0) { Pool p; std::thread a([&] { p.participate(); }); many(p, 0, 30); awaitRuns(30); p.stopAndJoin(); a.join(); }
MC_SCENARIO(many_times, 1, 2, 0) { Pool p; std::thread a([&] { many(p, 0, 20); }); for (int i = 0; i < 20; ++i) { MC_CHECK(p.participateOnce(), "no task run"); MC_CHECK(mc::ghostGet(20) == i + 1, "%ld tasks run in %d times", mc::ghostGet(20), i + 1); } a.join(); p.stopAndJoin(); }
MC_SCENARIO(many_times_timed, 1, 2, 0) { Pool p; many(p, 0, 20); for (int i = 0; i < 20; ++i) { auto const s = i % 2 ? p.participateOnceFor(std::chrono::hours(1)) : p.participateOnceUntil(Clock::now() + std::chrono::hours(1)); MC_CHECK(s == TP::Ok && mc::ghostGet(20) == i + 1, "status %d", int(s)); } p.stopAndJoin(); }
