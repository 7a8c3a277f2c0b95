// C10: Strand under every interleaving.
#include "mc.h"
#include <atomic>
#include <chrono>
#include <limits>
#include <memory>
#include <thread>
#include <utility>
#include <sharemind/Strand.h>

namespace {
struct Pool: sharemind::ThreadPool { using ThreadPool::workerThread; using ThreadPool::oneTaskWorkerThread; };
using TP = sharemind::ThreadPool;
using sharemind::Strand;

/* ghost 0..9: runs of task i; 20: tasks finished; 21+s: tasks running in strand
   s; 30+s: set once strand s has been stopped; 40: live functors; 50..: order */
int data[2]; /* protected by nothing but the strand; one per strand */
struct Fn {
    int i, s; 
    Fn(int i_, int s_ = 0) : i(i_), s(s_) { mc::ghostSet(40, mc::ghostGet(40) + 1); }
    Fn(Fn const & o) : i(o.i), s(o.s) { mc::ghostSet(40, mc::ghostGet(40) + 1); }
    ~Fn() { MC_CHECK(i >= 0, "functor destroyed twice"); i = -1; mc::ghostSet(40, mc::ghostGet(40) - 1); }
    void operator()() {
        MC_CHECK(i >= 0, "dead functor called");
        MC_CHECK(!mc::ghostGet(30 + s), "task %d starts after its strand was stopped and joined", i);
        MC_CHECK(mc::ghostAdd(21 + s, 1) == 1, "two tasks of one strand run at a time");
        MC_CHECK(mc::ghostGet(i) == 0, "task %d run twice", i);
        mc::ghostSet(i, 1);
        int const d = data[s];
        mc::point();
        data[s] = d + 1;
        mc::ghostSet(50 + i, d + 1);
        mc::ghostAdd(21 + s, -1);
        mc::ghostAdd(20, 1);
    }
};
void put(Strand & p, int i, int s = 0) { p.submit(TP::createSimpleTask(Fn(i, s))); }
int need;
void awaitRuns(int n) { need = n; mc::blockUntil([](void *) { return mc::ghostGet(20) >= need; }, nullptr, "await runs"); }
void stopped(int s = 0) { MC_CHECK(mc::ghostGet(21 + s) == 0, "a task still runs after the strand was stopped and joined"); mc::ghostSet(30 + s, 1); }
struct Env {
    std::shared_ptr<Pool> p{std::make_shared<Pool>()};
    std::thread w[2]; int n;
    explicit Env(int n_) : n(n_) { data[0] = data[1] = 0; for (int i = 0; i < n; ++i) { Pool * q = p.get(); w[i] = std::thread([q] { q->workerThread(); }); } }
    ~Env() { p->notifyStop(); for (int i = 0; i < n; ++i) w[i].join(); p.reset(); MC_CHECK(mc::ghostGet(40) == 0, "%ld functors leaked", mc::ghostGet(40)); }
};
} // namespace

MC_SCENARIO(one_worker, 6, 9, 0) {
    Env e(1);
    Strand s(e.p);
    put(s, 0); put(s, 1); put(s, 2);
    awaitRuns(3);
    MC_CHECK(mc::ghostGet(50) == 1 && mc::ghostGet(51) == 2 && mc::ghostGet(52) == 3, "order");
}
MC_SCENARIO(two_workers, 5, 8, 0) {
    Env e(2);
    Strand s(e.p);
    put(s, 0); put(s, 1); put(s, 2);
    awaitRuns(3);
    MC_CHECK(mc::ghostGet(50) == 1 && mc::ghostGet(51) == 2 && mc::ghostGet(52) == 3, "order");
}
MC_SCENARIO(two_submitters, 4, 7, 0) {
    Env e(2);
    Strand s(e.p);
    std::thread t([&] { put(s, 0); put(s, 1); });
    put(s, 2);
    t.join();
    awaitRuns(3);
    MC_CHECK(mc::ghostGet(50) < mc::ghostGet(51), "order");
}
MC_SCENARIO(two_strands, 4, 7, 0) {
    Env e(2);
    Strand s(e.p), r(e.p);
    put(s, 0); put(r, 1, 1); put(s, 2); put(r, 3, 1);
    awaitRuns(4);
    MC_CHECK(mc::ghostGet(50) == 1 && mc::ghostGet(52) == 2 && mc::ghostGet(51) == 1 && mc::ghostGet(53) == 2, "order");
}
/* Tasks of different strands do not wait for each other. */
MC_SCENARIO(strands_are_independent, 4, 7, 0) {
    Env e(2);
    Strand s(e.p), r(e.p);
    s.submit(TP::createSimpleTask([] { mc::blockUntil([](void *) { return mc::ghostGet(1) > 0; }, nullptr, "other strand"); mc::ghostAdd(20, 1); }));
    put(r, 1, 1);
    awaitRuns(2);
}
MC_SCENARIO(mixed_with_plain_tasks, 4, 7, 0) {
    Env e(2);
    Strand s(e.p);
    put(s, 0);
    e.p->submit(TP::createSimpleTask([] { mc::ghostAdd(20, 1); }));
    put(s, 1);
    awaitRuns(3);
}
MC_SCENARIO(task_submits, 5, 8, 0) {
    Env e(2);
    Strand s(e.p);
    s.submit(TP::createSimpleTask([&s] { put(s, 0); put(s, 1); }));
    awaitRuns(2);
    MC_CHECK(mc::ghostGet(50) == 1 && mc::ghostGet(51) == 2, "order");
}
MC_SCENARIO(stop_and_join, 5, 8, mc::SPURIOUS) {
    Env e(1);
    {
        Strand s(e.p);
        put(s, 0); put(s, 1);
        auto p = s.stopAndJoin();
        stopped();
        MC_CHECK(p == e.p, "the pool was not returned");
        mc::outcome(mc::ghostGet(20));
        put(s, 2);
        MC_CHECK(!s.stopAndJoin(), "pool returned twice");
    }
}
MC_SCENARIO(stop_and_join_two_workers, 4, 7, 0) {
    Env e(2);
    Strand s(e.p);
    put(s, 0); put(s, 1);
    s.stopAndJoin();
    stopped();
    put(s, 2);
}
MC_SCENARIO(destroy, 5, 8, mc::SPURIOUS) {
    Env e(1);
    {
        Strand s(e.p);
        put(s, 0); put(s, 1);
    }
    stopped();
}
MC_SCENARIO(destroy_two_workers, 4, 7, 0) {
    Env e(2);
    {
        Strand s(e.p);
        put(s, 0); put(s, 1);
    }
    stopped();
}
MC_SCENARIO(stop_while_submitting, 4, 7, 0) {
    Env e(1);
    Strand s(e.p);
    std::thread t([&] { put(s, 0); put(s, 1); });
    s.stopAndJoin();
    stopped();
    t.join();
    mc::outcome(mc::ghostGet(20));
}
MC_SCENARIO(two_stoppers, 4, 7, mc::SPURIOUS) {
    Env e(1);
    Strand s(e.p);
    put(s, 0);
    std::shared_ptr<TP> a, b;
    std::thread t([&] { a = s.stopAndJoin(); stopped(); });
    b = s.stopAndMaybeJoin(); stopped();
    t.join();
    MC_CHECK(bool(a) != bool(b), "the pool was returned %d times", bool(a) + bool(b));
}
MC_SCENARIO(stop_by_own_task, 5, 8, 0) {
    Env e(2);
    {
        Strand s(e.p);
        s.submit(TP::createSimpleTask([&] {
            auto const p = s.stopAndMaybeJoin();
            MC_CHECK(p == e.p, "the pool was not returned");
            mc::ghostAdd(20, 1);
        }));
        put(s, 0);
        awaitRuns(1);
    }
    stopped();
    MC_CHECK(mc::ghostGet(0) == 0, "task run after stop");
}
MC_SCENARIO(stop_by_task_of_other_strand, 4, 7, 0) {
    Env e(2);
    Strand s(e.p), r(e.p);
    put(s, 0); put(s, 1);
    r.submit(TP::createSimpleTask([&] { s.stopAndMaybeJoin(); stopped(0); mc::ghostAdd(45, 1); }));
    mc::blockUntil([](void *) { return mc::ghostGet(45) > 0; }, nullptr, "await stop");
    mc::outcome(mc::ghostGet(20));
}
/* A task of a strand runs another task of the pool by itself, which is of another strand and stops the first one. */
MC_SCENARIO(stop_from_within_both, 4, 7, 0) {
    Env e(1);
    {
        Strand s(e.p), r(e.p), t(e.p); int const which = mc::choose(3); Pool * const q = e.p.get();
        e.p->submit(TP::createSimpleTask([&, which, q] {
            put(t, 5, 1); s.submit(TP::createSimpleTask([&, which, q] {
                r.submit(TP::createSimpleTask([&, which] { mc::ghostAdd(20, 1); if (which == 0) { auto const p = s.stopAndMaybeJoin(); MC_CHECK(p == e.p, "the pool was not returned"); MC_CHECK(!s.stopAndMaybeJoin(), "pool"); } else if (which == 1) { auto const p = r.stopAndMaybeJoin(); MC_CHECK(p == e.p, "the pool was not returned"); } else { t.stopAndMaybeJoin(); } mc::ghostAdd(20, 1); }));
                q->oneTaskWorkerThread(); mc::ghostAdd(20, 1);
            }));
        }));
        awaitRuns(4);
        if (which == 0) { put(s, 0); mc::point(); MC_CHECK(mc::ghostGet(0) == 0, "task run after stop"); }
    }
    mc::outcome(mc::ghostGet(20));
}
/* The strand waits for the worker of the pool, no task of it has begun, and
   the thread stopping it sleeps already: none of its tasks may begin. */
MC_SCENARIO(stopped_in_the_queue, 5, 8, 0) {
    Env e(1);
    {
        Strand s(e.p);
        e.p->submit(TP::createSimpleTask([] { mc::awaitQuiescence("the stopping thread sleeps"); mc::ghostSet(45, 1); }));
        put(s, 0); put(s, 1);
        if (mc::choose(2)) { MC_CHECK(s.stopAndJoin() == e.p, "the pool was not returned"); stopped(); }
    }
    stopped();
    MC_CHECK(mc::ghostGet(45) == 1 && mc::ghostGet(20) == 0, "a task begins although the strand was stopped before");
}
MC_SCENARIO(stopped_in_the_queue_by_two, 4, 7, 0) {
    Env e(1);
    Strand s(e.p);
    e.p->submit(TP::createSimpleTask([] { mc::awaitQuiescence("the stopping threads sleep"); mc::ghostSet(45, 1); }));
    put(s, 0);
    std::thread t([&] { s.stopAndJoin(); stopped(); });
    s.stopAndJoin(); stopped();
    t.join();
    MC_CHECK(mc::ghostGet(45) == 1 && mc::ghostGet(20) == 0, "a task begins although the strand was stopped before");
}
/* A strand without a worker around it: nothing runs, stopping does not hang. */
MC_SCENARIO(idle, 3, 5, 0) {
    Env e(1);
    { Strand s(e.p); }
    { Strand s(e.p); MC_CHECK(s.stopAndMaybeJoin() == e.p, "pool"); MC_CHECK(!s.stopAndMaybeJoin(), "pool"); }
}
MC_SCENARIO(visibility, 3, 6, mc::WEAK) {
    Env e(2);
    Strand s(e.p);
    put(s, 0); put(s, 1);
    awaitRuns(2);
    s.stopAndJoin();
    MC_CHECK(data[0] == 2, "effects of the tasks are not visible after joining: %d", data[0]);
}
/* Many tasks in a strand. ghost 0: number of the last one; 20: number. */
namespace {
void many(Strand & s, int from, int n) { for (int i = from; i < from + n; ++i) s.submit(TP::createSimpleTask([i] { MC_CHECK(mc::ghostAdd(21, 1) == 1, "two tasks of one strand run at a time"); MC_CHECK(mc::ghostGet(0) == i, "task %d run after %ld others", i, mc::ghostGet(0)); int const d = data[0]; mc::point(); data[0] = d + 1; mc::ghostSet(0, i + 1); mc::ghostAdd(21, -1); mc::ghostAdd(20, 1); })); }
} // namespace
MC_SCENARIO(many_tasks, 1, 2, 0) { Env e(1); Strand s(e.p); many(s, 0, 30); awaitRuns(30); s.stopAndJoin(); MC_CHECK(data[0] == 30, "run without seeing each other"); }
MC_SCENARIO(many_tasks_two_workers, 0, 1, 0) { Env e(2); Strand s(e.p); many(s, 0, 20); awaitRuns(20); many(s, 20, 5); s.stopAndJoin(); MC_CHECK(mc::ghostGet(0) == mc::ghostGet(20) && data[0] == mc::ghostGet(0), "run without seeing each other"); mc::outcome(mc::ghostGet(0)); }
MC_SCENARIO(many_tasks_stopped, 1, 2, 0) { Env e(1); { Strand s(e.p); many(s, 0, 20); } long const n = mc::ghostGet(20); MC_CHECK(mc::ghostGet(21) == 0, "a task still runs"); mc::point(); MC_CHECK(mc::ghostGet(20) == n, "a task was run later"); mc::outcome(n); }
