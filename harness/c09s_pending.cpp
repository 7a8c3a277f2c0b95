// C09: pending tasks are released once each, however many there are.
#include "seq.h"
#include <memory>
#include <utility>
#include <sharemind/ThreadPool.h>

namespace {
struct Pool: sharemind::ThreadPool { using ThreadPool::workerThread; };
using TP = sharemind::ThreadPool;
struct Fn { seq::Tracked t; int * runs; void operator()() { ++*runs; } };
} // namespace
SEQ_TEST(pending, 0, 0) {
    static int const ns[] = {0, 1, 2, 3, 400000};
    int const n = ns[seq::choose(5)]; int const stopAt = seq::choose(3); int runs = 0;
    {
        Pool p;
        if (stopAt == 0) p.notifyStop();
        for (int i = 0; i < n; ++i) {
            if (i == 1 && stopAt == 1) { p.submit(TP::createSimpleTask([&] { p.notifyStop(); })); p.workerThread(); }
            p.submit(TP::createSimpleTask(Fn{seq::Tracked(i), &runs}));
        }
        if (stopAt == 0) p.workerThread();
        int const ran = stopAt == 1 && n > 1 ? 1 : 0;
        SEQ_CHECK(runs == ran, "%d tasks run instead of %d", runs, ran);
        SEQ_CHECK(seq::Tracked::live == n - ran, "%ld tasks are left instead of %d", seq::Tracked::live, n - ran);
    }
    SEQ_CHECK(!seq::Tracked::live, "%ld tasks were not released", seq::Tracked::live);
}
namespace {
int called;
struct F0 { seq::Tracked t; void operator()() { SEQ_CHECK(t.v == 7, "called with value %d", t.v); ++called; } };
struct F1 { seq::Tracked t; void operator()(TP::Task && task) { SEQ_CHECK(task, "no task"); SEQ_CHECK(t.v == 7, "called with value %d", t.v); ++called; } };
void plain() { ++called; }
void plain1(TP::Task && task) { SEQ_CHECK(task, "no task"); ++called; }
}
/* A task owns a copy of the callable it is made of, whatever the category of the latter. */
SEQ_TEST(callables, 0, 0) {
    int const how = seq::choose(8); called = 0;
    {
        TP::Task t;
        if (how == 0) { F0 f{seq::Tracked(7)}; t = TP::createSimpleTask(f); SEQ_CHECK(f.t.v == 7, "moved from"); f.t.v = 1; }
        else if (how == 1) { F1 f{seq::Tracked(7)}; t = TP::createTask(f); SEQ_CHECK(f.t.v == 7, "moved from"); f.t.v = 1; }
        else if (how == 2) { F0 f{seq::Tracked(7)}; t = TP::createSimpleTask(std::move(f)); }
        else if (how == 3) { F1 f{seq::Tracked(7)}; t = TP::createTask(std::move(f)); }
        else if (how == 4) { int v = 7; auto const f = [v](TP::Task && task) { SEQ_CHECK(task && v == 7, "called with value %d", v); ++called; }; t = TP::createTask(f); }
        else if (how == 5) { int v = 7; auto const f = [v] { SEQ_CHECK(v == 7, "called with value %d", v); ++called; }; t = TP::createSimpleTask(f); }
        else if (how == 6) t = TP::createSimpleTask(plain);
        else t = TP::createTask(plain1);
        SEQ_CHECK(seq::Tracked::live == (how < 4 ? 1 : 0), "%ld callables", seq::Tracked::live);
        SEQ_CHECK(t && !called, "called early");
        Pool p;
        p.submit(std::move(t));
        p.submit(TP::createSimpleTask([&p] { p.notifyStop(); }));
        p.workerThread();
        SEQ_CHECK(called == 1, "called %d times", called);
    }
    SEQ_CHECK(!seq::Tracked::live, "%ld tasks were not released", seq::Tracked::live);
}
/* Every failing allocation, one at a time: nothing leaks, the callable given survives or is released. */
SEQ_TEST(out_of_memory, 0, 0) {
    bool const simple = seq::flip(), move = seq::flip(); called = 0;
    {
        F0 f0{seq::Tracked(7)}; F1 f1{seq::Tracked(7)};
        TP::Task t; bool bad = false;
        seq::armAllocFaults(1);
        try {
            if (simple) t = move ? TP::createSimpleTask(std::move(f0)) : TP::createSimpleTask(f0);
            else t = move ? TP::createTask(std::move(f1)) : TP::createTask(f1);
        } catch (std::bad_alloc const &) { bad = true; }
        seq::disarmAllocFaults();
        SEQ_CHECK(bad == (seq::faultsFired() != 0), "std::bad_alloc: %d", bad);
        SEQ_CHECK(seq::Tracked::live == 2 + !bad, "%ld callables", seq::Tracked::live);
        SEQ_CHECK(bad == !t, "task");
        if (t) { Pool p; p.submit(std::move(t)); p.submit(TP::createSimpleTask([&p] { p.notifyStop(); })); p.workerThread(); SEQ_CHECK(called == 1, "called %d times", called); }
    }
    SEQ_CHECK(!seq::Tracked::live, "%ld tasks were not released", seq::Tracked::live);
}
