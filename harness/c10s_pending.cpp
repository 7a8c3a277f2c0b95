// C10: pending tasks of strands are released once each, however many there are.
#include "seq.h"
#include <memory>
#include <thread>
#include <utility>
#include <sharemind/Strand.h>

namespace {
struct Pool: sharemind::ThreadPool { using ThreadPool::workerThread; };
using TP = sharemind::ThreadPool;
struct Fn { seq::Tracked t; int * runs; void operator()() { ++*runs; } };
} // namespace
SEQ_TEST(pending, 0, 0) {
    static int const ns[] = {0, 1, 2, 3, 400000};
    int const n = ns[seq::choose(5)]; bool const again = seq::flip(); int runs = 0;
    auto p = std::make_shared<Pool>();
    {
        sharemind::Strand s(p);
        // The strand is stopped by its own first task:
        s.submit(TP::createSimpleTask([&] { SEQ_CHECK(s.stopAndMaybeJoin() == p, "pool"); p->notifyStop(); }));
        for (int i = 0; i < n; ++i) s.submit(TP::createSimpleTask(Fn{seq::Tracked(i), &runs}));
        p->workerThread();
        SEQ_CHECK(runs == 0, "%d tasks run", runs);
        SEQ_CHECK(seq::Tracked::live == n, "%ld tasks are left instead of %d", seq::Tracked::live, n);
        if (again) SEQ_CHECK(!s.stopAndJoin(), "the pool is returned twice");
    }
    SEQ_CHECK(!seq::Tracked::live, "%ld tasks were not released", seq::Tracked::live);
}
/* The strand may be the only owner of its pool: whoever stops it gets the pool. */
SEQ_TEST(sole_owner, 0, 0) {
    int const how = seq::choose(3); int const n = seq::choose(3); bool const maybe = seq::flip(); int runs = 0;
    auto p = std::make_shared<Pool>();
    Pool * const raw = p.get();
    std::weak_ptr<Pool> const w(p);
    {
        sharemind::Strand s(std::move(p));
        SEQ_CHECK(w.use_count() == 1, "%ld owners of the pool", w.use_count());
        std::shared_ptr<sharemind::ThreadPool> r;
        if (how == 1) s.submit(TP::createSimpleTask([&] { r = s.stopAndMaybeJoin(); SEQ_CHECK(r.get() == raw, "not the pool of the strand is returned"); raw->notifyStop(); }));
        for (int i = 0; i < n; ++i) s.submit(TP::createSimpleTask(Fn{seq::Tracked(i), &runs}));
        if (how) { if (how == 2) s.submit(TP::createSimpleTask([&] { raw->notifyStop(); })); raw->workerThread(); SEQ_CHECK(runs == (how == 2 ? n : 0), "%d tasks run", runs); }
        if (how == 0 && n == 0) { r = maybe ? s.stopAndMaybeJoin() : s.stopAndJoin(); }
        else if (how == 2) r = maybe ? s.stopAndMaybeJoin() : s.stopAndJoin();
        if (r) {
            SEQ_CHECK(r.get() == raw, "not the pool of the strand is returned");
            SEQ_CHECK(w.use_count() == 1, "%ld owners of the pool", w.use_count());
            SEQ_CHECK(!(maybe ? s.stopAndMaybeJoin() : s.stopAndJoin()), "the pool is returned twice");
            r.reset();
            SEQ_CHECK(w.expired(), "the pool is still owned");
        } else {
            SEQ_CHECK(how == 0 && n, "no pool is returned");
            // Pending tasks which nobody runs: run them before the strand is destroyed.
            s.submit(TP::createSimpleTask([&] { raw->notifyStop(); })); raw->workerThread();
            SEQ_CHECK(runs == n, "%d tasks run", runs);
        }
    }
    SEQ_CHECK(w.expired(), "the pool outlives its last strand");
    SEQ_CHECK(!seq::Tracked::live, "%ld tasks were not released", seq::Tracked::live);
}
