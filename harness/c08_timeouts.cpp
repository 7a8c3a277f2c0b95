// C08: TimeoutsThread under every interleaving, on a virtual clock.
#include "mc.h"
#include <chrono>
#include <memory>
#include <thread>
#include <utility>
#include <sharemind/TimeoutsThread.h>

namespace {
using TT = sharemind::TimeoutsThread;
using Task = TT::Task;
using std::chrono::milliseconds;
/* Harness state per task, ghost indices: 0.. due (ms), 8.. runs, 16.. clock when
   adding had returned + 1, 24.. position in the order of runs. */
long now() { return long((mc::nowNs() - mc::ghostGet(63)) / 1000000); }
void begin() { mc::ghostSet(63, mc::nowNs()); }
void ran(int i) {
    long const t = now();
    MC_CHECK(mc::ghostGet(8 + i) == 0, "task %d ran twice", i);
    mc::ghostSet(8 + i, 1);
    MC_CHECK(t >= mc::ghostGet(i), "task %d ran at %ld ms, due at %ld ms", i, t, mc::ghostGet(i));
    mc::ghostSet(32 + i, t);
    for (int y = 0; y < 8; ++y)
        if (mc::ghostGet(16 + y) && !mc::ghostGet(8 + y) && mc::ghostGet(y) < mc::ghostGet(i) && mc::ghostGet(16 + y) - 1 < mc::ghostGet(i))
            mc::fail("task %d due at %ld ms ran before task %d due at %ld ms", i, mc::ghostGet(i), y, mc::ghostGet(y));
    mc::ghostSet(24 + i, mc::ghostAdd(60, 1));
}
std::unique_ptr<Task> one(int i) { return TT::createOneShotTask([i]() noexcept { mc::point(); ran(i); }); }
void add(TT & tt, int i, long ms) {
    mc::ghostSet(i, now() + ms);
    tt.addTimeoutTask(milliseconds(ms), one(i));
    mc::ghostSet(16 + i, now() + 1);
}
int need;
void awaitRuns(int n) { need = n; mc::blockUntil([](void *) { return mc::ghostGet(60) >= need; }, nullptr, "await runs"); }
/* Only valid where nothing but the timer thread itself advances the clock. */
void onTime(int i) { MC_CHECK(mc::ghostGet(32 + i) == mc::ghostGet(i), "task %d due at %ld ms ran at %ld ms", i, mc::ghostGet(i), mc::ghostGet(32 + i)); }
} // namespace

MC_SCENARIO(one_task, 6, 10, mc::SPURIOUS) {
    begin();
    TT tt;
    add(tt, 0, 10);
    awaitRuns(1); onTime(0);
}
MC_SCENARIO(earlier_task_added, 5, 9, mc::SPURIOUS) {
    begin();
    TT tt;
    add(tt, 0, 20);
    add(tt, 1, 5);
    awaitRuns(2);
    onTime(0); onTime(1);
    MC_CHECK(mc::ghostGet(25) == 1 && mc::ghostGet(24) == 2, "wrong order");
}
MC_SCENARIO(three_tasks, 5, 8, 0) {
    begin();
    TT tt;
    add(tt, 0, 20); add(tt, 1, 30); add(tt, 2, 10);
    awaitRuns(3);
    onTime(0); onTime(1); onTime(2);
    MC_CHECK(mc::ghostGet(26) == 1 && mc::ghostGet(24) == 2 && mc::ghostGet(25) == 3, "wrong order");
}
MC_SCENARIO(equal_due_times, 5, 8, 0) {
    begin();
    TT tt;
    auto const at = TT::Clock::now() + milliseconds(10);
    for (int i = 0; i < 3; ++i) { mc::ghostSet(i, 10); tt.addTask(at, one(i)); mc::ghostSet(16 + i, now() + 1); }
    awaitRuns(3);
    for (int i = 0; i < 3; ++i) { onTime(i); MC_CHECK(mc::ghostGet(24 + i) == i + 1, "tasks due at the same time ran out of order"); }
}
MC_SCENARIO(two_adders, 5, 8, 0) {
    begin();
    TT tt;
    std::thread a([&] { add(tt, 0, 20); add(tt, 1, 5); });
    add(tt, 2, 10); add(tt, 3, 0);
    a.join();
    awaitRuns(4);
}
MC_SCENARIO(slow_adders, 4, 7, mc::EARLYTIMEOUT) {
    begin();
    TT tt;
    std::thread a([&] { add(tt, 0, 20); add(tt, 1, 5); });
    add(tt, 2, 10);
    a.join();
    awaitRuns(3);
}
MC_SCENARIO(time_passes_meanwhile, 5, 8, 0) {
    begin();
    TT tt;
    add(tt, 0, 20);
    mc::advanceTime(30 * 1000000ll);
    add(tt, 1, 5);
    add(tt, 2, 3);
    awaitRuns(3);
}
MC_SCENARIO(past_due, 5, 8, 0) {
    begin();
    TT tt;
    mc::ghostSet(0, -5);
    tt.addTask(TT::Clock::now() - milliseconds(5), one(0));
    awaitRuns(1);
    MC_CHECK(now() == 0, "past task run at %ld ms", now());
}
/* Never early, not even slightly, whatever wakes the thread up beforehand. */
MC_SCENARIO(nearly_due, 5, 8, mc::SPURIOUS) {
    begin();
    TT tt;
    std::int64_t const at = mc::nowNs() + 20000000;
    tt.addTimeoutTask(milliseconds(20), TT::createOneShotTask([at]() noexcept { mc::point(); MC_CHECK(mc::nowNs() >= at, "ran %ld ns early", long(at - mc::nowNs())); mc::ghostAdd(60, 1); }));
    static std::int64_t const early[] = {1, 1000, 400000, 1500000, 11000000};
    mc::advanceTime(20000000 - early[mc::choose(5)]);
    tt.addTimeoutTask(milliseconds(30), one(1));
    awaitRuns(2);
}
MC_SCENARIO(days, 4, 7, mc::SPURIOUS) {
    begin();
    TT tt;
    static long const h[] = {1, 25, 24 * 8, 24 * 40, 24 * 400};
    long const ms = h[mc::choose(5)] * 3600000l;
    mc::ghostSet(0, ms); tt.addTimeoutTask(std::chrono::milliseconds(ms), one(0)); mc::ghostSet(16, now() + 1);
    add(tt, 1, 10);
    awaitRuns(2); onTime(0); onTime(1);
}
/* A task may add tasks, also itself again. */
MC_SCENARIO(far_off, 4, 7, mc::SPURIOUS) {
    begin();
    bool const before = mc::choose(2); int const how = mc::choose(3);
    auto const far = how == 0 ? TT::Clock::duration::max() : how == 1 ? TT::Clock::duration::max() - std::chrono::seconds(1) : std::chrono::duration_cast<TT::Clock::duration>(std::chrono::hours(24 * 365 * 200));
    auto task = [] { return TT::createOneShotTask([]() noexcept { mc::fail("a task due in centuries runs"); }); };
    { TT tt;
      if (before) tt.addTimeoutTask(far, task());
      add(tt, 0, 10);
      if (!before) tt.addTimeoutTask(far, task());
      add(tt, 1, 20);
      awaitRuns(2); onTime(0); onTime(1); }
}
MC_SCENARIO(task_adds_task, 5, 8, 0) {
    begin();
    TT tt;
    mc::ghostSet(0, 10);
    tt.addTimeoutTask(milliseconds(10), TT::createOneShotTask([&tt]() noexcept { ran(0); add(tt, 1, 5); add(tt, 2, 0); }));
    awaitRuns(3);
    onTime(0); onTime(1); onTime(2);
    MC_CHECK(mc::ghostGet(26) == 2 && mc::ghostGet(25) == 3, "order");
}
MC_SCENARIO(reusable, 5, 8, 0) {
    begin();
    {
        TT tt;
        tt.addTimeoutTask(milliseconds(10), TT::createReusableTask([&tt](std::unique_ptr<Task> && t) noexcept {
            MC_CHECK(bool(t), "no task given");
            long const n = mc::ghostAdd(61, 1);
            MC_CHECK(now() == 10 * n, "run %ld at %ld ms", n, now());
            if (n < 3) tt.addTimeoutTask(milliseconds(10), std::move(t));
            else mc::ghostAdd(60, 1);
        }));
        awaitRuns(1);
    }
    MC_CHECK(mc::ghostGet(61) == 3, "ran %ld times", mc::ghostGet(61));
}
/* The reusable task is given to another thread, which adds it again. */
MC_SCENARIO(reusable_elsewhere, 4, 7, 0) {
    begin();
    TT tt;
    std::unique_ptr<Task> slot;
    auto t = TT::createReusableTask([&slot](std::unique_ptr<Task> && t) noexcept { slot = std::move(t); mc::sysHb(&slot); mc::ghostAdd(60, 1); });
    tt.addTimeoutTask(milliseconds(1), std::move(t));
    awaitRuns(1); mc::sysHb(&slot);
    MC_CHECK(bool(slot), "task not handed out");
    tt.addTimeoutTask(milliseconds(1), std::move(slot));
    awaitRuns(2); mc::sysHb(&slot);
    MC_CHECK(bool(slot), "task not handed out");
}
/* Nothing starts after the thread is gone; nothing leaks. */
MC_SCENARIO(destroyed_with_tasks, 6, 10, mc::SPURIOUS) {
    begin();
    {
        TT tt;
        add(tt, 0, 10);
        add(tt, 1, 0);
    }
    MC_CHECK(mc::ghostGet(8) == 0, "task ran ahead of time");
    mc::outcome(mc::ghostGet(9));
    mc::ghostSet(9, 1); mc::ghostSet(8, 1);
}
/* Tasks compare like the times at which they are due. */
MC_SCENARIO(compared, 1, 2, 0) {
    begin();
    TT tt;
    Task const * t[3]; auto const base = TT::Clock::now() + std::chrono::hours(1); int due[3];
    for (int i = 0; i < 3; ++i) {
        due[i] = mc::choose(3, 0);
        auto task = i == 1 ? TT::createReusableTask([](std::unique_ptr<Task> &&) noexcept {}) : TT::createOneShotTask([]() noexcept {});
        t[i] = task.get();
        if (mc::choose(2, 0)) tt.addTask(base + milliseconds(due[i]), std::move(task)); else tt.addTimeoutTask(base - TT::Clock::now() + milliseconds(due[i]), std::move(task));
    }
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        Task const & a = *t[i]; Task const & b = *t[j]; int const x = due[i], y = due[j];
        MC_CHECK((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), "tasks due at %d and %d ms compare wrongly", x, y);
    }
}
MC_SCENARIO(stopped, 5, 8, 0) {
    begin();
    {
        TT tt;
        auto const f = []() noexcept { mc::ghostAdd(57, mc::ghostGet(58)); mc::ghostAdd(59, 1); };
        for (int i = 0; i < 3; ++i) tt.addTimeoutTask(milliseconds(0), TT::createOneShotTask(f));
        tt.stop();
        mc::ghostSet(58, 1);
        tt.addTimeoutTask(milliseconds(0), TT::createOneShotTask(f));
    }
    /* Only what had been taken for running before may still start. */
    MC_CHECK(mc::ghostGet(57) <= 1, "%ld tasks started after stop", mc::ghostGet(57));
    MC_CHECK(mc::ghostGet(59) <= 3, "ran %ld", mc::ghostGet(59));
    mc::outcome(mc::ghostGet(59));
}
MC_SCENARIO(stopped_by_task, 5, 8, 0) {
    begin();
    {
        TT tt;
        tt.addTimeoutTask(milliseconds(5), TT::createOneShotTask([&tt]() noexcept { tt.stop(); mc::sysHb(&need); mc::ghostAdd(60, 1); }));
        auto const never = []() noexcept { mc::fail("a task ran after stop"); };
        tt.addTimeoutTask(milliseconds(5), TT::createOneShotTask(never));
        tt.addTimeoutTask(milliseconds(6), TT::createOneShotTask(never));
        awaitRuns(1); mc::sysHb(&need);
    }
}
/* What the adding thread wrote is visible to the task, and callables are
   destroyed exactly once. */
namespace {
struct Fn {
    int * v; bool own;
    explicit Fn(int * v_) : v(v_), own(true) { mc::ghostAdd(50, 1); }
    Fn(Fn && o) : v(o.v), own(o.own) { o.own = false; }
    ~Fn() { if (own) mc::ghostAdd(50, -1); }
    void operator()() noexcept { MC_CHECK(own, "a dead callable was called"); MC_CHECK(*v == 5, "stale"); mc::ghostAdd(60, 1); }
};
}
MC_SCENARIO(visibility, 5, 8, mc::WEAK) {
    int v = 0;
    {
        TT tt;
        v = 5;
        tt.addTimeoutTask(milliseconds(1), TT::createOneShotTask(Fn(&v)));
        tt.addTimeoutTask(milliseconds(900), TT::createOneShotTask(Fn(&v)));
        awaitRuns(1);
    }
    MC_CHECK(mc::ghostGet(50) == 0, "callables destroyed %ld times too few", mc::ghostGet(50));
}
/* Many tasks at once, some due at the same time: each once, not early, in order. ghost 0, 1: last due time and its number; 2: set of those run; 3: clock when all had been added + 1. */
MC_SCENARIO(many_tasks, 1, 2, 0) {
    begin();
    constexpr int N = 24;
    auto const start = TT::Clock::now();
    TT tt;
    auto const due = [](int i) { return 1000 + 10 * long((i * 7) % N / 2); };
    for (int i = 0; i < N; ++i)
        tt.addTask(start + milliseconds(due(i)), TT::createOneShotTask([i, due]() noexcept {
            long const t = now(), d = due(i), s = mc::ghostGet(2); MC_CHECK(!(s >> i & 1), "task %d ran twice", i); mc::ghostSet(2, s | 1l << i); MC_CHECK(t >= d, "task %d ran at %ld ms, due at %ld ms", i, t, d);
            if (mc::ghostGet(3) && mc::ghostGet(3) - 1 < 1000) {
                for (int y = 0; y < N; ++y) if (!((s | 1l << i) >> y & 1) && (due(y) < d || (due(y) == d && y < i))) mc::fail("task %d due at %ld ms ran before task %d due at %ld ms", i, d, y, due(y));
                MC_CHECK(t == d, "task %d due at %ld ms ran at %ld ms", i, d, t);
            }
            mc::ghostAdd(60, 1);
        }));
    mc::ghostSet(3, now() + 1);
    awaitRuns(N);
    MC_CHECK(mc::ghostGet(2) == (1l << N) - 1, "not all ran");
}
