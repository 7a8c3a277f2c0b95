// C02: waits of the locking circular buffer, every interleaving, with spurious
// wake-ups and the virtual clock.
#include "mc.h"
#include <limits>
#include <memory>
#include <atomic>
#include <chrono>
#include <thread>
#include <sharemind/CircBufferSCSP.h>
#include <sharemind/Durations.h>

using Buf = sharemind::CircBufferSCSP<int>;
using MS = std::chrono::milliseconds;

namespace {
struct Stop {};

void writer(Buf & b, int n, int chunk) {
    int w = 0;
    while (w < n) {
        std::size_t const a = b.waitSpaceAvailable();
        MC_CHECK(a >= 1 && a <= b.bufferSize(), "waitSpaceAvailable returned %zu", a);
        MC_CHECK(b.spaceAvailable() >= a, "reported free space is not there");
        int d[8]; int k = 0;
        for (; k < chunk && w + k < n && k < (int) a; ++k) d[k] = w + k;
        std::size_t const r = b.write(d, k);
        MC_CHECK((int) r == k, "reported space was not available: %zu of %d", r, k);
        w += k;
    }
}
void reader(Buf & b, int n, int chunk) {
    int x = 0;
    while (x < n) {
        std::size_t const a = b.waitDataAvailable();
        MC_CHECK(a >= 1 && a <= b.bufferSize(), "waitDataAvailable returned %zu", a);
        MC_CHECK(b.dataAvailable() >= a, "reported data is not there");
        int d[8]; int const k = (int) a < chunk ? (int) a : chunk;
        std::size_t const r = b.read(d, k);
        MC_CHECK((int) r == k, "reported data was not available: %zu of %d", r, k);
        for (int i = 0; i < k; ++i) MC_CHECK(d[i] == x + i, "element %d read as %d", x + i, d[i]);
        x += k;
    }
}
void pingpong(std::size_t cap, int n, int wc, int rc) {
    Buf b(cap);
    std::thread t([&] { writer(b, n, wc); });
    reader(b, n, rc);
    t.join();
    MC_CHECK(b.empty(), "not empty at the end");
}
} // namespace

MC_SCENARIO(pingpong_cap1, 5, 9, mc::SPURIOUS) { pingpong(1, 3, 1, 1); }
MC_SCENARIO(pingpong_cap2, 5, 9, mc::SPURIOUS) { pingpong(2, 4, 2, 1); }
MC_SCENARIO(pingpong_cap2b, 5, 9, mc::SPURIOUS) { pingpong(2, 4, 1, 2); }
MC_SCENARIO(pingpong_cap3, 5, 9, mc::SPURIOUS) { pingpong(3, 7, 3, 2); }

/* Reader waits for data with a stop test; stop is requested at any time. */
MC_SCENARIO(stop_reader, 7, 12, mc::SPURIOUS | mc::EARLYTIMEOUT) {
    Buf b(2);
    std::atomic<bool> stop(false);
    int got = 0;
    std::thread w([&] { int v = 7; b.write(&v, 1); });
    std::thread s([&] { stop.store(true); });
    bool stopped = false;
    try {
        for (;;) {
            std::size_t const a = b.waitDataAvailable([&] { if (stop.load()) throw Stop(); }, MS(1));
            MC_CHECK(a >= 1, "returned without data");
            int v = 0;
            MC_CHECK(b.read(&v, 1) == 1 && v == 7, "data not available");
            ++got;
        }
    } catch (Stop const &) { stopped = true; }
    MC_CHECK(stopped, "not stopped");
    w.join(); s.join();
    int v; if (b.read(&v, 1) == 1) ++got;
    MC_CHECK(got == 1, "element delivered %d times", got);
}
MC_SCENARIO(stop_writer, 7, 12, mc::SPURIOUS | mc::EARLYTIMEOUT) {
    Buf b(1);
    int v = 1;
    b.write(&v, 1);
    std::atomic<bool> stop(false);
    std::thread r([&] { int x = 0; MC_CHECK(b.read(&x, 1) == 1 && x == 1, "read"); });
    std::thread s([&] { stop.store(true); });
    bool wrote = false;
    try {
        std::size_t const a = b.waitSpaceAvailable([&] { if (stop.load()) throw Stop(); }, MS(1));
        MC_CHECK(a == 1, "returned %zu", a);
        v = 2;
        MC_CHECK(b.write(&v, 1) == 1, "space not available");
        wrote = true;
    } catch (Stop const &) {}
    r.join(); s.join();
    MC_CHECK(b.dataAvailable() == (wrote ? 1u : 0u), "data");
}
/* With a stop test which never fires and a huge interval, a write must still
   wake the waiter before the interval is over. */
MC_SCENARIO(interval_wakeup, 7, 12, 0) {
    Buf b(1);
    std::thread w([&] { int v = 3; b.write(&v, 1); });
    std::int64_t const t0 = mc::nowNs();
    std::size_t const a = b.waitDataAvailable([] {}, std::chrono::hours(1));
    MC_CHECK(a == 1, "returned %zu", a);
    MC_CHECK(mc::nowNs() - t0 < 1000000000ll, "write did not wake the waiting reader");
    w.join();
}
MC_SCENARIO(interval_wakeup_space, 7, 12, 0) {
    Buf b(1);
    int v = 3; b.write(&v, 1);
    std::thread r([&] { int x; b.read(&x, 1); });
    std::int64_t const t0 = mc::nowNs();
    std::size_t const a = b.waitSpaceAvailable([] {}, std::chrono::hours(1));
    MC_CHECK(a == 1, "returned %zu", a);
    MC_CHECK(mc::nowNs() - t0 < 1000000000ll, "read did not wake the waiting writer");
    r.join();
}
/* Any space will do: the writer does not wait until the buffer is empty. */
namespace {
template <typename F> void partlyRead(F wait) {
    Buf b(2);
    int d[2] = {1, 2}; b.write(d, 2);
    std::thread r([&] {
        int x = 0; MC_CHECK(b.read(&x, 1) == 1 && x == 1, "read");
        mc::blockUntil([](void *) { return mc::ghostGet(1) == 1; }, nullptr, "writer continues");
        MC_CHECK(b.read(&x, 1) == 1 && x == 2, "read");
        MC_CHECK(b.waitDataAvailable() == 1 && b.read(&x, 1) == 1 && x == 3, "read");
    });
    std::size_t const a = wait(b);
    MC_CHECK(a == 1, "returned %zu", a);
    mc::ghostSet(1, 1);
    int v = 3; MC_CHECK(b.write(&v, 1) == 1, "write");
    r.join();
}
} // namespace
MC_SCENARIO(partly_read, 7, 12, 0) { partlyRead([](Buf & b) { return b.waitSpaceAvailable(); }); }
MC_SCENARIO(partly_read_stoppable, 7, 12, 0) {
    std::int64_t const t0 = mc::nowNs();
    partlyRead([](Buf & b) { return b.waitSpaceAvailable([] {}, std::chrono::hours(1)); });
    MC_CHECK(mc::nowNs() - t0 < 1000000000ll, "read did not wake the waiting writer");
}
/* A custom mutex type uses the generic condition variable. */
namespace {
struct MyMutex { std::mutex m; void lock() { m.lock(); } void unlock() { m.unlock(); } bool try_lock() { return m.try_lock(); } };
}
MC_SCENARIO(other_mutex, 6, 10, mc::SPURIOUS) {
    sharemind::CircBufferSCSP<int, sharemind::CircBufferScspLocking<MyMutex> > b(1);
    std::thread t([&] { for (int i = 0; i < 2; ++i) { b.waitSpaceAvailable(); MC_CHECK(b.write(&i, 1) == 1, "write"); } });
    for (int i = 0; i < 2; ++i) { MC_CHECK(b.waitDataAvailable() == 1, "avail"); int x = -1; MC_CHECK(b.read(&x, 1) == 1 && x == i, "read"); }
    t.join();
}
/* The stop test is asked before waiting, and only as long as there is something to wait for. */
MC_SCENARIO(stop_test_first, 4, 8, mc::SPURIOUS) {
    int const kind = mc::choose(4);
    Buf b(2);
    int d[2] = {1, 2}; int calls = 0;
    std::int64_t const t0 = mc::nowNs();
    auto stop = [&calls] { ++calls; throw Stop(); };
    bool stopped = false; std::size_t a = 9;
    if (kind == 1) b.write(d, 2); else if (kind == 2) b.write(d, 1);
    try { a = kind == 0 ? b.waitDataAvailable(stop, std::chrono::hours(1)) : kind == 1 ? b.waitSpaceAvailable(stop, std::chrono::hours(1)) : kind == 2 ? b.waitDataAvailable(stop, std::chrono::hours(1)) : b.waitSpaceAvailable(stop, std::chrono::hours(1)); }
    catch (Stop const &) { stopped = true; }
    MC_CHECK(stopped == (kind < 2), "stopped: %d", stopped);
    MC_CHECK(calls == (kind < 2), "the stop test was called %d times", calls);
    if (!stopped) MC_CHECK(a == (kind == 2 ? 1u : 2u), "returned %zu", a);
    MC_CHECK(mc::nowNs() - t0 < 1000000000ll, "waited although the stop condition held");
}
