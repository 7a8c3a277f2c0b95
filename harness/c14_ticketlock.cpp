// C14: TicketSpinLock under every interleaving and on weak memory.
#include "mc.h"
#include <atomic>
#include <cstring>
#include <mutex>
#include <new>
#include <thread>
#include <condition_variable>
#include <sharemind/TicketSpinLock.h>

namespace {
using L = sharemind::TicketSpinLock;
/* ghost 0: holders; 10+t: position of thread t in lock() (points + 1), 0 if not
   waiting; 30+t: threads which arrived before t, as a mask */
void lock(L & l) {
    int const me = mc::self();
    long before = 0;
    for (int t = 0; t < 8; ++t)
        if (t != me && mc::ghostGet(10 + t) && mc::points(t) - (mc::ghostGet(10 + t) - 1) >= 2) before |= 1 << t;
    mc::outcome(before);
    mc::ghostSet(30 + me, before);
    mc::ghostSet(10 + me, mc::points(me) + 1);
    l.lock();
    mc::ghostSet(10 + me, 0);
    before = mc::ghostGet(30 + me);
    MC_CHECK(!before, "thread %d overtook those in the mask %lx, which had arrived before it", me, before);
    for (int t = 0; t < 8; ++t) mc::ghostSet(30 + t, mc::ghostGet(30 + t) & ~(1l << me));
    MC_CHECK(mc::ghostAdd(0, 1) == 1, "two threads hold the lock");
}
void unlock(L & l) { mc::ghostAdd(0, -1); l.unlock(); }
} // namespace

MC_SCENARIO(two_threads, 4, 7, mc::WEAK) {
    L l; int v = 0;
    auto body = [&] { for (int i = 0; i < 2; ++i) { lock(l); ++v; unlock(l); } };
    std::thread a(body);
    body();
    a.join();
    MC_CHECK(v == 4, "%d", v);
}
MC_SCENARIO(three_threads, 4, 6, 0) {
    L l; int v = 0;
    auto body = [&] { lock(l); ++v; unlock(l); };
    std::thread a(body), b(body);
    body(); body();
    a.join(); b.join();
    MC_CHECK(v == 4, "%d", v);
}
MC_SCENARIO(three_threads_weak, 3, 5, mc::WEAK) {
    L l; int v = 0;
    auto body = [&] { lock(l); ++v; unlock(l); };
    std::thread a(body), b(body);
    body();
    a.join(); b.join();
    MC_CHECK(v == 3, "%d", v);
}
/* Waiting threads get the lock in the order of their arrival. */
MC_SCENARIO(arrival_order, 3, 7, 0) {
    L l;
    lock(l);
    auto body = [&] { lock(l); unlock(l); };
    std::thread a(body), b(body), c(body);
    mc::point(); mc::point();
    unlock(l);
    lock(l); unlock(l);
    a.join(); b.join(); c.join();
}
/* The lock lies at an address which the previous one has used; and as a
   Lockable of the standard library. */
MC_SCENARIO(as_lockable, 4, 7, mc::SPURIOUS) {
    L l; std::condition_variable_any c; bool ready = false;
    std::thread a([&] { std::lock_guard<L> g(l); ready = true; c.notify_one(); });
    { std::unique_lock<L> g(l); while (!ready) c.wait(g); }
    a.join();
}
/* Around the wrap of the counters. The harness does not know the members: it
   only goes on if the representation of a fresh lock and that of a lock used
   once show two counters in step. */
namespace {
bool nearWrap(L & l) {
    mc::Quiet q;
    unsigned char a[sizeof(L)], b[sizeof(L)];
    void * const mem = &l;
    std::memcpy(a, mem, sizeof a);
    l.lock(); l.unlock();
    std::memcpy(b, mem, sizeof b);
    int n = 0; std::size_t at[2];
    for (std::size_t i = 0; i + 8 <= sizeof(L); i += 8) {
        unsigned long x, y; std::memcpy(&x, a + i, 8); std::memcpy(&y, b + i, 8);
        if (x == y) continue;
        if (x != 0 || y != 1 || n == 2) return false;
        at[n++] = i;
    }
    if (n != 2) return false;
    for (int k = 0; k < 2; ++k) { auto * p = reinterpret_cast<std::atomic<unsigned long> *>(static_cast<char *>(mem) + at[k]); p->store(~0ul - 1); }
    return true;
}
}
MC_SCENARIO(counter_wraps, 4, 7, 0) {
    L l; int v = 0;
    if (!nearWrap(l)) { mc::note("unknown representation"); return; }
    auto body = [&] { for (int i = 0; i < 2; ++i) { lock(l); ++v; unlock(l); } };
    std::thread a(body);
    body();
    a.join();
    MC_CHECK(v == 4, "%d", v);
}
