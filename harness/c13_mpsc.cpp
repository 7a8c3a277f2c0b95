// C13: MpscWaitFreeSemiIntrusiveQueue under every interleaving and on weak memory.
#include "mc.h"
#include <atomic>
#include <memory>
#include <new>
#include <thread>
#include <utility>
#include <sharemind/MpscWaitFreeSemiIntrusiveQueue.h>

namespace {
struct Item {
    int * p = nullptr; int v = -1;
    Item() {}
    Item(int v_) : v(v_) {}
    Item(int v_, int * p_) : p(p_), v(v_) {}
    Item(Item && o) noexcept : p(o.p), v(o.v) { o.v = -1; }
    Item & operator=(Item && o) noexcept { p = o.p; v = o.v; o.v = -1; return *this; }
};
using Q = sharemind::MpscWaitFreeSemiIntrusiveQueue<Item>;
using Node = Q::Node;
std::unique_ptr<Node> node(int v) { return std::unique_ptr<Node>(new Node(v)); }
/* ghost 0: pushes begun; 1: pushes completed; 2: elements popped; 10+v: popped */
void push(Q & q, int v) {
    auto n = node(v);
    mc::ghostSet(0, mc::ghostGet(0) + 1);
    q.push(std::move(n));
    mc::ghostSet(1, mc::ghostGet(1) + 1);
}
/* On weak memory a consumer only knows of the pushes it synchronized with,
   emptiness is thus judged in the sequentially consistent scenarios and, with
   a completion flag, in completed_push_is_seen. */
template <bool sc = false> int pop(Q & q) {
    long const c0 = mc::ghostGet(1), popped = mc::ghostGet(2);
    auto n = q.pop();
    if (!n) {
        /* May only be empty when no push had completed, or another is in
           progress. */
        MC_CHECK(!sc || c0 <= popped || mc::ghostGet(0) > c0, "pop reports an empty queue, %ld pushed and %ld popped", c0, popped);
        return -1;
    }
    MC_CHECK(!n->next.load(std::memory_order_relaxed), "a popped node is still linked");
    int const v = n->data.v;
    MC_CHECK(v >= 0 && v < 20, "popped garbage (%d)", v);
    MC_CHECK(mc::ghostGet(10 + v) == 0, "element %d popped twice", v);
    mc::ghostSet(10 + v, 1); mc::ghostSet(2, popped + 1);
    if (n->data.p) { MC_CHECK(*n->data.p == v + 100, "payload not visible"); }
    return v;
}
template <bool sc = false, typename F> void drain(Q & q, int n, F f) { for (int i = 0; i < n;) { int const v = pop<sc>(q); if (v >= 0) { f(v); ++i; } } MC_CHECK(!q.pop() && q.empty(), "more popped than pushed"); }
struct Order { int last[3] = {-1, -1, -1}; void operator()(int v) { int const p = v / 5; MC_CHECK(v > last[p], "elements of one producer come out of order"); last[p] = v; } };
} // namespace

MC_SCENARIO(one_producer, 4, 7, mc::WEAK) {
    Q q;
    MC_CHECK(q.empty() && !q.pop(), "not empty");
    std::thread a([&] { push(q, 0); push(q, 1); push(q, 2); });
    drain(q, 3, Order());
    a.join();
}
MC_SCENARIO(two_producers, 4, 7, mc::WEAK) {
    Q q;
    std::thread a([&] { push(q, 0); push(q, 1); }), b([&] { push(q, 5); push(q, 6); });
    drain(q, 4, Order());
    a.join(); b.join();
}
MC_SCENARIO(two_producers_sc, 5, 9, 0) {
    Q q;
    std::thread a([&] { push(q, 0); push(q, 1); }), b([&] { push(q, 5); push(q, 6); });
    drain<true>(q, 4, Order());
    a.join(); b.join();
}
MC_SCENARIO(three_producers, 3, 6, 0) {
    Q q;
    std::thread a([&] { push(q, 0); push(q, 1); }), b([&] { push(q, 5); }), c([&] { push(q, 10); });
    drain<true>(q, 4, Order());
    a.join(); b.join(); c.join();
}
MC_SCENARIO(three_producers_weak, 3, 6, mc::WEAK) {
    Q q;
    std::thread a([&] { push(q, 0); }), b([&] { push(q, 5); }), c([&] { push(q, 10); });
    drain(q, 3, Order());
    a.join(); b.join(); c.join();
}
/* What was written before the push is visible after the pop. */
MC_SCENARIO(visibility, 3, 5, mc::WEAK) {
    Q q;
    int x = 0, y = 0;
    std::thread a([&] { x = 100; q.push(std::unique_ptr<Node>(new Node(0, &x))); }), b([&] { y = 105; q.push(std::unique_ptr<Node>(new Node(5, &y))); });
    mc::ghostSet(0, 99);
    for (int i = 0; i < 2;) if (pop(q) >= 0) ++i;
    a.join(); b.join();
}
/* Popped nodes are pushed again, also by another thread. */
MC_SCENARIO(recycled_nodes, 3, 6, mc::WEAK) {
    Q q;
    mc::ghostSet(0, 99);
    std::thread a([&] { q.push(node(0)); });
    std::unique_ptr<Node> n;
    while (!(n = q.pop()));
    MC_CHECK(n->data.v == 0, "value %d", n->data.v);
    n->data = Item(1);
    q.push(std::move(n));
    while (!(n = q.pop()));
    MC_CHECK(n->data.v == 1, "value %d", n->data.v);
    n->data = Item(2);
    std::thread b([&q, n = std::move(n)]() mutable { q.push(std::move(n)); });
    while (!(n = q.pop()));
    MC_CHECK(n->data.v == 2, "value %d", n->data.v);
    a.join(); b.join();
    MC_CHECK(q.empty(), "not empty");
}
/* empty() never claims emptiness while a completed push is pending. */
MC_SCENARIO(emptiness, 4, 7, 0) {
    Q q;
    std::thread a([&] { push(q, 0); });
    std::thread b([&] { push(q, 5); });
    long const c = mc::ghostGet(1);
    bool const e = q.empty();
    MC_CHECK(!e || c == 0 || mc::ghostGet(0) > c, "empty although an element is pending");
    if (!e) MC_CHECK(bool(q.pop()), "not empty, but nothing to pop");
    a.join(); b.join();
    MC_CHECK(!q.empty() || !e, "empty after all");
}
/* A stalled producer holds up no other producer. */
MC_SCENARIO(producers_never_wait, 4, 7, 0) {
    Q q;
    std::thread a([&] { q.push(node(0)); }), b([&] { int const p = mc::points(mc::self()); q.push(node(5)); MC_CHECK(mc::points(mc::self()) - p <= 4, "push retries"); });
    q.push(node(10));
    a.join(); b.join();
}
/* Destruction releases what is left. */
MC_SCENARIO(destroyed_full, 4, 7, mc::WEAK) {
    auto * q = new Q;
    std::thread a([&] { q->push(node(0)); }), b([&] { q->push(node(5)); q->push(node(6)); });
    q->pop();
    a.join(); b.join();
    delete q;
}

MC_SCENARIO(completed_push_is_seen, 4, 7, mc::WEAK) {
    Q q;
    std::atomic<int> done{0};
    std::thread a([&] { q.push(node(0)); done.fetch_add(1, std::memory_order_acq_rel); });
    std::thread b([&] { q.push(node(5)); done.fetch_add(1, std::memory_order_acq_rel); });
    if (done.load(std::memory_order_acquire) == 2) {
        MC_CHECK(!q.empty(), "empty although two pushes completed");
        MC_CHECK(q.pop() && q.pop(), "two pushes completed, but fewer elements found");
        MC_CHECK(!q.pop() && q.empty(), "not empty");
    }
    a.join(); b.join();
}
/* Many elements. ghost 3: set of those popped. */
namespace { void pushMany(Q & q, int from, int n) { for (int i = 0; i < n; ++i) q.push(node(from + i)); } int popAny(Q & q) { auto n = q.pop(); if (!n) return -1; MC_CHECK(!n->next.load(std::memory_order_relaxed), "a popped node is still linked"); int const v = n->data.v; MC_CHECK(v >= 0 && v < 60 && !(mc::ghostGet(3) >> v & 1), "element %d popped twice", v); mc::ghostSet(3, mc::ghostGet(3) | 1l << v); return v; } }
MC_SCENARIO(many_elements, 1, 2, 0) { Q q; std::thread a([&] { pushMany(q, 0, 40); }); for (int i = 0; i < 40;) { int const v = popAny(q); if (v < 0) continue; MC_CHECK(v == i, "element %d popped at %d", v, i); ++i; } a.join(); MC_CHECK(q.empty() && !q.pop(), "more popped than pushed"); }
MC_SCENARIO(many_elements_of_two, 1, 2, 0) { Q q; std::thread a([&] { pushMany(q, 0, 15); }), b([&] { pushMany(q, 15, 15); }); a.join(); b.join(); int next[2] = {0, 15}; for (int i = 0; i < 30; ++i) { int const v = popAny(q); MC_CHECK(v >= 0, "empty after %d of 30", i); MC_CHECK(v == next[v >= 15], "elements of one producer come out of order"); ++next[v >= 15]; MC_CHECK(q.empty() == (i == 29), "emptiness"); } MC_CHECK(!q.pop(), "more popped than pushed"); }
MC_SCENARIO(many_rounds, 0, 0, 0) { Q q; for (int r = 0; r < 40; ++r) { for (int i = 0; i <= r % 5; ++i) { mc::ghostSet(3, 0); q.push(node(i)); } for (int i = 0; i <= r % 5; ++i) { auto n = q.pop(); MC_CHECK(n && n->data.v == i, "round %d", r); } MC_CHECK(q.empty() && !q.pop(), "more popped than pushed"); } }
