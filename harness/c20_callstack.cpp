// C20: call stacks of several threads.
#include "mc.h"
#include <atomic>
#include <memory>
#include <thread>
#include <sharemind/CallStack.h>

namespace {
struct Tag { int v; Tag(int v_) : v(v_) {} friend bool operator==(Tag const & a, Tag const & b) { return a.v == b.v; } };
using S = sharemind::CallStack<Tag, int>;
using K = sharemind::CallStack<int>;
template <typename St> void view(int const * keys, int n) {
    auto c = St::top();
    for (int i = n - 1; i >= 0; --i, c = c->next()) MC_CHECK(c && c->key() == keys[i], "wrong context at depth %d", n - 1 - i);
    MC_CHECK(!c, "more contexts than entered");
}
template <typename St, typename F> void scope(int const * keys, int n, F inner) {
    view<St>(keys, n);
    mc::point();
    inner();
    mc::point();
    view<St>(keys, n);
}
} // namespace

MC_SCENARIO(threads_are_separate, 6, 9, 0) {
    auto run = [](int base) {
        int const k[2] = {base, base + 1};
        scope<S>(k, 0, [&] {
            S::Context a(k[0], base * 7);
            MC_CHECK(S::contains(Tag(base)) == &a && !S::contains(Tag(11 - base)), "lookup");
            scope<S>(k, 1, [&] {
                S::Context b(k[1], 3);
                scope<S>(k, 2, [] {});
                MC_CHECK(S::contains(Tag(base)) == &a && a.value() == base * 7, "lookup");
            });
        });
    };
    std::thread a([&] { run(1); }), b([&] { run(10); });
    run(5);
    a.join(); b.join();
}
MC_SCENARIO(keys_only, 6, 9, 0) {
    auto run = [](int base) {
        int const k[2] = {base, base};
        scope<K>(k, 0, [&] {
            K::Context a(k[0]);
            MC_CHECK(K::contains(base) == &a && !K::contains(3 - base), "lookup");
            scope<K>(k, 1, [&] {
                K::Context b(k[1]);
                MC_CHECK(K::contains(base) == &b && b.next() == &a, "not the innermost");
                scope<K>(k, 2, [] {});
            });
            MC_CHECK(K::contains(base) == &a, "lookup");
        });
    };
    std::thread a([&] { run(1); });
    run(2);
    a.join();
}
/* A thread started within a scope starts out empty. */
MC_SCENARIO(started_within_scope, 6, 9, 0) {
    S::Context o(7, 8);
    std::thread a([&] { MC_CHECK(!S::top() && !S::contains(Tag(7)), "sees the scope of another thread"); S::Context i(9, 9); mc::point(); MC_CHECK(S::top() == &i && !i.next(), "wrong top"); });
    MC_CHECK(S::top() == &o && !o.next() && !S::contains(Tag(9)), "wrong top");
    mc::point();
    { S::Context i(7, 10); MC_CHECK(S::contains(Tag(7)) == &i && i.next() == &o, "not the innermost"); mc::point(); }
    MC_CHECK(S::contains(Tag(7)) == &o && o.value() == 8, "lookup");
    a.join();
}
