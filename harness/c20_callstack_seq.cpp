// C20: all nestings of scopes, left normally or by exception.
#include "seq.h"
#include <new>
#include <string>
#include <vector>
#include <sharemind/CallStack.h>

namespace {
struct Leave { int levels; };
struct Thrown {};
template <bool hasValue> struct Traits;
struct Key { int v; bool operator==(Key const & o) const { return v == o.v; }
    explicit Key(int v_) : v(v_) { if (v_ >= 10) throw Thrown(); } };
struct A { /* with values */
    using S = sharemind::CallStack<Key, seq::Tracked>;
    static int val(S::Context const & c) { return c.value().v; }
    struct Ctx : S::Context { Ctx(int k, int v) : S::Context(k, v) {} };
};
struct B {
    using S = sharemind::CallStack<Key>;
    static int val(S::Context const &) { return -1; }
    struct Ctx : S::Context { Ctx(int k, int) : S::Context(k) {} };
};
struct C { /* default-constructed values, set later */
    using S = sharemind::CallStack<Key, int>;
    static int val(S::Context const & c) { return c.value(); }
    struct Ctx : S::Context { Ctx(int k, int v) : S::Context(k) { this->value() = v; } };
};
struct M { int key, val; void const * at; };
template <typename X> void check(std::vector<M> const & m) {
    auto * c = X::S::top();
    std::uint64_t h = m.size();
    for (auto i = m.rbegin(); i != m.rend(); ++i) {
        SEQ_CHECK(c, "fewer contexts than entered");
        SEQ_CHECK(c == i->at, "wrong context at depth %td", i - m.rbegin());
        SEQ_CHECK(c->key().v == i->key && X::val(*c) == i->val, "wrong contents at depth %td", i - m.rbegin());
        h = seq::mix(h, std::uint64_t(i->key));
        c = c->next();
    }
    SEQ_CHECK(!c, "more contexts than entered");
    for (int k = 0; k < 3; ++k) {
        void const * want = nullptr;
        for (auto const & e : m) if (e.key == k) want = e.at;
        SEQ_CHECK(X::S::contains(Key{k}) == want, "lookup of %d finds the wrong context", k);
    }
    seq::state(h);
}
template <typename X> void go(std::vector<M> & m, int & steps) {
    while (steps > 0) {
        --steps;
        int const op = seq::choose(m.empty() ? 5 : m.size() == 1 ? 6 : 7);
        if (op == 6) { seq::op("leave two scopes by exception"); throw Leave{2}; }
        if (op == 5) { seq::op("leave scope"); if (seq::flip()) throw Leave{1}; return; }
        if (op == 4) {
            seq::op("entering a scope throws");
            try { typename X::Ctx c(10, 0); SEQ_CHECK(false, "not thrown"); } catch (Thrown const &) {}
        } else if (op == 3) {
            seq::op("copyless access to the top");
            if (!m.empty()) { SEQ_CHECK(X::S::top()->key() == Key{m.back().key}, "top"); }
        } else {
            seq::op("enter scope %d", op);
            try {
                typename X::Ctx c(op, steps + 100);
                typename X::S::Context const & cc = c;
                SEQ_CHECK(cc.next() == (m.empty() ? nullptr : m.back().at), "wrong next");
                m.push_back(M{op, X::val(c), static_cast<typename X::S::Context *>(&c)});
                check<X>(m);
                go<X>(m, steps);
                check<X>(m);
                m.pop_back();
            } catch (Leave & l) {
                m.pop_back();
                check<X>(m);
                if (--l.levels > 0) throw;
            }
        }
        check<X>(m);
    }
}
template <typename X> void run() {
    std::vector<M> m;
    int steps = seq::depth();
    go<X>(m, steps);
    check<X>(m);
    SEQ_CHECK(m.empty() && !X::S::top(), "not empty after leaving all scopes");
}
} // namespace
SEQ_TEST(with_values, 7, 9) { run<A>(); }
SEQ_TEST(keys_only, 7, 9) { run<B>(); }
SEQ_TEST(values_set_later, 7, 9) { run<C>(); }
/* Hundreds of scopes deep. */
namespace { template <typename X> void deep(int n, int repeat, std::vector<M> & m, int leaveAt) { if (!n) { if (leaveAt) throw Leave{leaveAt}; return; } try { typename X::Ctx c(n % repeat % 10, n); m.push_back(M{n % repeat % 10, X::val(c), static_cast<typename X::S::Context *>(&c)}); if (n % 50 == 1) check<X>(m); deep<X>(n - 1, repeat, m, leaveAt); if (n % 50 == 0) check<X>(m); m.pop_back(); } catch (Leave & l) { m.pop_back(); if (n % 50 == 0) check<X>(m); if (--l.levels > 0) throw; } } }
SEQ_TEST(deep, 0, 0) { static int const ns[] = {17, 64, 128, 257, 700}; int const n = ns[seq::choose(5)], repeat = 1 + seq::choose(3) * 4, leave = seq::choose(3) * n / 3; std::vector<M> m; switch (seq::choose(3)) { case 0: deep<A>(n, repeat, m, leave); check<A>(m); break; case 1: deep<B>(n, repeat, m, leave); check<B>(m); break; case 2: deep<C>(n, repeat, m, leave); check<C>(m); break; } SEQ_CHECK(m.empty(), "model"); }
