// C25: every history of three optionals next to a reference model, with every contained operation throwing or not.
#include "seq.h"
#include <initializer_list>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <sharemind/Optional.h>

namespace {
using namespace sharemind;
struct Oops {};
bool armed; int throwsLeft;
void mayThrow() { if (armed && throwsLeft > 0 && seq::flip()) { --throwsLeft; seq::op("  [throws]"); throw Oops(); } }
struct Y { seq::Tracked t; Y(int v) : t(v) {} };
struct X {
    seq::Tracked t;
    X(int v) : t((mayThrow(), v)) {}
    X(std::initializer_list<int> l, int x) : t((mayThrow(), int(l.size()) * 1000 + x)) {}
    X(X const & o) : t((mayThrow(), o.t)) {}
    X(X && o) : t((mayThrow(), std::move(o.t))) {}
    X(Y const & y) : t((mayThrow(), y.t)) {}
    X(Y && y) : t((mayThrow(), std::move(y.t))) {}
    X & operator=(X const & o) { mayThrow(); t = o.t; return *this; }
    X & operator=(X && o) { mayThrow(); t = std::move(o.t); return *this; }
    X & operator=(Y const & o) { mayThrow(); t = o.t; return *this; }
    X & operator=(Y && o) { mayThrow(); t = std::move(o.t); return *this; }
    friend bool operator==(X const & a, X const & b) { return a.t == b.t; }
    friend bool operator!=(X const & a, X const & b) { return a.t != b.t; }
    friend bool operator<(X const & a, X const & b) { return a.t < b.t; }
    friend bool operator>(X const & a, X const & b) { return b.t < a.t; }
    friend bool operator<=(X const & a, X const & b) { return !(b.t < a.t); }
    friend bool operator>=(X const & a, X const & b) { return !(a.t < b.t); }
};
struct R { bool has; int v; };
bool lt(R a, R b) { return b.has && (!a.has || a.v < b.v); }
bool same(R a, R b) { return a.has == b.has && (!a.has || a.v == b.v); }
template <typename O> void is(O const & o, R r, char const * n) {
    SEQ_CHECK(o.hasValue() == r.has && bool(o) == r.has, "%s %s a value", n, r.has ? "lacks" : "has");
    if (r.has) SEQ_CHECK((*o).t.v == r.v && o->t.v == r.v, "%s holds %d instead of %d", n, o->t.v, r.v);
}
R got(Optional<X> const & o) { return {o.hasValue(), o.hasValue() ? o->t.v : 0}; }
template <typename A, typename B> void compare(A const & a, B const & b, R ra, R rb, char const * n) {
    bool const e = same(ra, rb), l = lt(ra, rb), g = lt(rb, ra);
    SEQ_CHECK((a == b) == e && (a != b) == !e && (a < b) == l && (a <= b) == (l || e) && (a > b) == g && (a >= b) == (g || e), "comparison %s of %s%d and %s%d", n, ra.has ? "" : "no value, not ", ra.v, rb.has ? "" : "no value, not ", rb.v);
}
void run(int maxThrows) {
    armed = false;
    {
    Optional<X> o[2]; Optional<Y> c; R r[2] = {{false, 0}, {false, 0}}, rc{false, 0};
    for (int s = 0; s < seq::depth(); ++s) {
        int const op = seq::choose(20); int const i = op < 15 ? seq::choose(2) : 0; int const j = 1 - i; int const v = 10 + s;
        Optional<X> & a = o[i]; Optional<X> & b = o[j];
        R const before[2] = {r[0], r[1]}; R const beforeC = rc;
        X const lv(v); X mv(v + 1);
        bool adopt = false; // only the basic guarantee
        seq::op("op %d on %d", op, i);
        armed = true; throwsLeft = maxThrows;
        try {
            switch (op) {
            case 0: a = nullOption; r[i].has = false; break;
            case 1: a.reset(); r[i].has = false; break;
            case 2: SEQ_CHECK(&(a = b) == &a, "="); r[i] = r[j]; break;
            case 3: r[i] = r[j]; if (r[j].has) r[j].v = -1; { bool const had = before[i].has; (void) had; } try { a = std::move(b); } catch (...) { r[0] = before[0]; r[1] = before[1]; throw; } break;
            case 4: { auto & self = a; a = self; break; }
            case 5: r[i] = {true, v}; a = lv; break;
            case 6: r[i] = {true, v + 1}; a = std::move(mv); break;
            case 7: { r[i] = {false, 0}; X & x = a.emplace(v + 2); r[i] = {true, v + 2}; SEQ_CHECK(&x == &*a, "emplace"); break; }
            case 8: { r[i] = {false, 0}; X & x = a.emplace({1, 2, 3}, v); r[i] = {true, 3000 + v}; SEQ_CHECK(&x == &*a, "emplace"); break; }
            case 9: adopt = before[0].has && before[1].has; a.swap(b); std::swap(r[0], r[1]); break;
            case 10: { adopt = before[0].has && before[1].has; using std::swap; swap(a, b); std::swap(r[0], r[1]); break; }
            case 11: a = c; r[i] = rc; break;
            case 12: a = std::move(c); r[i] = rc; if (rc.has) rc.v = -1; break;
            case 13: { Optional<X> t(b); is(t, r[j], "a copy"); t = nullOption; Optional<X> u(std::move(b)); is(u, r[j], "a moved optional"); if (r[j].has) r[j].v = -1; break; }
            case 14: { Optional<X> const & ca = a; X w = ca.valueOr(v + 3); SEQ_CHECK(w.t.v == (r[i].has ? r[i].v : v + 3), "valueOr gives %d", w.t.v); X u = ca.valueOrConstruct(v + 4); SEQ_CHECK(u.t.v == (r[i].has ? r[i].v : v + 4), "valueOrConstruct gives %d", u.t.v); break; }
            case 15: { Optional<X> t(c); is(t, rc, "a converted copy"); t = nullOption; if (rc.has) { Optional<Y> d(c); Optional<X> w(std::move(d)); is(w, rc, "a converted optional"); is(d, {true, -1}, "the moved from optional"); } else { Optional<X> w{Optional<Y>()}; is(w, rc, "a converted empty optional"); } break; }
            case 16: armed = false; if (rc.has && seq::flip()) { c = nullOption; rc.has = false; } else { c = Y(v); rc = {true, v}; } break;
            case 17: { bool const h = r[0].has; X w = std::move(o[0]).valueOr(v + 3); SEQ_CHECK(w.t.v == (h ? r[0].v : v + 3), "valueOr gives %d", w.t.v); if (h) r[0].v = -1; break; }
            case 18: { bool const h = r[0].has; X w = std::move(o[0]).valueOrConstruct(v + 3); SEQ_CHECK(w.t.v == (h ? r[0].v : v + 3), "valueOrConstruct gives %d", w.t.v); if (h) r[0].v = -1; break; }
            case 19: { auto t = makeOptional(lv); is(t, {true, v}, "makeOptional(value)"); auto u = makeOptional<X>(v + 1); is(u, {true, v + 1}, "makeOptional(arguments)"); auto w = makeOptional<X>({1, 2}, v); is(w, {true, 2000 + v}, "makeOptional(list)");
                Optional<X> x(lv); is(x, {true, v}, "value constructed"); Optional<X> y(inPlace, v); is(y, {true, v}, "in place constructed"); Optional<X> z = nullOption; is(z, {false, 0}, "an empty optional"); break; }
            }
        } catch (Oops const &) {
            armed = false; seq::op("  failed");
            switch (op) {
            case 7: case 8: break; // now empty
            case 13: // the copies may already be done, but moving has no effect on failure
            default: r[0] = before[0]; r[1] = before[1]; rc = beforeC; break;
            case 17: case 18: break; // moving out of it may have worked
            }
            if (op == 14 || op == 19) {}
            if (adopt) { r[0] = got(o[0]); r[1] = got(o[1]); SEQ_CHECK(r[0].has && r[1].has, "a failed swap loses a value"); }
            if (op == 17 || op == 18) { R g = got(o[0]); SEQ_CHECK(g.has == before[0].has && (!g.has || g.v == before[0].v || g.v == -1), "failed valueOr"); r[0] = g; }
            if (op == 13) { R g = got(b); SEQ_CHECK(g.has == before[j].has, "failed move"); r[j] = g; }
        }
        armed = false;
        is(o[0], r[0], "the first optional"); is(o[1], r[1], "the second optional"); is(c, rc, "the other optional");
        compare(o[0], o[1], r[0], r[1], "of optionals");
        compare(o[0], lv, r[0], R{true, v}, "with a value"); compare(lv, o[1], R{true, v}, r[1], "of a value");
        compare(o[0], nullOption, r[0], R{false, 0}, "with nothing"); compare(nullOption, o[1], R{false, 0}, r[1], "of nothing");
        SEQ_CHECK(seq::Tracked::live == r[0].has + r[1].has + rc.has + 2, "%ld objects are alive", seq::Tracked::live - 2);
        seq::state(r[0].has + 2 * r[1].has + 4 * rc.has + 8 * (r[0].v == -1) + 16 * (r[1].v == -1) + 32 * (rc.v == -1) + 64 * same(r[0], r[1]));
    }
    }
    SEQ_CHECK(seq::Tracked::live == 0, "%ld objects survive", seq::Tracked::live);
}
template <typename T> void scalars(T x, T y) {
    auto const is = [](Optional<T> const & o, bool has, T v, char const * n) { SEQ_CHECK(o.hasValue() == has && (!has || *o == v), "%s %s a value", n, has ? "lacks the right" : "has"); };
    { Optional<T> o; is(o, false, x, "default"); } { Optional<T> o(nullOption); is(o, false, x, "null"); }
    { Optional<T> o(x); is(o, true, x, "Optional(value)"); Optional<T> p(o), q(std::move(p)); is(q, true, x, "copies"); p = nullOption; is(p, false, x, "p"); p = q; is(p, true, x, "p"); p = y; is(p, true, y, "p"); q.swap(p); is(p, true, x, "p"); is(q, true, y, "q"); p.reset(); p.swap(q); is(q, false, y, "q"); is(p, true, y, "p"); }
    { Optional<T> o{x}; is(o, true, x, "Optional{value}"); } { Optional<T> o = x; is(o, true, x, "= value"); } { Optional<T> o(inPlace, x); is(o, true, x, "in place"); } { Optional<T> const o(static_cast<T const &>(x)); is(o, true, x, "Optional(const value)"); }
    { Optional<long> o(Optional<T>{x}); SEQ_CHECK(o.hasValue() && *o == long(x), "converted"); Optional<T> e; Optional<long> p(e); SEQ_CHECK(!p, "converted from nothing"); o = e; SEQ_CHECK(!o, "assigned nothing"); e = x; o = e; SEQ_CHECK(o && *o == long(x), "assigned"); }
    for (int k = 0; k < 4; ++k) { Optional<T> a, b; if (k & 1) a = x; if (k & 2) b = y; R ra{bool(k & 1), int(x)}, rb{bool(k & 2), int(y)};
        compare(a, b, ra, rb, "of optionals"); compare(a, y, ra, R{true, int(y)}, "with value"); compare(x, b, R{true, int(x)}, rb, "of value"); compare(a, nullOption, ra, R{false, 0}, "with nothing"); compare(nullOption, b, R{false, 0}, rb, "of nothing");
        SEQ_CHECK(a.valueOr(y) == (k & 1 ? x : y), "valueOr"); }
    seq::count(30);
}
struct AdlSwap { // swappable without failing, although assignment may fail
    int v; explicit AdlSwap(int v_) : v(v_) {} AdlSwap(AdlSwap && o) noexcept : v(o.v) {} AdlSwap & operator=(AdlSwap &&) { throw Oops(); }
    friend void swap(AdlSwap & a, AdlSwap & b) noexcept { std::swap(a.v, b.v); }
};
} // namespace
/* Types of which exactly some operations may fail: the exception always arrives and nothing is lost. */
namespace {
int failAt = -1, ops; /* the failAt-th operation which may fail does so */
template <bool MAY> void op() noexcept(!MAY) { if (MAY && ops++ == failAt) throw Oops(); }
template <int M> struct F {
    seq::Tracked t;
    explicit F(int v) noexcept(!(M & 16)) : t((op<(M & 16) != 0>(), v)) {}
    F(F const & o) noexcept(!(M & 1)) : t((op<(M & 1) != 0>(), o.t)) {}
    F(F && o) noexcept(!(M & 2)) : t((op<(M & 2) != 0>(), std::move(o.t))) {}
    F & operator=(F const & o) noexcept(!(M & 4)) { op<(M & 4) != 0>(); t = o.t; return *this; }
    F & operator=(F && o) noexcept(!(M & 8)) { op<(M & 8) != 0>(); t = std::move(o.t); return *this; }
    friend bool operator==(F const & a, F const & b) noexcept(!(M & 16)) { op<(M & 16) != 0>(); return a.t == b.t; }
    friend bool operator!=(F const & a, F const & b) noexcept(!(M & 16)) { op<(M & 16) != 0>(); return a.t != b.t; }
    friend bool operator<(F const & a, F const & b) noexcept(!(M & 16)) { op<(M & 16) != 0>(); return a.t < b.t; }
    friend bool operator<=(F const & a, F const & b) noexcept(!(M & 16)) { op<(M & 16) != 0>(); return !(b.t < a.t); }
    friend bool operator>(F const & a, F const & b) noexcept(!(M & 16)) { op<(M & 16) != 0>(); return b.t < a.t; }
    friend bool operator>=(F const & a, F const & b) noexcept(!(M & 16)) { op<(M & 16) != 0>(); return !(a.t < b.t); }
};
struct Src { int v; };
template <int M> struct G { /* made and assigned from another type */
    seq::Tracked t;
    G(Src const & s) noexcept(!(M & 1)) : t((op<(M & 1) != 0>(), s.v)) {}
    G(Src && s) noexcept(!(M & 2)) : t((op<(M & 2) != 0>(), s.v)) {}
    G(G const &) noexcept = default;
    G(G &&) noexcept = default;
    G & operator=(G const &) noexcept = default;
    G & operator=(G &&) noexcept = default;
    G & operator=(Src const & s) noexcept(!(M & 4)) { op<(M & 4) != 0>(); t = seq::Tracked(s.v); return *this; }
    G & operator=(Src && s) noexcept(!(M & 8)) { op<(M & 8) != 0>(); t = seq::Tracked(s.v); return *this; }
};
template <int M> void failing() {
    using O = Optional<F<M>>; using T = F<M>;
    failAt = -1; ops = 0;
    bool const x = seq::flip(), y = seq::flip(); int const what = seq::choose(20), at = seq::choose(3) - 1;
    { O a, b; if (x) a.emplace(1); if (y) b.emplace(2); T v(5); bool ok = true; long const live = seq::Tracked::live;
    failAt = at; ops = 0;
    try { switch (what) {
        case 0: { O t(b); SEQ_CHECK(bool(t) == y, "copy"); break; }
        case 1: { O t(std::move(b)); SEQ_CHECK(bool(t) == y, "move"); break; }
        case 2: a = b; break;
        case 3: a = std::move(b); break;
        case 4: a = v; break;
        case 5: a = std::move(v); break;
        case 6: a.swap(b); break;
        case 7: { using std::swap; swap(a, b); break; }
        case 8: { T t(static_cast<O const &>(a).valueOr(v)); break; }
        case 9: { T t(std::move(a).valueOr(v)); break; }
        case 10: { T t(std::move(a).valueOr(std::move(v))); break; }
        case 11: { T t(static_cast<O const &>(a).valueOrConstruct(9)); break; }
        case 12: { T t(std::move(a).valueOrConstruct(9)); break; }
        case 13: a.emplace(7); break;
        case 14: a.emplace(v); break;
        case 15: { O t(inPlace, std::move(v)); break; }
        case 16: { O t(v); break; }
        case 17: { (void) (a == b); (void) (a != b); (void) (a < b); break; }
        case 18: { (void) (a == v); (void) (v == a); (void) (a <= v); break; }
        case 19: { auto t(makeOptional(v)); break; }
    } } catch (Oops const &) { ok = false; }
    failAt = -1;
    if (ok && (what == 2 || what == 3)) SEQ_CHECK(bool(a) == y && (!y || a->t == seq::Tracked(2)), "assigned");
    if (ok && (what == 6 || what == 7)) SEQ_CHECK(bool(a) == y && bool(b) == x && (!y || a->t == seq::Tracked(2)) && (!x || b->t == seq::Tracked(1)), "swapped");
    if (!ok) SEQ_CHECK(at >= 0 && at < ops, "an exception from nowhere");
    else SEQ_CHECK(at < 0 || at >= ops, "an exception got lost");
    (void) live;
    }
    SEQ_CHECK(!seq::Tracked::live, "%ld values leak", seq::Tracked::live);
}
template <int M> void failingSources() {
    using O = Optional<G<M>>; failAt = -1; ops = 0;
    bool const x = seq::flip(), y = seq::flip(); int const what = seq::choose(6), at = seq::choose(2) - 1;
    { O a; if (x) a.emplace(Src{1}); Optional<Src> b; if (y) b.emplace(Src{2}); bool ok = true;
    failAt = at; ops = 0;
    try { switch (what) {
        case 0: { O t(b); SEQ_CHECK(bool(t) == y && (!y || t->t == seq::Tracked(2)), "copy"); break; }
        case 1: { O t(std::move(b)); SEQ_CHECK(bool(t) == y && (!y || t->t == seq::Tracked(2)), "move"); break; }
        case 2: a = b; break;
        case 3: a = std::move(b); break;
        case 4: { Src const s{2}; a = s; break; }
        case 5: a = Src{2}; break;
    } } catch (Oops const &) { ok = false; }
    failAt = -1;
    if (ok && what >= 2) SEQ_CHECK(bool(a) == (what > 3 || y) && (!a || a->t == seq::Tracked(2)), "assigned");
    if (!ok && what >= 2) SEQ_CHECK(bool(a) == x && (!x || a->t == seq::Tracked(1)), "changed by a failed assignment");
    if (!ok) SEQ_CHECK(at >= 0 && at < ops, "an exception from nowhere"); else SEQ_CHECK(at < 0 || at >= ops, "an exception got lost");
    }
    SEQ_CHECK(!seq::Tracked::live, "%ld values leak", seq::Tracked::live);
}
template <int M> struct Fails { static void run(int m) { if (m == M) failing<M>(); else Fails<M - 1>::run(m); } static void sources(int m) { if (m == M) failingSources<M>(); else Fails<M - 1>::sources(m); } };
template <> struct Fails<-1> { static void run(int) {} static void sources(int) {} };
/* Values which can be made of optionals themselves. K: of which kind of reference. */
template <int K> struct Ref; 
template <> struct Ref<0> { template <typename T> using type = T &; }; template <> struct Ref<1> { template <typename T> using type = T &&; };
template <> struct Ref<2> { template <typename T> using type = T const &; }; template <> struct Ref<3> { template <typename T> using type = T const &&; };
template <int K> struct OfOptional {
    int v; int how;
    OfOptional(int x) : v(x), how(0) {}
    OfOptional(typename Ref<K>::template type<Optional<int>> o) : v(o ? *o : -1), how(1) {}
};
template <int K> struct ExplicitlyOfOptional {
    int v; int how;
    ExplicitlyOfOptional(int x) : v(x), how(0) {}
    explicit ExplicitlyOfOptional(typename Ref<K>::template type<Optional<int>> o) : v(o ? *o : -1), how(1) {}
};
template <int K> struct AssignedOptional { /* only assignable from optionals */
    int v; int how;
    AssignedOptional(int x) : v(x), how(0) {}
    AssignedOptional & operator=(int x) { v = x; how = 0; return *this; }
    AssignedOptional & operator=(typename Ref<K>::template type<Optional<int>>) { how = 1; return *this; }
};
template <typename T, typename R> void sourceTraits(char const * n, bool ofOptional) {
    SEQ_CHECK((std::is_constructible<Optional<T>, R>::value) == (std::is_constructible<T, R>::value || !ofOptional), "%s: constructible %d", n, int(std::is_constructible<Optional<T>, R>::value));
    SEQ_CHECK((std::is_convertible<R, Optional<T>>::value) == (ofOptional ? std::is_convertible<R, T>::value : true), "%s: convertible %d", n, int(std::is_convertible<R, Optional<T>>::value));
}
template <int K> void ofOptionals() {
    using O = Optional<int>; using T = OfOptional<K>; using E = ExplicitlyOfOptional<K>;
    sourceTraits<T, O &>("lvalue", true); sourceTraits<T, O &&>("rvalue", true); sourceTraits<T, O const &>("constant", true); sourceTraits<T, O const &&>("constant rvalue", true);
    sourceTraits<E, O &>("lvalue", true); sourceTraits<E, O &&>("rvalue", true); sourceTraits<E, O const &>("constant", true); sourceTraits<E, O const &&>("constant rvalue", true);
    O o; if (seq::flip()) o = 4;
    using R = typename Ref<K>::template type<O>;
    Optional<T> t(static_cast<R>(o)); SEQ_CHECK(t && t->how == 1 && t->v == (o ? 4 : -1), "a value which can be made of an optional is not made of it");
    Optional<E> e(static_cast<R>(o)); SEQ_CHECK(e && e->how == 1 && e->v == (o ? 4 : -1), "a value which can be made of an optional is not made of it");
    Optional<T> u; u = T(static_cast<R>(o)); SEQ_CHECK(u && u->how == 1, "assigned");
    using A = AssignedOptional<K>;
    SEQ_CHECK((!std::is_constructible<A, O const &>::value && std::is_constructible<Optional<A>, O const &>::value), "constructible from the value");
    Optional<A> a(o); SEQ_CHECK(bool(a) == bool(o) && (!o || (a->v == 4 && a->how == 0)), "made of the value of the optional");
}
} // namespace
SEQ_TEST(failing_subsets, 0, 0) { Fails<31>::run(seq::choose(32)); }
SEQ_TEST(failing_sources, 0, 0) { Fails<15>::sources(seq::choose(16)); }
SEQ_TEST(of_optionals, 0, 0) { switch (seq::choose(4)) { case 0: ofOptionals<0>(); break; case 1: ofOptionals<1>(); break; case 2: ofOptionals<2>(); break; case 3: ofOptionals<3>(); break; } }
SEQ_TEST(histories, 4, 5) { run(0); }
SEQ_TEST(one_failure, 3, 4) { run(1); }
SEQ_TEST(ints, 0, 0) { static int const vs[] = {-1, 0, 1, 2}; scalars<int>(vs[seq::choose(4)], vs[seq::choose(4)]); }
SEQ_TEST(bools, 0, 0) { bool const x = seq::flip(), y = seq::flip(); scalars<bool>(x, y); Optional<int> o(x); SEQ_CHECK(o.hasValue() && *o == int(x), "Optional<int>(%d) holds no %d", x, x); Optional<long> l(seq::flip()); SEQ_CHECK(l.hasValue(), "no value"); }
SEQ_TEST(move_only, 4, 5) {
    using U = std::unique_ptr<int>; Optional<U> o[2]; int r[2] = {-2, -2}; // -2: empty, -1: holds null
    for (int s = 0; s < seq::depth(); ++s) { int const i = seq::choose(2), j = 1 - i;
        switch (seq::choose(8)) {
        case 0: o[i].emplace(new int(s)); r[i] = s; break;
        case 1: o[i] = std::move(o[j]); r[i] = r[j]; if (r[j] >= 0) r[j] = -1; break;
        case 2: o[i] = U(new int(s)); r[i] = s; break;
        case 3: o[i].swap(o[j]); std::swap(r[i], r[j]); break;
        case 4: o[i].reset(); r[i] = -2; break;
        case 5: { Optional<U> t(std::move(o[i])); SEQ_CHECK(bool(t) == (r[i] != -2), "moved"); if (r[i] >= 0) { SEQ_CHECK(**t == r[i], "moved"); r[i] = -1; } break; }
        case 6: { using std::swap; swap(o[i], o[j]); std::swap(r[i], r[j]); break; }
        case 7: { U w = std::move(o[i]).valueOr(U()); SEQ_CHECK((w ? *w : -1) == (r[i] < 0 ? -1 : r[i]), "valueOr"); if (r[i] >= 0) r[i] = -1; break; }
        }
        for (int k = 0; k < 2; ++k) SEQ_CHECK(o[k].hasValue() == (r[k] != -2) && (r[k] == -2 || (*o[k] ? **o[k] : -1) == r[k]), "optional %d", k);
    }
}
SEQ_TEST(failing_allocations, 0, 0) {
    static std::string const s("a string too long to be stored inline"); Optional<std::vector<std::string>> o, p; bool had = seq::flip();
    if (had) o.emplace(std::size_t(2), s);
    bool ok = true; int const op = seq::choose(4); Optional<std::vector<std::string>> const q(o); std::initializer_list<std::string> const il{s, s, s};
    seq::armAllocFaults(1);
    try { switch (op) { case 0: o.emplace(il); break; case 1: o.emplace(std::size_t(3), s); break; case 2: { Optional<std::vector<std::string>> t(q); o = std::move(t); } break; case 3: p = o; break; } } catch (std::bad_alloc const &) { ok = false; }
    seq::disarmAllocFaults();
    if (op < 2) { SEQ_CHECK(o.hasValue() == ok && (!ok || o->size() == 3), "emplace"); }
    else { SEQ_CHECK(o.hasValue() == had && (!had || o->size() == 2), "the source changes"); if (op == 3 && ok) SEQ_CHECK(p == o, "copy"); if (!ok) SEQ_CHECK(!p, "a failed copy"); }
}
SEQ_TEST(nothrow_swap, 0, 0) {
    Optional<AdlSwap> a, b; bool const x = seq::flip(), y = seq::flip(); if (x) a.emplace(1); if (y) b.emplace(2);
    a.swap(b); SEQ_CHECK(a.hasValue() == y && b.hasValue() == x && (!y || a->v == 2) && (!x || b->v == 1), "swap");
}
