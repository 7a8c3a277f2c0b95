// C44: tuple utilities on all small shapes; shared element pointers and shared-from-this under all histories.
// CFLAGS: -O0 -g0
#include "seq.h"
#include <array>
#include <functional>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <sharemind/ApplyTuples.h>
#include <sharemind/EnableSharedFromThis.h>
#include <sharemind/NoNullTuple.h>
#include <sharemind/SharedTupleElementPointers.h>

namespace {
using namespace sharemind; using seq::Tracked;
/* An argument remembers how it was passed. */
struct Seen { int v; char how; };
std::vector<Seen> seen;
template <char Tag> struct Arg { Tracked t; explicit Arg(int i) : t(i) {} };
template <char G> void note(Arg<G> & a, char how) { a.t.chk("use"); seen.push_back({a.t.v, how}); seen.push_back({int(G), 'T'}); }
struct Sink {
    int calls = 0; char self = '?';
    template <char G> static int one(Arg<G> & a) { note(a, 'l'); return 0; } template <char G> static int one(Arg<G> const & a) { note(const_cast<Arg<G> &>(a), 'c'); return 0; } template <char G> static int one(Arg<G> && a) { note(a, 'r'); return 0; }
    template <typename ... A> int operator()(A && ... a) & { self = 'l'; return run(std::forward<A>(a)...); } template <typename ... A> int operator()(A && ... a) && { self = 'r'; return run(std::forward<A>(a)...); } template <typename ... A> int operator()(A && ... a) const & { const_cast<Sink *>(this)->self = 'c'; return const_cast<Sink *>(this)->run(std::forward<A>(a)...); }
    template <typename ... A> int run(A && ... a) { ++calls; int const x[] = { one(std::forward<A>(a))... }; (void) x; return int(sizeof...(A)) * 100 + calls; }
};
template <int N> struct TupleOf; template <> struct TupleOf<1> { using T = std::tuple<Arg<'a'>>; }; template <> struct TupleOf<2> { using T = std::tuple<Arg<'a'>, Arg<'b'>>; }; template <> struct TupleOf<3> { using T = std::tuple<Arg<'b'>, Arg<'a'>, Arg<'b'>>; };
template <> struct TupleOf<4> { using T = std::pair<Arg<'a'>, Arg<'b'>>; };
template <> struct TupleOf<5> { using T = std::array<Arg<'b'>, 2>; };
TupleOf<1>::T make(std::integral_constant<int, 1>, int b) { return TupleOf<1>::T(Arg<'a'>(b)); } TupleOf<2>::T make(std::integral_constant<int, 2>, int b) { return TupleOf<2>::T(Arg<'a'>(b), Arg<'b'>(b + 1)); }
TupleOf<3>::T make(std::integral_constant<int, 3>, int b) { return TupleOf<3>::T(Arg<'b'>(b), Arg<'a'>(b + 1), Arg<'b'>(b + 2)); } TupleOf<4>::T make(std::integral_constant<int, 4>, int b) { return {Arg<'a'>(b), Arg<'b'>(b + 1)}; } TupleOf<5>::T make(std::integral_constant<int, 5>, int b) { return {{Arg<'b'>(b), Arg<'b'>(b + 1)}}; }
constexpr int sizeOf_(int n) { return n == 4 || n == 5 ? 2 : n; }
char const * tagsOf(int n) { static char const * const t[] = { "", "a", "ab", "bab", "ab", "bb" }; return t[n]; }
struct H {
        static void val(std::vector<int> & v, TupleOf<1>::T const & t) { v.push_back(std::get<0>(t).t.v); } static void val(std::vector<int> & v, TupleOf<2>::T const & t) { v.push_back(std::get<0>(t).t.v); v.push_back(std::get<1>(t).t.v); }
        static void val(std::vector<int> & v, TupleOf<3>::T const & t) { v.push_back(std::get<0>(t).t.v); v.push_back(std::get<1>(t).t.v); v.push_back(std::get<2>(t).t.v); } static void val(std::vector<int> & v, TupleOf<4>::T const & t) { v.push_back(t.first.t.v); v.push_back(t.second.t.v); } static void val(std::vector<int> & v, TupleOf<5>::T const & t) { v.push_back(t[0].t.v); v.push_back(t[1].t.v); }
        template <std::size_t ... I, typename T> static void all(std::vector<int> & v, T const & t, std::index_sequence<I...>) { int const x[] = { (val(v, std::get<I>(t)), 0)... }; (void) x; }
        template <std::size_t ... I, typename T> static int call(int how, Sink & s, T & t, std::index_sequence<I...>) {
            if (how == 0) return applyTuples(s, std::get<I>(t)...); if (how == 1) return applyTuples(static_cast<Sink const &>(s), std::get<I>(static_cast<T const &>(t))...); if (how == 2) { Sink x; int const r = applyTuples(std::move(s), std::move(std::get<I>(t))...); return r; }
            /* first one constant, the rest rvalues */ return mixed(s, t, std::integral_constant<bool, sizeof...(I) == 2>());
        }
        template <typename T> static int mixed(Sink & s, T & t, std::true_type) { return applyTuples(s, static_cast<std::tuple_element_t<0, T> const &>(std::get<0>(t)), std::move(std::get<1>(t))); }
        template <typename T> static int mixed(Sink & s, T & t, std::false_type) { return applyTuples(s, std::get<0>(t)) * 0 - 1; }
    };
template <int ... N> void apply(int how) {
    seen.clear(); Sink s; int r; int k = 0;
    auto ts = std::make_tuple(make(std::integral_constant<int, N>(), 10 * ++k)...); /* evaluated left to right within braces only: values are re-read below */
    std::vector<int> values; std::string tags; char const mode = how == 0 ? 'l' : how == 1 ? 'c' : how == 2 ? 'r' : 'm';
    H::all(values, ts, std::make_index_sequence<sizeof...(N)>()); int const ns[] = { N... }; for (int n : ns) tags += tagsOf(n);
    if (how == 3 && sizeof...(N) != 2) return;
    r = H::call(how, s, ts, std::make_index_sequence<sizeof...(N)>());
    SEQ_CHECK(s.calls == 1 && r == int(values.size()) * 100 + 1, "the function was called %d times, with %d arguments instead of %zu", s.calls, r / 100, values.size()); SEQ_CHECK(seen.size() == 2 * values.size(), "arguments");
    if (mode != 'm') SEQ_CHECK(s.self == mode, "the function object was called as `%c' instead of `%c'", s.self, mode);
    for (std::size_t i = 0; i < values.size(); ++i) { SEQ_CHECK(seen[2 * i].v == values[i], "argument %zu is %d instead of %d", i, seen[2 * i].v, values[i]); SEQ_CHECK(seen[2 * i + 1].v == tags[i], "type of argument %zu", i); char const w = mode == 'm' ? (i < std::size_t(sizeOf_(ns[0])) ? 'c' : 'r') : mode; SEQ_CHECK(seen[2 * i].how == w, "argument %zu is passed as `%c' instead of `%c'", i, seen[2 * i].how, w); }
    seen.clear(); seen.shrink_to_fit(); seq::count(values.size());
}
template <int Left, int ... N> struct Shapes { static void go(int how) { switch (seq::choose(6)) { case 0: Shapes<Left - 1, N..., 1>::go(how); break; case 1: Shapes<Left - 1, N..., 2>::go(how); break; case 2: Shapes<Left - 1, N..., 3>::go(how); break; case 3: Shapes<Left - 1, N..., 4>::go(how); break; case 4: Shapes<Left - 1, N..., 5>::go(how); break; case 5: Shapes<0, N...>::go(how); break; } } };
template <int ... N> struct Shapes<1, N...> { static void go(int how) { switch (seq::choose(4)) { case 0: Shapes<0, N..., 1>::go(how); break; case 1: Shapes<0, N..., 2>::go(how); break; case 2: Shapes<0, N..., 3>::go(how); break; case 3: Shapes<0, N...>::go(how); break; } } };
template <int ... N> struct Shapes<0, N...> { static void go(int how) { apply<N...>(how); } };
template <> struct Shapes<0> { static void go(int) {} };
SEQ_TEST(apply_tuples, 0, 0) { Shapes<3>::go(seq::choose(4)); }
struct MoveOnly { std::unique_ptr<int> p; };
SEQ_TEST(apply_moves, 0, 0) {
    auto const f = [](std::unique_ptr<int> a, int b, std::unique_ptr<int> c) { return std::unique_ptr<int>(new int(*a * 100 + b * 10 + *c)); };
    std::tuple<std::unique_ptr<int>, int> x(std::make_unique<int>(1), 2); std::tuple<std::unique_ptr<int>> y(std::make_unique<int>(3)); auto const r = applyTuples(f, std::move(x), std::move(y)); SEQ_CHECK(*r == 123 && !std::get<0>(x) && !std::get<0>(y), "elements are not moved");
    int a = 1; std::string b("b"); auto const refs = std::tie(a, b); applyTuples([](int & i, std::string & s) { i = 7; s += 'c'; }, refs); SEQ_CHECK(a == 7 && b == "bc", "elements which are references are copied"); seq::count(2);
}

/* Removing nulls: all patterns of nulls and values. */
void check1(bool ok) { SEQ_CHECK(ok, "an argument was changed"); }
using Null = decltype(nullptr);
template <typename T> T value(int i); template <> int value<int>(int i) { return 100 + i; } template <> std::string value<std::string>(int i) { return "a string which is long enough " + std::to_string(i); } template <> Null value<Null>(int) { return nullptr; }
template <typename T> bool is(T const & t, int i) { return t == value<T>(i); }
template <typename Orig, std::size_t I, typename T> struct Get { template <typename R> static void check(R & r) { SEQ_CHECK((is<T>(noNullGet<I, Orig>(r), int(I))), "the element of index %zu", I); SEQ_CHECK((is<T>(noNullGet<I, Orig>(static_cast<R const &>(r)), int(I))), "the element of index %zu", I); static_assert(std::is_same<std::decay_t<decltype(noNullGet<I, Orig>(r))>, T>::value, ""); seq::count(1); } };
template <typename Orig, std::size_t I> struct Get<Orig, I, Null> { template <typename R> static void check(R &) {} };
template <typename ... T> struct Expect; template <> struct Expect<> { using t = std::tuple<>; };
template <typename T, typename ... Ts> struct Expect<T, Ts...> { using t = decltype(std::tuple_cat(std::declval<std::conditional_t<std::is_same<T, Null>::value, std::tuple<>, std::tuple<T>>>(), std::declval<typename Expect<Ts...>::t>())); };
template <typename ... T, std::size_t ... I> void patterns(std::index_sequence<I...>) {
    using O = std::tuple<T...>; using W = typename Expect<T...>::t; static_assert(std::is_same<NoNullTuple_t<T...>, W>::value, "the elements which are not null"); static_assert(std::is_same<typename NoNullTuple<T...>::type, W>::value, "");
    { auto r = makeNoNullTuple(value<T>(int(I))...); static_assert(std::is_same<decltype(r), W>::value, "the type of the result"); int const x[] = { 0, (Get<O, I, T>::check(r), 0)... }; (void) x; }
    { O o(value<T>(int(I))...); auto r = makeNoNullTuple(std::get<I>(o)...); static_assert(std::is_same<decltype(r), W>::value, "the type of the result"); int const x[] = { 0, (Get<O, I, T>::check(r), 0)... }; (void) x; int const y[] = { 0, (check1(is<T>(std::get<I>(o), int(I))), 0)... }; (void) y; }
    { O const o(value<T>(int(I))...); auto r = makeNoNullTuple(std::get<I>(o)...); static_assert(std::is_same<decltype(r), W>::value, "the type of the result"); int const x[] = { 0, (Get<O, I, T>::check(r), 0)... }; (void) x; }
}

template <int Left, typename ... T> struct Pat { static void go() { switch (seq::choose(4)) { case 0: Pat<Left - 1, T..., Null>::go(); break; case 1: Pat<Left - 1, T..., int>::go(); break; case 2: Pat<Left - 1, T..., std::string>::go(); break; case 3: Pat<0, T...>::go(); break; } } };
template <typename ... T> struct Pat<0, T...> { static void go() { patterns<T...>(std::index_sequence_for<T...>()); } };
SEQ_TEST(no_nulls, 0, 0) { Pat<3>::go(); }
SEQ_TEST(no_nulls_long, 0, 0) { switch (seq::choose(4)) { case 0: Pat<0, Null, Null, int, Null, std::string>::go(); break; case 1: Pat<0, int, std::string, Null, Null, int, Null>::go(); break; case 2: Pat<0, Null, Null, Null, Null>::go(); break; case 3: Pat<0, std::string, Null, int, int, std::string>::go(); break; } }
/* Null pointer types which are const or volatile are removed and skipped as well. */
template <typename ... O> struct QualifiedCheck { template <std::size_t ... J> static auto make(int const * v, std::index_sequence<J...>) { return std::make_tuple(v[J]...); }
        template <std::size_t J, typename T> static void one(T const & t, int const * at, std::false_type) { int const g = noNullGet<J, std::tuple<O...>>(t); SEQ_CHECK(g == 10 + at[J], "the element of index %zu is number %d", J, g - 10); seq::count(1); }
        template <std::size_t J, typename T> static void one(T const &, int const *, std::true_type) {} };
template <typename ... O, std::size_t ... I> void qualified(std::index_sequence<I...>) {
    using W = decltype(std::tuple_cat(std::declval<std::conditional_t<std::is_null_pointer<O>::value, std::tuple<>, std::tuple<O>>>()...));
    static_assert(std::is_same<NoNullTuple_t<O...>, W>::value, "the elements which are not null");
    bool const null[] = { std::is_null_pointer<O>::value... }; int k = 0; int at[sizeof...(O)]; for (std::size_t i = 0; i < sizeof...(O); ++i) at[i] = null[i] ? -1 : k++;
    int const vals[] = { 10, 11, 12, 13, 14, 15, 16 };
    using Q = QualifiedCheck<O...>;
    auto const t = Q::make(vals, std::make_index_sequence<std::tuple_size<W>::value>());
    int const x[] = { 0, (Q::template one<I>(t, at, std::is_null_pointer<O>()), 0)... }; (void) x;
}
template <int Left, typename ... T> struct Qual { static void go() { switch (seq::choose(5)) { case 0: Qual<Left - 1, T..., Null>::go(); break; case 1: Qual<Left - 1, T..., Null const>::go(); break; case 2: Qual<Left - 1, T..., Null volatile>::go(); break; case 3: Qual<Left - 1, T..., int>::go(); break; case 4: Qual<Left - 1, T..., int const>::go(); break; } } };
template <typename ... T> struct Qual<0, T...> { static void go() { qualified<T...>(std::index_sequence_for<T...>()); } };
SEQ_TEST(qualified_nulls, 0, 0) { Qual<3>::go(); }
SEQ_TEST(no_nulls_references, 0, 0) {
    int a = 1; std::string b = "b"; auto r = makeNoNullTuple(nullptr, std::ref(a), nullptr, std::cref(b), 'c'); static_assert(std::is_same<decltype(r), std::tuple<int &, std::string const &, char>>::value, ""); SEQ_CHECK(&std::get<0>(r) == &a && &std::get<1>(r) == &b && std::get<2>(r) == 'c', "references"); std::get<0>(r) = 5; SEQ_CHECK(a == 5, "reference");
    auto m = makeNoNullTuple(std::make_unique<int>(3), nullptr, std::make_unique<int>(4)); SEQ_CHECK(*std::get<0>(m) == 3 && *std::get<1>(m) == 4, "moved elements"); constexpr auto k = makeNoNullTuple(1, nullptr, 2L); static_assert(std::get<0>(k) == 1 && std::get<1>(k) == 2L, ""); static_assert(std::is_same<decltype(makeNoNullTuple()), std::tuple<>>::value, ""); seq::count(3);
}

/* Pointers to the elements of a shared tuple. */
using Tup = std::tuple<Tracked, Tracked, Tracked>;
SEQ_TEST(element_pointers, 6, 8) {
    { std::shared_ptr<Tup> whole = std::make_shared<Tup>(Tracked(1), Tracked(2), Tracked(3)); std::weak_ptr<Tup> const w = whole; std::shared_ptr<Tracked> e[4]; int at[4] = { -1, -1, -1, -1 }; int vals[3] = { 1, 2, 3 };
    Tracked * const addr[3] = { &std::get<0>(*whole), &std::get<1>(*whole), &std::get<2>(*whole) };
    for (int s = 0; s < seq::depth(); ++s) {
        int const k = seq::choose(4);
        if (k == 0) { if (!whole) return; int const how = seq::choose(5);
            if (how < 3) { e[s % 4] = how == 0 ? makeSharedTupleElementPtr<0>(whole) : how == 1 ? makeSharedTupleElementPtr<1>(whole) : makeSharedTupleElementPtr<2>(whole); at[s % 4] = how; }
            else if (how == 3) { auto p = makeSharedTupleElementPtrs<2, 0>(whole); static_assert(std::tuple_size<decltype(p)>::value == 2, ""); SEQ_CHECK(std::get<0>(p).get() == addr[2] && std::get<1>(p).get() == addr[0], "other elements"); e[0] = std::get<0>(p); at[0] = 2; e[1] = std::move(std::get<1>(p)); at[1] = 0; }
            else { auto p = makeAllSharedTupleElementPtrs(whole); static_assert(std::tuple_size<decltype(p)>::value == 3, ""); e[0] = std::get<0>(p); e[1] = std::get<1>(p); e[2] = std::get<2>(p); at[0] = 0; at[1] = 1; at[2] = 2; }
        } else if (k == 1) { if (!whole) return; whole.reset(); }
        else if (k == 2) { int const i = seq::choose(4); if (!e[i]) return; e[i].reset(); at[i] = -1; }
        else { int const i = seq::choose(4); if (!e[i]) return; e[i]->v = vals[at[i]] = 10 + s; }
        bool any = bool(whole); for (auto const & x : e) any = any || x;
        SEQ_CHECK(!w.expired() == any && (seq::Tracked::live != 0) == any, "the tuple is %s", any ? "destroyed while in use" : "kept although no pointer is left");
        for (int i = 0; i < 4; ++i) if (at[i] >= 0) { SEQ_CHECK(e[i].get() == addr[at[i]] && e[i]->v == vals[at[i]], "pointer %d", i); e[i]->chk("use"); SEQ_CHECK(!e[i].owner_before(w) && !w.owner_before(e[i]), "pointer %d owns another object", i); }
        { long owners = bool(whole); for (int a : at) owners += a >= 0; SEQ_CHECK(w.use_count() == owners, "%ld owners instead of %ld", w.use_count(), owners); }
        seq::count(1); std::uint64_t h = any + 2u * bool(whole); for (int a : at) h = seq::mix(h, unsigned(a)); seq::state(h);
        if (!any) break;
    } }
    SEQ_CHECK(seq::Tracked::live == 0, "%ld elements are never destroyed", seq::Tracked::live);
}
SEQ_TEST(element_pointer_types, 0, 0) { auto t = std::make_shared<std::tuple<int, std::string, int, char>>(1, "two", 3, '4'); auto p = makeAllSharedTupleElementPtrs(t); static_assert(std::is_same<decltype(p), std::tuple<std::shared_ptr<int>, std::shared_ptr<std::string>, std::shared_ptr<int>, std::shared_ptr<char>>>::value, ""); t.reset(); SEQ_CHECK(*std::get<0>(p) == 1 && *std::get<1>(p) == "two" && *std::get<2>(p) == 3 && *std::get<3>(p) == '4', "elements"); auto e = std::make_shared<std::tuple<>>(); SEQ_CHECK(makeAllSharedTupleElementPtrs(e) == std::tuple<>(), "empty"); seq::count(1); }

/* Pointers to objects from within. */
struct Obj: EnableSharedFromThis<Obj> { Tracked a{1}, b{2}; bool * bad; explicit Obj(bool * x = nullptr) : bad(x) { check("construction"); } ~Obj() { check("destruction"); }
    void check(char const * when) { if (!bad) return; if (weakFromThis().lock() || static_cast<Obj const *>(this)->weakFromThis().lock() || weakFromThis(&a).lock() || static_cast<Obj const *>(this)->weakFromThis(&b).lock()) *bad = true; bool threw = false; try { sharedFromThis(&a); } catch (std::bad_weak_ptr const &) { threw = true; } if (!threw) *bad = true; (void) when; } };
template <typename F> bool throwsBad(F && f) { try { f(); } catch (std::bad_weak_ptr const &) { return true; } return false; }
SEQ_TEST(shared_from_this, 4, 5) {
    bool bad = false; { Obj * raw = new Obj(&bad); Obj const * craw = raw; SEQ_CHECK(!raw->weakFromThis().lock() && throwsBad([&] { raw->sharedFromThis(); }) && throwsBad([&] { craw->sharedFromThis(); }) && throwsBad([&] { craw->sharedFromThis(&craw->a); }), "an object which is not shared yet gives pointers");
    std::shared_ptr<Obj> first(raw); std::shared_ptr<void> keep[3]; std::shared_ptr<void const> ckeep[3]; std::weak_ptr<Tracked> weak[3]; std::weak_ptr<Tracked const> cweak[3]; std::weak_ptr<Obj> ow; std::weak_ptr<Obj const> cow; int held = 1; bool gone = false;
    for (int s = 0; s < seq::depth() && !gone; ++s) {
        int const i = s % 3;
        auto const set = [&](std::shared_ptr<void const> p) { if (!ckeep[i]) ++held; ckeep[i] = std::move(p); };
        switch (seq::choose(9)) {
        case 0: { std::shared_ptr<Obj> p = raw->sharedFromThis(); SEQ_CHECK(p.get() == raw, "pointer"); set(p); } break;
        case 1: { std::shared_ptr<Obj const> p = craw->sharedFromThis(); SEQ_CHECK(p.get() == raw, "pointer"); set(p); } break;
        case 2: { std::shared_ptr<Tracked> p = raw->sharedFromThis(&raw->a); SEQ_CHECK(p.get() == &raw->a, "pointer"); set(p); } break;
        case 3: { std::shared_ptr<Tracked const> p = craw->sharedFromThis(&craw->b); SEQ_CHECK(p.get() == &raw->b, "pointer"); set(p); } break;
        case 4: weak[i] = raw->weakFromThis(&raw->a); cweak[i] = craw->weakFromThis(&craw->b); SEQ_CHECK(weak[i].lock().get() == &raw->a && cweak[i].lock().get() == &raw->b, "weak pointer"); break;
        case 5: ow = raw->weakFromThis(); cow = craw->weakFromThis(); SEQ_CHECK(ow.lock().get() == raw && cow.lock().get() == raw, "weak pointer"); break;
        case 6: if (!first) return; first.reset(); --held; break;
        case 7: { int const k = seq::choose(3); if (!ckeep[k]) return; ckeep[k].reset(); --held; } break;
        case 8: { std::shared_ptr<Obj> l = ow.lock(); if (!l) return; set(l); } break;
        }
        gone = held == 0; SEQ_CHECK((seq::Tracked::live == 0) == gone, "the object is %s", gone ? "kept although no pointer is left" : "destroyed while in use");
        if (!gone) SEQ_CHECK(raw->weakFromThis().use_count() == held, "%ld owners instead of %d", raw->weakFromThis().use_count(), held);
        if (gone) { SEQ_CHECK(!ow.lock() && !cow.lock(), "weak pointer"); for (auto const & w : weak) SEQ_CHECK(w.expired(), "weak pointer"); for (auto const & w : cweak) SEQ_CHECK(w.expired(), "weak pointer"); }
        seq::count(1); seq::state(unsigned(held) * 8u + bool(first));
    } }
    SEQ_CHECK(!bad, "pointers to an object being made or destroyed"); SEQ_CHECK(seq::Tracked::live == 0, "leak");
}
/* A pointer to a part may be null: what it gives shares the object all the same. */
SEQ_TEST(shared_from_this_null_parts, 0, 0) {
    int const how = seq::choose(3); Tracked * const none = nullptr; Tracked const * const cnone = nullptr;
    { Obj o; Obj const & c = o; SEQ_CHECK(throwsBad([&] { o.sharedFromThis(none); }) && throwsBad([&] { c.sharedFromThis(cnone); }), "an object which is not shared gives pointers"); SEQ_CHECK(o.weakFromThis(none).expired() && c.weakFromThis(cnone).expired(), "weak pointers to an object which is not shared"); }
    auto p = std::make_shared<Obj>(); Obj const & c = *p; std::weak_ptr<Obj> const w = p; long n = 1;
    { std::shared_ptr<Tracked> a; std::shared_ptr<Tracked const> b; if (how != 1) { a = p->sharedFromThis(none); ++n; } if (how != 0) { b = c.sharedFromThis(cnone); ++n; }
      SEQ_CHECK(!a.get() && !b.get() && w.use_count() == n, "%ld owners instead of %ld", w.use_count(), n); std::weak_ptr<Tracked> const x = p->weakFromThis(none); std::weak_ptr<Tracked const> const y = c.weakFromThis(cnone); SEQ_CHECK(x.use_count() == n && y.use_count() == n && !x.owner_before(w) && !w.owner_before(x) && !y.owner_before(w) && !w.owner_before(y), "a weak pointer to a null part is not one to the object");
      p.reset(); SEQ_CHECK(!w.expired() && seq::Tracked::live != 0, "the object is destroyed while in use"); a.reset(); b.reset(); SEQ_CHECK(w.expired() && x.expired() && y.expired(), "the object is kept"); }
    SEQ_CHECK(seq::Tracked::live == 0, "leak"); seq::count(1);
}
} // namespace
