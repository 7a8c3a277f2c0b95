// C43: exception messages, nesting and scope guards on all exit paths, histories and allocation failures.
// LIBS: -Wl,--wrap=strerror_r
#include "seq.h"
#include <cstdio>
#include <cstring>
#include <exception>
#include <memory>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <sharemind/DebugVerboseHandlers.h>
#include <sharemind/Exception.h>
#include <sharemind/ExceptionMacros.h>
#include <sharemind/ScopeExit.h>
#include <sharemind/ThrowNested.h>
#include <sharemind/ThrowWithNested.h>

extern "C" char * __real_strerror_r(int, char *, size_t);
namespace { struct { bool on = false; std::string text; int where = 0; } se; }
/* GNU flavour: the text is either in the buffer given, or elsewhere. */
extern "C" char * __wrap_strerror_r(int e, char * b, size_t n) {
    if (!se.on) return __real_strerror_r(e, b, n);
    if (se.where == 0) return const_cast<char *>(se.text.c_str());
    size_t l = se.text.size(); std::size_t const off = se.where == 2 ? 3u : 0u; if (l + off > n - 1) l = n - 1 - off;
    std::memset(b, 'Z', n); std::memcpy(b + off, se.text.data(), l); b[l + off] = '\0'; return b + off;
}

namespace t {
struct Owner {
    SHAREMIND_DECLARE_EXCEPTION_NOINLINE(std::exception, A);
    SHAREMIND_DECLARE_EXCEPTION_CONST_MSG_NOINLINE(A, B);
    SHAREMIND_DECLARE_EXCEPTION_CONST_STDSTRING_NOINLINE(A, C);
    SHAREMIND_DETAIL_DEFINE_EXCEPTION(std::exception, D);
    SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_MSG(D, E, "message of E");
    SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_STDSTRING(D, F);
};
SHAREMIND_DEFINE_EXCEPTION_NOINLINE(std::exception, Owner::, A);
SHAREMIND_DEFINE_EXCEPTION_CONST_MSG_NOINLINE(A, Owner::, B, "message of B");
SHAREMIND_DEFINE_EXCEPTION_CONST_STDSTRING_NOINLINE(A, Owner::, C);
}

namespace {
using namespace sharemind; using t::Owner;

SEQ_TEST(errno_messages, 200, 3000) {
    static int const odd[] = { -2147483647 - 1, 2147483647, -1, 100000, -100 };
    for (int i = -5; i < seq::depth() + 5; ++i) {
        int const e = i < seq::depth() ? i : odd[i - seq::depth()]; char b[2048]; std::string const text = __real_strerror_r(e, b, sizeof b);
        ErrnoException const x(e); ErrnoException const y(x); ErrnoException z{ErrnoException(e)};
        SEQ_CHECK(x.errorNumber() == e && y.errorNumber() == e && z.errorNumber() == e, "error number %d became %d", e, x.errorNumber());
        SEQ_CHECK(text == x.what() && text == y.what() && text == z.what(), "the message of error %d is `%s' instead of `%s'", e, x.what(), text.c_str());
        try { throw ErrnoException(e); } catch (Exception const & c) { SEQ_CHECK(text == c.what(), "the message of a thrown error %d", e); SEQ_CHECK(dynamic_cast<ErrnoException const &>(c).errorNumber() == e, "number"); }
        seq::count(1); seq::progress();
    }
}
SEQ_TEST(errno_long_messages, 0, 0) {
    static int const lens[] = { 0, 1, 5, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 2000, 5000 };
    int const n = lens[seq::choose(12)], where = seq::choose(3); std::string text; for (int i = 0; i < n; ++i) text += char('a' + i % 26);
    se.on = true; se.text = text; se.where = where; ErrnoException const x(7); ErrnoException const y(x); se.on = false;
    std::string const got(x.what(), strnlen(x.what(), ErrnoException::BUFFER_SIZE));
    SEQ_CHECK(got.size() < ErrnoException::BUFFER_SIZE, "the message is not terminated"); SEQ_CHECK(got == text.substr(0, got.size()), "the message is not a prefix of the text");
    if (n < 1019) SEQ_CHECK(got == text, "the message of %d characters was cut to %zu", n, got.size()); else SEQ_CHECK(got.size() >= 1000u, "the message of %d characters was cut to %zu", n, got.size());
    SEQ_CHECK(got == y.what() && y.errorNumber() == 7, "copy"); seq::count(1);
}

/* Exceptions with their own messages: histories over three of them. */
template <typename X> struct Make { static X * make(std::string s, int) { return new X(std::move(s)); } };
template <> struct Make<Owner::C> { static Owner::C * make(std::string s, int how) { if (how) return new Owner::C(std::make_shared<std::string const>(s)); return new Owner::C(std::move(s)); } };
template <typename X, typename Base> void messages() {
    static_assert(std::is_nothrow_copy_constructible<X>::value && std::is_nothrow_copy_assignable<X>::value && std::is_nothrow_destructible<X>::value && std::is_base_of<std::exception, X>::value, "");
    static std::string const texts[] = { "", "short", "a text which is too long to be kept within the string itself" };
    std::unique_ptr<X> x[3]; std::string m[3];
    for (int s = 0; s < seq::depth(); ++s) {
        int const i = seq::choose(3), j = seq::choose(3);
        switch (seq::choose(5)) {
        case 0: { std::string const & text = texts[j]; int const how = seq::choose(2); bool ok = true; int const before = seq::faultsFired(); X * n = nullptr; std::string given = text; seq::armAllocFaults(1); try { n = Make<X>::make(std::move(given), how); } catch (std::bad_alloc const &) { ok = false; } seq::disarmAllocFaults(); SEQ_CHECK(ok || seq::faultsFired() > before, "bad_alloc"); if (!ok) break; x[i].reset(n); m[i] = text; break; }
        case 1: if (!x[j]) return; { X * n = new X(static_cast<X const &>(*x[j])); SEQ_CHECK(m[j] == n->what(), "copy"); x[i].reset(n); m[i] = m[j]; } break;
        case 2: if (!x[i] || !x[j]) return; { int const before = seq::faultsFired(); seq::armAllocFaults(1); X & r = (*x[i] = static_cast<X const &>(*x[j])); seq::disarmAllocFaults(); SEQ_CHECK(&r == x[i].get() && before == seq::faultsFired(), "assignment"); m[i] = m[j]; } break;
        case 3: if (i != j || !x[i]) return; x[i].reset(); break;
        case 4: if (!x[j]) return; { std::string const text = m[j]; std::exception_ptr p; try { throw *x[j]; } catch (Base & b) { SEQ_CHECK(text == b.what(), "thrown copy"); p = std::current_exception(); } std::unique_ptr<X> keep; if (i == j) x[j].reset(); try { std::rethrow_exception(p); } catch (X const & b) { SEQ_CHECK(text == b.what(), "message of the exception thrown"); keep.reset(new X(b)); } p = nullptr; SEQ_CHECK(text == keep->what(), "message of the exception caught"); x[i] = std::move(keep); m[i] = text; } break;
        }
        { char const * text[3] = {}; for (int k = 0; k < 3; ++k) if (x[k]) text[k] = x[k]->what(); for (int k = 0; k < 3; ++k) if (x[k]) SEQ_CHECK(m[k] == text[k], "the message of an exception is `%s' instead of `%s' after those of others", text[k], m[k].c_str()); }
        for (int k = 0; k < 3; ++k) if (x[k]) { std::exception const & e = *x[k]; SEQ_CHECK(m[k] == e.what(), "the message is `%s' instead of `%s'", e.what(), m[k].c_str()); }
        seq::count(1); std::uint64_t h = 5; for (int k = 0; k < 3; ++k) h = seq::mix(h, x[k] ? m[k].size() : 99u); seq::state(h);
    }
}
SEQ_TEST(messages_noinline, 3, 4) { messages<Owner::C, Owner::A>(); }
SEQ_TEST(messages_inline, 3, 4) { messages<Owner::F, Owner::D>(); }
SEQ_TEST(fixed_messages, 0, 0) {
    auto const check = [](auto const & e, char const * m) { using X = std::decay_t<decltype(e)>; X c(e); X d; d = e; SEQ_CHECK(!std::strcmp(e.what(), m) && !std::strcmp(c.what(), m) && !std::strcmp(d.what(), m), "message %s", e.what()); try { throw e; } catch (std::exception const & x) { SEQ_CHECK(!std::strcmp(x.what(), m) && dynamic_cast<X const *>(&x), "message %s", x.what()); } seq::count(1); };
    check(Owner::B(), "message of B"); check(Owner::E(), "message of E"); check(Owner::A(), std::exception().what()); check(Owner::D(), std::exception().what()); check(Exception(), std::exception().what());
}

/* Nesting: all lists of exception kinds up to a length. */
struct S: std::exception { seq::Tracked v; explicit S(int i) : v(i) {} char const * what() const noexcept override { return "S"; } int id() const { v.chk("use"); return v.v; } };
struct P { seq::Tracked v; explicit P(int i) : v(i) {} virtual ~P() = default; P(P const &) = default; P(P &&) = default; int id() const { v.chk("use"); return v.v; } };
struct F final: std::exception { seq::Tracked v; explicit F(int i) : v(i) {} char const * what() const noexcept override { return "F"; } int id() const { v.chk("use"); return v.v; } };
struct N: std::exception, std::nested_exception { seq::Tracked v; explicit N(int i) : v(i) {} char const * what() const noexcept override { return "N"; } int id() const { v.chk("use"); return v.v; } };
enum Kind { KS, KP, KF, KI, KN };
template <typename T> struct KindOf; template <> struct KindOf<S> { enum { v = KS }; }; template <> struct KindOf<P> { enum { v = KP }; }; template <> struct KindOf<F> { enum { v = KF }; }; template <> struct KindOf<int> { enum { v = KI }; }; template <> struct KindOf<N> { enum { v = KN }; };
struct Link { int kind, id; bool nestable; std::exception_ptr next; };
Link look(std::exception_ptr const & p) {
    std::nested_exception const * n = nullptr; Link l{-1, 0, false, nullptr};
    try { std::rethrow_exception(p); } catch (S & e) { l = {KS, e.id(), true, nullptr}; n = dynamic_cast<std::nested_exception *>(&e); } catch (P & e) { l = {KP, e.id(), true, nullptr}; n = dynamic_cast<std::nested_exception *>(&e); }
    catch (F & e) { l = {KF, e.id(), false, nullptr}; } catch (N & e) { l = {KN, e.id(), false, nullptr}; n = &e; } catch (int e) { l = {KI, e, false, nullptr}; } catch (...) { seq::fail("an exception of another type was thrown"); }
    if (n) l.next = n->nested_ptr(); return l;
}
/* Passes a value as an rvalue, an lvalue or a constant lvalue. */
template <typename ... T> struct Call {
    static std::exception_ptr nested(int how, T ... v) { try { if (how == 0) throwNested(std::move(v)...); if (how == 1) throwNested(v...); throwNested(static_cast<T const &>(v)...); } catch (...) { check(how, v...); return std::current_exception(); } }
    static std::exception_ptr with(int how, T ... v) { try { if (how == 0) throwWithNested(std::move(v)...); if (how == 1) throwWithNested(v...); throwWithNested(static_cast<T const &>(v)...); } catch (...) { check(how, v...); return std::current_exception(); } }
    template <typename X> static int one(X const & x) { SEQ_CHECK(x.id() > 0, "an exception passed as an lvalue was changed"); return 0; }
    static int one(int) { return 0; }
    static void check(int how, T const & ... v) { if (how) { int const a[] = { one(v)... }; (void) a; } }
};
void chain(std::exception_ptr p, std::vector<int> const & kinds, int top, std::exception_ptr const & root) {
    /* kinds[top] is what was thrown, kinds[0] the innermost; below that: root. */
    for (int i = top; ; --i) {
        SEQ_CHECK(p != nullptr, "exception %d is not in the chain", i); Link const l = look(p); SEQ_CHECK(l.kind == kinds[std::size_t(i)] && l.id == i + 1, "exception %d of kind %d instead of %d of kind %d", l.id, l.kind, i + 1, kinds[std::size_t(i)]); seq::count(1);
        if (!l.nestable) { SEQ_CHECK(!l.next, "exception %d has another cause", i); return; }
        if (i == 0) { SEQ_CHECK(l.next == root, "the innermost cause"); return; }
        p = l.next;
    }
}
template <typename ... T, std::size_t ... I> void enough(std::vector<int> const & kinds, std::index_sequence<I...>) {
    int const how = seq::choose(3), mode = seq::choose(3); std::exception_ptr const none; int const top = int(sizeof...(T)) - 1;
    if (mode == 0) { chain(Call<T...>::nested(how, T(int(I) + 1)...), kinds, top, none); return; }
    if (mode == 1) { chain(Call<T...>::with(how, T(int(I) + 1)...), kinds, top, none); return; }
    struct Outer {}; try { throw Outer(); } catch (Outer const &) {
        /* kind N captures what is current when it is made: made outside, as in mode 0 and 1 */
        for (int k : kinds) if (k == KN) return;
        auto const root = std::current_exception(); chain(Call<T...>::with(how, T(int(I) + 1)...), kinds, top, root); SEQ_CHECK(std::current_exception() == root, "current exception");
    }
}
template <int Left, typename ... T> struct Build { static void go(std::vector<int> & kinds) {
    switch (seq::choose(sizeof...(T) ? 6 : 5)) {
    case 0: kinds.push_back(KS); Build<Left - 1, T..., S>::go(kinds); break; case 1: kinds.push_back(KP); Build<Left - 1, T..., P>::go(kinds); break; case 2: kinds.push_back(KF); Build<Left - 1, T..., F>::go(kinds); break;
    case 3: kinds.push_back(KI); Build<Left - 1, T..., int>::go(kinds); break; case 4: kinds.push_back(KN); Build<Left - 1, T..., N>::go(kinds); break; case 5: Build<0, T...>::go(kinds); break; }
} };
template <typename ... T> struct Build<0, T...> { static void go(std::vector<int> & kinds) { enough<T...>(kinds, std::index_sequence_for<T...>()); } };
template <> struct Build<0> { static void go(std::vector<int> &) {} };
SEQ_TEST(nesting, 0, 0) { { std::vector<int> kinds; Build<3>::go(kinds); } SEQ_CHECK(seq::Tracked::live == 0, "%ld exceptions are never destroyed", seq::Tracked::live); }
template <int L> void longNest(int how) { std::vector<int> const k = { KS, KP, KS, KP, KS, KS }; chain(Call<S, P, S, P, S, S>::nested(how, S(1), P(2), S(3), P(4), S(5), S(6)), k, 5, nullptr); chain(Call<S, P, S, P, S, S>::with(how, S(1), P(2), S(3), P(4), S(5), S(6)), k, 5, nullptr); }
SEQ_TEST(nesting_long, 0, 0) { longNest<0>(seq::choose(3)); }
SEQ_TEST(rethrow, 0, 0) { try { throw S(4); } catch (S & a) { try { throwWithNested(); } catch (S & b) { SEQ_CHECK(&a == &b && b.id() == 4, "rethrowing throws something else"); seq::count(1); } } }

/* Printing: every exception of a chain on a line of its own, outermost first. */
SEQ_TEST(printing, 3, 4) {
    int const n = 1 + seq::choose(seq::depth()); int const inner = seq::choose(4); std::exception_ptr p; std::vector<std::string> texts;
    try {
        if (inner == 0) throw std::runtime_error("text 0"); if (inner == 1) throw 5; if (inner == 2) std::throw_with_nested(std::runtime_error("text 0")); throw S(1);
    } catch (...) { p = std::current_exception(); }
    for (int i = 1; i < n; ++i) try { try { std::rethrow_exception(p); } catch (...) { std::throw_with_nested(std::runtime_error("text " + std::to_string(i))); } } catch (...) { p = std::current_exception(); }
    std::ostringstream o; verbosePrintException(p, o); std::istringstream in(o.str()); std::string line; int lines = 0;
    for (int i = n - 1; i >= 0; --i) {
        SEQ_CHECK(bool(std::getline(in, line)), "only %d of %d exceptions are printed", lines, n); ++lines; SEQ_CHECK(line.find(std::to_string(lines)) == 0, "line %d starts with %s", lines, line.c_str());
        std::string const text = i || inner == 0 || inner == 2 ? "text " + std::to_string(i) : inner == 3 ? "S" : ""; SEQ_CHECK(line.size() >= text.size() && line.compare(line.size() - text.size(), text.size(), text) == 0, "line %d is `%s', not ending with `%s'", lines, line.c_str(), text.c_str());
    }
    bool const more = bool(std::getline(in, line)); SEQ_CHECK(inner == 1 || !more, "more lines are printed: %s", line.c_str()); seq::count(1);
}
/* Long chains. */
SEQ_TEST(printing_long, 0, 0) {
    static int const ns[] = { 8, 9, 10, 11, 20, 33, 64, 100, 101, 257 }; int const n = ns[seq::choose(10)]; std::exception_ptr p; auto const text = [](int i) { return "text " + std::to_string(i) + (i % 3 ? "" : std::string(std::size_t(i) * 11, 'x')) + "."; };
    try { throw std::runtime_error(text(0)); } catch (...) { p = std::current_exception(); }
    for (int i = 1; i < n; ++i) try { try { std::rethrow_exception(p); } catch (...) { std::throw_with_nested(std::runtime_error(text(i))); } } catch (...) { p = std::current_exception(); }
    std::ostringstream o; verbosePrintException(p, o); std::istringstream in(o.str()); std::string line;
    for (int i = n - 1; i >= 0; --i) { SEQ_CHECK(bool(std::getline(in, line)), "only %d of %d exceptions are printed", n - 1 - i, n); std::string const t = text(i), head = std::to_string(n - i); SEQ_CHECK(line.compare(0, head.size(), head) == 0 && line.size() >= t.size() && line.compare(line.size() - t.size(), t.size(), t) == 0, "line %d of %d is `%s'", n - i, n, line.c_str()); }
    SEQ_CHECK(!std::getline(in, line), "more lines are printed: %s", line.c_str()); seq::count(1);
}
void h1() {} void h2() {}
/* The scope of the handlers is left by an exception. */
SEQ_TEST(handlers_unwound, 0, 0) {
    std::terminate_handler const t0 = std::get_terminate(); std::unexpected_handler const u0 = std::get_unexpected(); std::set_terminate(&h1); std::set_unexpected(&h2); int const depth = 1 + seq::choose(3), at = seq::choose(2);
    struct In { static void go(int d, int at) { ScopedDebugVerboseHandlers a; if (d > 1) { if (at) try { go(d - 1, 0); } catch (int) {} else go(d - 1, 0); } SEQ_CHECK(std::get_terminate() == &verboseTerminateHandler && std::get_unexpected() == &verboseUnexpectedHandler, "handlers are not set"); throw d; } };
    try { In::go(depth, at); } catch (int) {} SEQ_CHECK(std::get_terminate() == &h1 && std::get_unexpected() == &h2, "handlers are not restored when an exception leaves their scope"); std::set_terminate(t0); std::set_unexpected(u0); seq::count(1);
}
SEQ_TEST(handlers, 0, 0) {
    std::terminate_handler const t0 = std::get_terminate(); std::unexpected_handler const u0 = std::get_unexpected();
    std::set_terminate(&h1); std::set_unexpected(&h2); int const depth = 1 + seq::choose(2);
    { ScopedDebugVerboseHandlers a; SEQ_CHECK(std::get_terminate() == &verboseTerminateHandler && std::get_unexpected() == &verboseUnexpectedHandler, "handlers are not set"); if (depth == 2) { ScopedDebugVerboseHandlers b; } SEQ_CHECK(std::get_terminate() == &verboseTerminateHandler && std::get_unexpected() == &verboseUnexpectedHandler, "handlers are not set"); }
    SEQ_CHECK(std::get_terminate() == &h1 && std::get_unexpected() == &h2, "handlers are not restored"); enableDebugVerboseHandlers(); SEQ_CHECK(std::get_terminate() == &verboseTerminateHandler && std::get_unexpected() == &verboseUnexpectedHandler, "handlers are not set");
    std::set_terminate(t0); std::set_unexpected(u0); seq::count(1);
}

/* Scope guards: nested scopes, all kinds of guards and all ways to leave. */
std::vector<int> ran, expected; int faultsBefore;
struct Boom { int v; };
void act(int id) { ran.push_back(id); }
int scope(int level, int depth);
template <typename G> int inside(int level, int depth, int id, G && guard, bool throws) {
    /* `guard' was made by the caller in its scope. */
    (void) guard; int r = 0; try { if (level + 1 < depth) r = scope(level + 1, depth); } catch (Boom const &) { expected.push_back(id); throw; }
    int const leave = seq::choose(3);
    expected.push_back(id); (void) throws;
    if (r) return r; if (leave == 1) return id; if (leave == 2) throw Boom{id}; return 0;
}
ScopeExit passOn(ScopeExit && g) { return ScopeExit(std::move(g)); }
int scope(int level, int depth) {
    int id = 10 * (level + 1) + 1; int const kind = seq::choose(6); std::size_t const mark = ran.size();
    switch (kind) {
    case 0: { ScopeExit const g{[id] { act(id); }}; (void) g; int const was = id; int const r = inside(level, depth, was, 0, false); SEQ_CHECK(ran.size() == expected.size() - 1 , "the guard runs early"); return r; }
    case 1: { SHAREMIND_SCOPE_EXIT(act(id)); int const was = id; id = 999; /* captured by value */ return inside(level, depth, was, 0, false); }
    case 2: { auto const g(makeScopeExit([id] { act(id); })); (void) g; return inside(level, depth, id, 0, false); }
    case 3: { std::unique_ptr<ScopeExit> p; { ScopeExit a{[id] { act(id); }}; ScopeExit b(std::move(a)); p.reset(new ScopeExit(passOn(std::move(b)))); } SEQ_CHECK(ran.size() == mark, "a guard which was moved from runs its action"); return inside(level, depth, id, 0, false); }
    case 4: { for (int k = 0; k < 2; ++k) { SHAREMIND_SCOPE_EXIT(act(id + k)); expected.push_back(id + k); if (seq::flip()) continue; if (seq::flip()) break; } return level + 1 < depth ? scope(level + 1, depth) : 0; }
    default: { /* an action that throws: only on a normal exit */
        try { { ScopeExit const g{[id] { act(id); throw Boom{id + 5}; }}; (void) g; expected.push_back(id); } seq::fail("the exception of the action is lost"); } catch (Boom const & b) { SEQ_CHECK(b.v == id + 5, "exception"); }
        int const r = level + 1 < depth ? scope(level + 1, depth) : 0; return r; }
    }
}
SEQ_TEST(guards, 2, 3) {
    ran.clear(); expected.clear(); ran.reserve(64); expected.reserve(64); int const depth = 1 + seq::choose(seq::depth());
    try { scope(0, depth); } catch (Boom const &) {}
    SEQ_CHECK(ran == expected, "%zu actions ran instead of %zu, or in another order (%d, %d)", ran.size(), expected.size(), ran.empty() ? 0 : ran.back(), expected.empty() ? 0 : expected.back());
    ran.clear(); ran.shrink_to_fit(); expected.clear(); expected.shrink_to_fit(); seq::count(1);
}
/* A guard whose creation fails runs nothing, one which was created runs once. */
SEQ_TEST(guards_alloc, 0, 0) {
    struct Big { long a[8]; }; Big const big = {{1, 2, 3, 4, 5, 6, 7, 8}}; static int runs; runs = 0; bool made = false; int const before = seq::faultsFired(); int const kind = seq::choose(2);
    seq::armAllocFaults(1); try { if (kind) { ScopeExit const g{[big] { runs += int(big.a[7]); }}; made = true; seq::disarmAllocFaults(); } else { SHAREMIND_SCOPE_EXIT(runs += int(big.a[7])); made = true; seq::disarmAllocFaults(); } } catch (std::bad_alloc const &) { SEQ_CHECK(!made, "guard throws"); } seq::disarmAllocFaults();
    SEQ_CHECK(made || seq::faultsFired() > before, "bad_alloc"); SEQ_CHECK(runs == (made ? 8 : 0), "the action ran %d times", runs / 8); seq::count(1);
}
} // namespace
