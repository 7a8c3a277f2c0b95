// C30: split(), splitNoAllowEmpty() and concat() on all short inputs.
#include "seq.h"
#include <algorithm>
#include <cstddef>
#include <cstring>
#include <forward_list>
#include <iterator>
#include <list>
#include <memory>
#include <ostream>
#include <string>
#include <utility>
#include <vector>
#include <sharemind/Concat.h>
#include <sharemind/Split.h>
#include <sharemind/StringView.h>

namespace {
using Pieces = std::vector<std::string>;
std::string show(std::string const & s) { return "\"" + s + "\""; }
std::string show(Pieces const & p) { std::string r; for (auto & s : p) r += show(s); return "[" + r + "]"; }
std::string input(int max) { std::string s; int const n = seq::choose(max + 1); for (int i = 0; i < n; ++i) s += "ab,;"[seq::choose(4)]; return s; }
Pieces expected(std::string const & s, std::string const & delims, bool empties) {
    Pieces r(1); for (char c : s) if (delims.find(c) != std::string::npos) r.emplace_back(); else r.back() += c;
    if (!empties) r.erase(std::remove(r.begin(), r.end(), std::string()), r.end());
    return r;
}
struct Stop {};
template <typename It> Pieces run(It b, It e, std::string const & delims, bool empties, int throwAt, bool throwPred, std::string * asked) {
    Pieces r; int calls = 0, preds = 0;
    auto pred = [&](char const & c) { if (asked) *asked += c; if (throwPred && preds++ == throwAt) throw Stop(); return delims.find(c) != std::string::npos; };
    auto act = [&](It x, It y) { if (!throwPred && calls++ == throwAt) throw Stop(); r.emplace_back(x, y); return 5; };
    try { if (empties) sharemind::split(b, e, pred, act); else sharemind::splitNoAllowEmpty(b, e, pred, act); SEQ_CHECK(throwAt < 0 || (throwPred ? preds : calls) <= throwAt, "exception swallowed"); } catch (Stop const &) { SEQ_CHECK(throwAt >= 0, "unexpected exception"); r.push_back("(stop)"); }
    return r;
}
void splitting(int max) {
    std::string const s = input(max); char const * const ds[] = {",", ",;", "", "ab,;"}; std::string const d = ds[seq::choose(4)]; bool const empties = seq::flip();
    Pieces const want = expected(s, d, empties);
    std::unique_ptr<char[]> p(new char[s.size()]); std::copy(s.begin(), s.end(), p.get());
    std::string asked; Pieces g = run<char const *>(p.get(), p.get() + s.size(), d, empties, -1, false, &asked);
    SEQ_CHECK(g == want, "%s split at %s%s gives %s", show(s).c_str(), show(d).c_str(), empties ? "" : " without empty pieces", show(g).c_str());
    std::forward_list<char> const f(s.begin(), s.end()); g = run(f.begin(), f.end(), d, empties, -1, false, nullptr); SEQ_CHECK(g == want, "a list of %s split at %s gives %s", show(s).c_str(), show(d).c_str(), show(g).c_str());
    std::string m(s); run(m.begin(), m.end(), d, empties, -1, false, nullptr); SEQ_CHECK(m == s, "the input changes");
    // stopping
    for (int k = 0; k <= int(want.size()); ++k) { Pieces w(want.begin(), want.begin() + k); if (std::size_t(k) < want.size()) w.push_back("(stop)"); g = run<char const *>(p.get(), p.get() + s.size(), d, empties, k, false, nullptr); SEQ_CHECK(g == w, "%s split at %s and stopped after %d pieces gives %s", show(s).c_str(), show(d).c_str(), k, show(g).c_str()); }
    for (int k = 0; k < int(s.size()); ++k) { g = run<char const *>(p.get(), p.get() + s.size(), d, empties, k, true, nullptr); SEQ_CHECK(!g.empty() && g.back() == "(stop)" && g.size() - 1 <= want.size() && std::equal(g.begin(), g.end() - 1, want.begin()), "%s split at %s with an exception of the predicate gives %s", show(s).c_str(), show(d).c_str(), show(g).c_str()); }
    seq::count(1);
}
/* An exception of any one operation reaches the caller, whatever the others promise. Only operation Op may throw. */
int fuse = -1;
void burn() { if (fuse >= 0 && fuse-- == 0) throw Stop(); }
enum Op { Copy, Assign, Deref, Inc, Eq, Ne, Pred, Act };
template <int Op> struct TI {
    using iterator_category = std::forward_iterator_tag; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = char const *; using reference = char const &;
    char const * p;
    explicit TI(char const * q) noexcept : p(q) {}
    TI(TI const & o) noexcept(Op != Copy) : p(o.p) { if (Op == Copy) burn(); }
    TI & operator=(TI const & o) noexcept(Op != Assign) { if (Op == Assign) burn(); p = o.p; return *this; }
    char const & operator*() const noexcept(Op != Deref) { if (Op == Deref) burn(); return *p; }
    TI & operator++() noexcept(Op != Inc) { if (Op == Inc) burn(); ++p; return *this; }
    bool operator==(TI const & o) const noexcept(Op != Eq) { if (Op == Eq) burn(); return p == o.p; }
    bool operator!=(TI const & o) const noexcept(Op != Ne) { if (Op == Ne) burn(); return p != o.p; }
};
template <int Op> void throwingOperation(std::string const & s, std::string const & delims, bool empties) {
    struct P { char const * d; bool operator()(char c) const noexcept(Op != Pred) { if (Op == Pred) burn(); return c && std::strchr(d, c); } };
    struct A { int * n; void operator()(TI<Op> const &, TI<Op> const &) const noexcept(Op != Act) { if (Op == Act) burn(); ++*n; } };
    int const want = int(expected(s, delims, empties).size());
    for (int k = 0;; ++k) {
        TI<Op> const b(s.data()), e(s.data() + s.size()); int n = 0; bool thrown = false;
        fuse = k;
        try { if (empties) sharemind::split(b, e, P{delims.c_str()}, A{&n}); else sharemind::splitNoAllowEmpty(b, e, P{delims.c_str()}, A{&n}); } catch (Stop const &) { thrown = true; }
        bool const fired = fuse == -1 ; fuse = -1;
        SEQ_CHECK(thrown == fired, "an exception of operation %d %s", Op, fired ? "is swallowed" : "comes from nowhere");
        SEQ_CHECK(thrown ? n <= want : n == want, "%d pieces instead of %d", n, want);
        if (!thrown) break;
        SEQ_CHECK(k < 100, "endless");
    }
}
void throwing(int max) {
    std::string const s = input(max); std::string const d = seq::flip() ? "," : ",;"; bool const e = seq::flip();
    switch (seq::choose(8)) {
    case Copy: throwingOperation<Copy>(s, d, e); break; case Assign: throwingOperation<Assign>(s, d, e); break; case Deref: throwingOperation<Deref>(s, d, e); break; case Inc: throwingOperation<Inc>(s, d, e); break;
    case Eq: throwingOperation<Eq>(s, d, e); break; case Ne: throwingOperation<Ne>(s, d, e); break; case Pred: throwingOperation<Pred>(s, d, e); break; case Act: throwingOperation<Act>(s, d, e); break;
    }
    seq::count(1);
}
/* Printing an rvalue empties it. */
struct Loud { std::string s; friend std::ostream & operator<<(std::ostream & o, Loud const & l) { return o << l.s; } friend std::ostream & operator<<(std::ostream & o, Loud && l) { o << l.s; l.s = "gone"; return o; } };
struct Moveless { std::string s; explicit Moveless(std::string x) : s(std::move(x)) {} Moveless(Moveless const &) = delete; friend std::ostream & operator<<(std::ostream & o, Moveless const & l) { return o << l.s; } };
std::string const & word(int k) { static std::string const w[] = {std::string(), "x", std::string("a\0b", 3), "%d and more"}; return w[k]; }
void concatenating() {
    using sharemind::concat;
    std::string const a = word(seq::choose(4)), b = word(seq::choose(4)), c = word(seq::choose(4)); std::string const az = a.c_str(), bz = b.c_str();
    auto is = [&](std::string const & g, std::string const & w, char const * what) { SEQ_CHECK(g == w, "%s gives %s instead of %s", what, show(g).c_str(), show(w).c_str()); };
    std::string la(a), lb(b), lc(c); char * const pa = &la[0]; char const arr[] = "arr"; Loud l{b}; Loud const cl{b}; Moveless const ml(c); int n = -17; unsigned char const uc = 'u';
    is(concat(), "", "nothing"); is(concat(a), a, "one string"); is(concat(la), a, "one string"); is(concat(std::string(a)), a, "one temporary"); is(concat(a.c_str()), az, "one C string"); is(concat(pa), az, "one C string"); is(concat(arr), "arr", "one array"); is(concat(n), "-17", "one number"); is(concat(l), b, "one object"); is(concat(ml), c, "one object"); is(concat('c'), "c", "one character");
    is(concat(a, b), a + b, "two strings"); is(concat(la, lb), a + b, "two strings"); is(concat(std::string(a), std::string(b)), a + b, "two temporaries"); is(concat(a.c_str(), b), az + b, "C string and string"); is(concat(a, b.c_str()), a + bz, "string and C string");
    is(concat(a, b, c), a + b + c, "three strings"); is(concat(la, b, std::string(c)), a + b + c, "mixed strings"); is(concat(a, ',', n, b, 5u, arr, uc), a + ",-17" + b + "5arru", "mixed"); is(concat(n, n, a), "-17-17" + a, "numbers"); is(concat(pa, sharemind::StringView(b), true), az + b + "1", "views"); is(concat(ml, a, ml), c + a + c, "objects");
    is(concat(l, cl, a), b + b + a, "objects"); is(concat(cl, l), b + b, "objects"); is(concat(Loud{b}, Loud{c}), b + c, "temporary objects"); is(concat(a, static_cast<Loud &&>(Loud{c})), a + c, "temporary objects");
    SEQ_CHECK(la == a && lb == b && lc == c && l.s == b && cl.s == b && ml.s == c && n == -17, "concat() changes its arguments");
    seq::count(1);
}
} // namespace
SEQ_TEST(splits, 0, 0) { splitting(seq::thorough() ? 8 : 6); }
SEQ_TEST(throwing_operations, 0, 0) { throwing(seq::thorough() ? 6 : 4); }
SEQ_TEST(concats, 0, 0) { concatenating(); }
/* Long inputs: many pieces, long pieces, delimiters at every structured position. */
SEQ_TEST(long_inputs, 0, 0) {
    static int const lens[] = {17, 64, 127, 128, 255, 256, 257, 1000, 4096, 65536, 70001}; int const n = lens[seq::choose(11)], shape = seq::choose(8); bool const empties = seq::flip(); int const d = seq::choose(3);
    std::string s(n, 'a'); for (int i = 0; i < n; ++i) s[i] = char('a' + i % 23);
    switch (shape) { case 0: break; case 1: s[0] = ','; break; case 2: s[n - 1] = ','; break; case 3: s[n / 2] = ','; s[n / 2 + 1] = ';'; break; case 4: for (int i = 0; i < n; i += 7) s[i] = i % 2 ? ',' : ';'; break; case 5: s.assign(n, ','); break; case 6: for (int i = 16; i < n; i *= 2) { s[i - 1] = ','; if (i + 1 < n) s[i + 1] = ','; } break; case 7: for (int i = n / 3; i < n; ++i) s[i] = ','; s[n - 1] = 'z'; break; }
    char const * const ds[] = {",", ";,", "xyz"}; Pieces const want = expected(s, ds[d], empties);
    SEQ_CHECK((run<char const *>(s.data(), s.data() + n, ds[d], empties, -1, false, nullptr)) == want, "%d characters of shape %d are split wrongly", n, shape);
    std::list<char> const l(s.begin(), s.end()); SEQ_CHECK(run(l.begin(), l.end(), ds[d], empties, -1, false, nullptr) == want, "a list of %d characters of shape %d is split wrongly", n, shape);
    int const k = int(want.size()) - 1; if (k >= 0) { Pieces w(want.begin(), want.begin() + k); w.push_back("(stop)"); SEQ_CHECK((run<char const *>(s.data(), s.data() + n, ds[d], empties, k, false, nullptr)) == w, "stopped at piece %d of %d characters", k, n); }
    seq::count(1);
}
SEQ_TEST(long_concats, 0, 0) {
    using sharemind::concat; static int const lens[] = {15, 16, 31, 127, 128, 255, 256, 1023, 1024, 4096, 65536, 200000}; std::string a(lens[seq::choose(12)], 'a'), b(lens[seq::choose(12)], 'b'); a[a.size() / 2] = '\0'; b.back() = '\n'; std::string const az = a.c_str();
    auto is = [&](std::string const & g, std::string const & w, char const * what) { SEQ_CHECK(g == w, "%s of %zu and %zu characters gives %zu instead of %zu", what, a.size(), b.size(), g.size(), w.size()); };
    is(concat(a), a, "one"); is(concat(a, b), a + b, "two"); is(concat(b, a, b), b + a + b, "three"); is(concat(a.c_str(), b), az + b, "C string"); is(concat(b.c_str(), a.c_str(), b), b + az + b, "C strings"); is(concat(sharemind::StringView(a), std::string(b), 'x', a, -5L, b), a + b + "x" + a + "-5" + b, "six");
    is(concat(1, a, 2u, b, 3L, "lit", 4ull, 'c', a, b, 5, std::string(b), 6, "", 7, true, static_cast<void const *>(nullptr) == nullptr, 8), "1" + a + "2" + b + "3lit4c" + a + b + "5" + b + "67118", "eighteen");
    seq::count(1);
}
