// C31: range comparison, measurement and reversal for all pairs of short sequences in all kinds of ranges.
#include "seq.h"
#include <algorithm>
#include <array>
#include <cstdint>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <sharemind/Range.h>
#include <sharemind/ReversedRange.h>
#include <sharemind/ReversionWrapper.h>
#include <sharemind/Size.h>

namespace {
using S = std::vector<int>;
struct Buf { int * p; std::size_t n; explicit Buf(S const & s) : p(new int[s.size()]), n(s.size()) { std::copy(s.begin(), s.end(), p); } ~Buf() { delete[] p; } Buf(Buf const &) = delete; };
/* Random access without size(). */
struct Pointers { int * b, * e; int * begin() const { return b; } int * end() const { return e; } std::reverse_iterator<int *> rbegin() const { return std::reverse_iterator<int *>(e); } std::reverse_iterator<int *> rend() const { return std::reverse_iterator<int *>(b); } };
/* Small and signed sizes. */
template <typename Size> struct Sized : Pointers { Sized(Buf const & x) : Pointers{x.p, x.p + x.n} {} Size size() const { return Size(e - b); } };
/* Ends with a sentinel, as it happens by a count. */
struct Counted { int * p; std::size_t * left; struct It { using iterator_category = std::input_iterator_tag; using value_type = int; using difference_type = std::ptrdiff_t; using pointer = int *; using reference = int &;
    int * p; std::size_t left; int & operator*() const { return *p; } It & operator++() { ++p; --left; return *this; } It operator++(int) { It r(*this); ++*this; return r; } friend bool operator==(It const & a, It const & b) { return a.p == b.p; } friend bool operator!=(It const & a, It const & b) { return a.p != b.p; } };
    struct End { }; friend bool operator==(It const & i, End const &) { return i.left == 0; } friend bool operator==(End const &, It const & i) { return i.left == 0; } friend bool operator!=(It const & i, End const &) { return i.left != 0; } friend bool operator!=(End const &, It const & i) { return i.left != 0; }
    std::size_t n; It begin() const { return It{p, n}; } End end() const { return {}; } };
std::vector<S> const & all(std::size_t n) { static std::vector<std::vector<S>> cache(10); auto & v = cache[n]; if (v.empty()) { v.push_back({}); std::size_t b = 0; for (std::size_t l = 0; l < n; ++l) { std::size_t const e = v.size(); for (; b < e; ++b) for (int c : {1, 2}) { S s(v[b]); s.push_back(c); v.push_back(s); } } } return v; }
std::string show(S const & s) { std::string r("["); for (int x : s) r += std::to_string(x); return r + "]"; }
constexpr int kinds = 13;
/* Calls f with a range of the k-th kind with the given contents. */
template <typename F> void with(int k, S const & s, F && f) {
    Buf const b(s);
    switch (k) {
    case 0: { S v(s); f(v); break; }
    case 1: { S const v(s); f(v); break; }
    case 2: { std::list<int> const v(s.begin(), s.end()); f(v); break; }
    case 3: { std::forward_list<int> v(s.begin(), s.end()); f(v); break; }
    case 4: f(Pointers{b.p, b.p + b.n}); break;
    case 5: f(Sized<std::uint8_t>(b)); break;
    case 6: f(Sized<short>(b)); break;
    case 7: f(Counted{b.p, nullptr, b.n}); break;
    case 8: { std::deque<int> const v(s.begin(), s.end()); f(v); break; }
    case 9: { std::list<long> v(s.begin(), s.end()); f(v); break; }
    case 10: { S r(s.rbegin(), s.rend()); f(sharemind::reverseRange(r)); break; }
    case 11: { std::forward_list<short> const v(s.begin(), s.end()); f(v); break; }
    default: { if (s.size() == 3) { int a[3]; std::copy(s.begin(), s.end(), a); f(a); } else if (s.size() == 2) { std::array<int, 2> a; std::copy(s.begin(), s.end(), a.begin()); f(a); } else { std::multiset<int> q(s.begin(), s.end()); if (S(q.begin(), q.end()) == s) f(q); else f(S(s)); } break; }
    }
}
void equal() {
    auto const & as = all(seq::thorough() ? 6 : 4); int const ka = seq::choose(kinds), kb = seq::choose(kinds);
    for (S const & a : as) for (S const & b : as) with(ka, a, [&](auto && x) { with(kb, b, [&](auto && y) { bool const e = sharemind::rangeEqual(x, y); SEQ_CHECK(e == (a == b), "%s (kind %d) and %s (kind %d) compare %s", show(a).c_str(), ka, show(b).c_str(), kb, e ? "equal" : "different"); seq::count(1); }); });
}
/* A range which only its reverse can measure: a sentinel at its end, but iterators of any kind the other way round. */
struct Backwards {
    struct Stop {};
    struct It { using iterator_category = std::forward_iterator_tag; using value_type = int; using difference_type = std::ptrdiff_t; using pointer = int *; using reference = int &;
        int * p; int * e; int & operator*() const { return *p; } int * operator->() const { return p; } It & operator++() { SEQ_CHECK(p != e, "moved past the end of a range"); ++p; return *this; } It operator++(int) { It r(*this); ++*this; return r; }
        friend bool operator==(It const & a, It const & b) { return a.p == b.p; } friend bool operator!=(It const & a, It const & b) { return a.p != b.p; }
        friend bool operator==(It const & a, Stop) { return a.p == a.e; } friend bool operator!=(It const & a, Stop) { return a.p != a.e; } friend bool operator==(Stop, It const & a) { return a.p == a.e; } friend bool operator!=(Stop, It const & a) { return a.p != a.e; } };
    int * p; std::size_t n;
    It begin() const { return {p, p + n}; } Stop end() const { return {}; }
    std::reverse_iterator<int *> rbegin() const { return std::reverse_iterator<int *>(p + n); } std::reverse_iterator<int *> rend() const { return std::reverse_iterator<int *>(p); }
};
template <typename R> auto measured(R && r, int) -> decltype(sharemind::measureRange(r)) { return sharemind::measureRange(r); }
void measures() {
    auto const & as = all(6); S const & s = as[std::size_t(seq::choose(int(as.size())))]; Buf const b(s);
    auto is = [&](auto n, char const * what) { SEQ_CHECK(n >= 0 && std::size_t(n) == s.size(), "%s of %zu elements measures %lld", what, s.size(), (long long) n); };
    S v(s); S const & cv = v; std::list<int> l(s.begin(), s.end()); Pointers const p{b.p, b.p + b.n}; std::deque<int> const d(s.begin(), s.end());
    using sharemind::measureRange; using sharemind::reverseRange;
    is(measureRange(v), "vector"); is(measureRange(cv), "vector"); is(measureRange(S(s)), "vector"); is(measureRange(l), "list"); is(measureRange(p), "range without size()"); is(measureRange(d), "deque"); is(measureRange(Sized<std::uint8_t>(b)), "range"); is(measureRange(Sized<short>(b)), "range"); is(measureRange(std::string(s.size(), 'x')), "string");
    is(sharemind::size(v), "size() of a vector"); is(sharemind::size(cv), "size() of a vector"); int a[7]; SEQ_CHECK(sharemind::size(a) == 7 && measureRange(a) == 7, "array");
    { auto r = reverseRange(v); is(r.size(), "reversed vector"); is(measureRange(r), "reversed vector"); auto const r2 = reverseRange(l); is(r2.size(), "reversed list"); is(measureRange(r2), "reversed list"); auto r3 = reverseRange(p); is(measureRange(r3), "reversed range without size()"); }
    { Backwards const w{v.data(), v.size()}; is(measureRange(w), "range measured backwards"); Backwards u(w); is(measureRange(u), "range measured backwards"); is(measureRange(Backwards(w)), "range measured backwards"); auto r4 = reverseRange(w); std::size_t n = 0; for (int x : r4) { SEQ_CHECK(x == s[s.size() - 1 - n], "reversed range"); ++n; } is(n, "reversed range"); is(measureRange(r4), "reversed range"); }
    seq::count(1);
}
template <typename C> void reversing(S const & s, char const * what) {
    C v(s.begin(), s.end()); C const & cv = v; S const want(s.rbegin(), s.rend());
    auto r = sharemind::reverseRange(v); auto const cr = sharemind::reverseRange(v); auto rc = sharemind::reverseRange(cv); auto const crc = sharemind::reverseRange(cv);
    SEQ_CHECK(S(r.begin(), r.end()) == want && S(cr.begin(), cr.end()) == want && S(rc.begin(), rc.end()) == want && S(crc.begin(), crc.end()) == want, "reversed %s of %s", what, show(s).c_str());
    SEQ_CHECK(S(std::cbegin(r), std::cend(r)) == want && sharemind::rangeEqual(r, want) && sharemind::rangeEqual(want, crc), "reversed %s of %s", what, show(s).c_str());
    { S g; for (auto & x : sharemind::reverseRange(v)) g.push_back(x); SEQ_CHECK(g == want, "loop over a reversed %s", what); g.clear(); for (auto const & x : sharemind::reverseRange(cv)) g.push_back(x); SEQ_CHECK(g == want, "loop over a reversed %s", what); }
    { S g; for (auto & x : sharemind::makeReversionWrapper(v)) g.push_back(x); SEQ_CHECK(g == want, "loop over a wrapped %s", what); g.clear(); for (auto const & x : sharemind::makeReversionWrapper(cv)) g.push_back(x); SEQ_CHECK(g == want, "loop over a wrapped %s", what); auto const w = sharemind::makeReversionWrapper(v); g.assign(begin(w), end(w)); SEQ_CHECK(g == want && &w.iterable == &v, "wrapped %s", what); }
    if (!s.empty()) SEQ_CHECK(&*r.begin() == &*v.rbegin() && &*crc.begin() == &*cv.rbegin() && &*begin(sharemind::makeReversionWrapper(v)) == &*v.rbegin(), "the reversed %s is a copy", what);
    // backwards through the reversed range is forwards
    { S g; auto i = r.end(); while (i != r.begin()) g.push_back(*--i); SEQ_CHECK(g == s, "backwards over a reversed %s", what); }
    // writes
    { int k = 0; for (auto & x : sharemind::reverseRange(v)) x = ++k; S w; for (int i = int(s.size()); i; --i) w.push_back(i); SEQ_CHECK(S(v.begin(), v.end()) == w, "writes through a reversed %s", what); k = 10; for (auto & x : sharemind::makeReversionWrapper(v)) x = ++k; w.clear(); for (int i = int(s.size()); i; --i) w.push_back(i + 10); SEQ_CHECK(S(v.begin(), v.end()) == w, "writes through a wrapped %s", what); }
    SEQ_CHECK(r.size() == s.size() && crc.size() == s.size(), "size of a reversed %s", what);
}
void reversal() {
    auto const & as = all(seq::thorough() ? 8 : 6); S const & s = as[std::size_t(seq::choose(int(as.size())))];
    reversing<S>(s, "vector"); reversing<std::list<int>>(s, "list"); reversing<std::deque<long>>(s, "deque");
    Buf const b(s); Pointers p{b.p, b.p + b.n}; S g; for (int x : sharemind::reverseRange(p)) g.push_back(x); SEQ_CHECK(g == S(s.rbegin(), s.rend()), "reversed range without size()");
    if (s.size() == 3) { int a[3]; std::copy(s.begin(), s.end(), a); int const (& ca)[3] = a; auto r = sharemind::reverseRange(a); auto const rc = sharemind::reverseRange(ca); S const want(s.rbegin(), s.rend()); SEQ_CHECK(S(r.begin(), r.end()) == want && S(rc.begin(), rc.end()) == want, "reversed array"); SEQ_CHECK(sharemind::rangeEqual(r, want), "reversed array compares wrongly"); }
    seq::count(1);
}
void literals() {
    static constexpr char const t[] = "lit\0eral"; auto const r = sharemind::asLiteralStringRange(t); SEQ_CHECK(r.size() == 8 && std::string(r.begin(), r.end()) == std::string(t, 8) && std::string(r.cbegin(), r.cend()) == std::string(t, 8), "literal range");
    auto const e = sharemind::asLiteralStringRange(""); SEQ_CHECK(e.size() == 0 && e.begin() == e.end(), "empty literal range"); SEQ_CHECK(sharemind::asLiteralStringRange(L"wide").size() == 4, "wide literal range");
    SEQ_CHECK(sharemind::measureRange(r) == 8 && sharemind::rangeEqual(r, std::string(t, 8)) && sharemind::rangeEqual(std::string(t, 8), r) && !sharemind::rangeEqual(r, std::string("lit")) && !sharemind::rangeEqual(r, e) && sharemind::rangeEqual(e, std::forward_list<char>()), "literal ranges compare wrongly");
    auto c = r; c = r; SEQ_CHECK(c.begin() == t, "copied literal range"); auto rr = sharemind::asLiteralStringRange("abc"); std::string s(rr.begin(), rr.end()); SEQ_CHECK(s == "abc", "literal range");
    std::vector<bool> const x{true, false}, y{true, false}, z{true, true}; SEQ_CHECK(sharemind::rangeEqual(x, y) && !sharemind::rangeEqual(x, z), "bit ranges compare wrongly");
    S big(300, 1), big2(300, 1); std::forward_list<int> f(big.begin(), big.end()); SEQ_CHECK(sharemind::rangeEqual(big, big2) && sharemind::rangeEqual(f, big) && sharemind::rangeEqual(big, f), "300 elements"); big2[299] = 2; SEQ_CHECK(!sharemind::rangeEqual(big, big2) && !sharemind::rangeEqual(f, big2) && !sharemind::rangeEqual(big2, f), "300 elements"); S s44(44, 1); { Buf b(s44); SEQ_CHECK(!sharemind::rangeEqual(big, Sized<std::uint8_t>(b)) && !sharemind::rangeEqual(Sized<std::uint8_t>(b), big), "300 and 44 elements"); }
    { S w(200, 1); Buf b(w); Sized<std::uint8_t> u(b); SEQ_CHECK(sharemind::rangeEqual(u, w) && sharemind::rangeEqual(w, u) && sharemind::rangeEqual(u, std::forward_list<int>(w.begin(), w.end())), "200 elements counted by a byte"); }
    seq::count(1);
}
/* Lengths at which counters wrap around: every pair of kinds. */
void large() {
    static std::size_t const ns[] = {16, 17, 64, 65, 127, 128, 200, 255, 256, 1000, 4097}; int const ka = seq::choose(kinds - 1), kb = seq::choose(kinds - 1); std::size_t const n = ns[seq::choose(11)];
    auto const fits = [](int k, std::size_t n) { return n <= (k == 5 ? 255u : 32767u); };
    S a(n); for (std::size_t i = 0; i < n; ++i) a[i] = int(i * 7 + i / 256 * 3 + 1) % 30000;
    auto const is = [&](S const & x, S const & y, bool want, char const * what) { if (!fits(ka, x.size()) || !fits(kb, y.size())) return; with(ka, x, [&](auto && p) { with(kb, y, [&](auto && q) { bool const e = sharemind::rangeEqual(p, q); SEQ_CHECK(e == want, "%zu elements (kind %d) and %zu elements (kind %d), %s, compare %s", x.size(), ka, y.size(), kb, what, e ? "equal" : "unequal"); }); }); seq::count(1); };
    is(a, a, true, "the same");
    for (std::size_t at : {std::size_t(0), n / 2, n - 2, n - 1}) { S b(a); ++b[at]; is(a, b, false, "one differs"); }
    for (std::size_t more : {1, 255, 256, 1024}) { S b(a); while (b.size() < n + more) b.push_back(a[b.size() % n]); is(a, b, false, "a prefix"); is(b, a, false, "a prefix"); }
}
void wrapping() { // 65536 elements more
    int const ka = seq::choose(kinds - 1), kb = seq::choose(kinds - 1); if (ka == 5 || ka == 6 || kb == 5 || kb == 6) return; S a(5, 1), b(65541, 1);
    auto const is = [&](S const & x, S const & y, bool want) { with(ka, x, [&](auto && p) { with(kb, y, [&](auto && q) { bool const e = sharemind::rangeEqual(p, q); SEQ_CHECK(e == want, "%zu elements (kind %d) and %zu elements (kind %d) compare %s", x.size(), ka, y.size(), kb, e ? "equal" : "unequal"); }); }); };
    is(a, b, false); is(b, a, false); is(b, b, true); S c(b); ++c.back(); is(b, c, false); is(c, b, false); seq::count(5);
}
void largeReversal() {
    static std::size_t const ns[] = {16, 17, 64, 127, 128, 255, 256, 257, 1000, 70000}; S s(ns[seq::choose(10)]); for (std::size_t i = 0; i < s.size(); ++i) s[i] = int(i); switch (seq::choose(3)) { case 0: reversing<S>(s, "vector"); break; case 1: reversing<std::list<int>>(s, "list"); break; default: reversing<std::deque<long>>(s, "deque"); } seq::count(1);
}
#define TEN(x) x x x x x x x x x x
void longLiteral() { auto const r = sharemind::asLiteralStringRange(TEN(TEN("abcdefghijklm"))); std::string w; for (int i = 0; i < 100; ++i) w += "abcdefghijklm"; SEQ_CHECK(r.size() == 1300 && std::string(r.begin(), r.end()) == w && std::string(r.cbegin(), r.cend()) == w && sharemind::measureRange(r) == 1300 && sharemind::rangeEqual(r, w), "a literal of 1300 characters"); auto const m = sharemind::asLiteralStringRange(TEN("abcdefghijklm")); SEQ_CHECK(m.size() == 130 && std::string(m.begin(), m.end()) == w.substr(0, 130), "a literal of 130 characters"); seq::count(1); }
} // namespace
SEQ_TEST(equality, 0, 0) { equal(); }
SEQ_TEST(measurement, 0, 0) { measures(); }
SEQ_TEST(reversals, 0, 0) { reversal(); }
SEQ_TEST(literal_ranges, 0, 0) { literals(); }
SEQ_TEST(large_ranges, 0, 0) { large(); }
SEQ_TEST(wrapping_sizes, 0, 0) { wrapping(); }
SEQ_TEST(large_reversals, 0, 0) { largeReversal(); }
SEQ_TEST(long_literals, 0, 0) { longLiteral(); }
