// C29: StringView: all pairs of short strings with all positions, next to std::string.
#include "seq.h"
#include <algorithm>
#include <array>
#include <boost/functional/hash.hpp>
#include <cstdint>
#include <iomanip>
#include <memory>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <vector>
#include <sharemind/StringView.h>

namespace {
struct Ci : std::char_traits<char> { // case-insensitive
    static char up(char c) { return c >= 'a' && c <= 'z' ? char(c - 32) : c; }
    static bool eq(char a, char b) { return up(a) == up(b); }
    static bool lt(char a, char b) { return static_cast<unsigned char>(up(a)) < static_cast<unsigned char>(up(b)); }
    static int compare(char const * a, char const * b, std::size_t n) { while (n--) { if (lt(*a, *b)) return -1; if (lt(*b, *a)) return 1; ++a; ++b; } return 0; }
    static char const * find(char const * s, std::size_t n, char const & c) { for (; n--; ++s) if (eq(*s, c)) return s; return nullptr; }
};
template <typename C> struct Alpha { static std::vector<C> get() { return {C('a'), C('b'), C(0), static_cast<C>(~C(0))}; } };
template <typename Tr> struct AlphaT { template <typename C> static std::vector<C> get() { return Alpha<C>::get(); } };
template <> struct AlphaT<Ci> { template <typename C> static std::vector<C> get() { return {'a', 'A', 'b', '\0'}; } };
template <typename C, typename Tr> struct T {
    using S = std::basic_string<C, Tr>; using V = sharemind::BasicStringView<C, Tr>;
    static std::vector<S> const & all(std::size_t n) {
        static std::vector<std::vector<S>> cache(8); auto & v = cache[n];
        if (v.empty()) { auto const al = AlphaT<Tr>::template get<C>(); v.push_back(S()); std::size_t b = 0; for (std::size_t l = 0; l < n; ++l) { std::size_t const e = v.size(); for (; b < e; ++b) for (C c : al) v.push_back(v[b] + c); } }
        return v;
    }
    static std::string show(S const & s) { std::string r = "\""; for (C c : s) { char b[16]; std::snprintf(b, sizeof(b), c >= C(32) && c < C(127) ? "%c" : "\\x%x", unsigned(c) & 0xffffu); r += b; } return r + "\""; }
    struct Buf { C * p; std::size_t n; Buf(S const & s) : p(s.empty() ? nullptr : new C[s.size()]), n(s.size()) { std::copy(s.begin(), s.end(), p); } ~Buf() { delete[] p; } Buf(Buf const &) = delete; V v() const { return V(p, n); } };
    static int sgn(int x) { return x < 0 ? -1 : x > 0; }
    static void eq(std::size_t g, std::size_t w, char const * what, S const & a, S const & b, std::size_t p, std::size_t n = 0) { if (g != w) seq::fail("%s in %s for %s at %zd (%zd) gives %zd instead of %zd", what, show(a).c_str(), show(b).c_str(), p, n, g, w); }
    static void same(V g, S const & w, char const * what, S const & a, S const & b, std::size_t p, V const & whole) {
        if (S(g.data(), g.size()) != w || g.size() != w.size()) seq::fail("%s of %s with %s at %zd gives %s instead of %s", what, show(a).c_str(), show(b).c_str(), p, show(S(g.data(), g.size())).c_str(), show(w).c_str());
        if (g.size() && (g.data() < whole.data() || g.data() + g.size() > whole.data() + whole.size())) seq::fail("%s gives another string", what);
    }
    template <typename F> static bool throws(F f) { try { f(); } catch (std::out_of_range const &) { return true; } return false; }
    static S ltrim(S s, S const & cs) { std::size_t i = 0; while (i < s.size() && Tr::find(cs.data(), cs.size(), s[i])) ++i; return s.substr(i); }
    static S rtrim(S s, S const & cs) { while (!s.empty() && Tr::find(cs.data(), cs.size(), s.back())) s.pop_back(); return s; }
    static std::vector<std::size_t> positions(std::size_t n) { std::vector<std::size_t> p; for (std::size_t i = 0; i <= n + 1; ++i) p.push_back(i); p.push_back(~std::size_t(0)); p.push_back(~std::size_t(0) - 1); p.push_back(~std::size_t(0) / 2); return p; }
    static void pair(std::size_t maxA, std::size_t maxB) {
        auto const & as = all(maxA); auto const & bs = all(maxB); S const & a = as[std::size_t(seq::choose(int(as.size())))]; Buf const ba(a); V const v(ba.v());
        auto const ps = positions(a.size()); constexpr auto npos = V::npos;
        for (S const & b : bs) {
            Buf const bb(b); V const w(bb.v()); bool const cstr = b.find(C()) == S::npos; S const z = b; C const * const cz = z.c_str(); std::size_t const n = b.size(), zl = Tr::length(cz); S const zs(cz, zl);
            // comparison
            int const c = sgn(a.compare(b));
            SEQ_CHECK(sgn(v.compare(w)) == c && sgn(v.compare(w.data(), n)) == c && sgn(w.compare(v)) == -c && sgn(v.compare(cz)) == sgn(a.compare(zs)), "%s and %s compare wrongly", show(a).c_str(), show(b).c_str());
            SEQ_CHECK((v == w) == (c == 0) && (v != w) == (c != 0) && (v < w) == (c < 0) && (v <= w) == (c <= 0) && (v > w) == (c > 0) && (v >= w) == (c >= 0), "relations of %s and %s", show(a).c_str(), show(b).c_str());
            SEQ_CHECK((v == b) == (c == 0) && (b == v) == (c == 0) && (v < b) == (c < 0) && (b > v) == (c < 0) && (v >= b) == (c >= 0) && (b != v) == (c != 0), "relations of %s with the string %s", show(a).c_str(), show(b).c_str());
            if (cstr) SEQ_CHECK((v == cz) == (c == 0) && (cz != v) == (c != 0) && (v < cz) == (c < 0) && (cz < v) == (c > 0) && (v <= cz) == (c <= 0) && (v > cz) == (c > 0), "relations of %s with the C string %s", show(a).c_str(), show(b).c_str());
            bool const sw = a.size() >= n && a.compare(0, n, b) == 0, ew = a.size() >= n && a.compare(a.size() - n, n, b) == 0;
            SEQ_CHECK(v.startsWith(w) == sw && v.startsWith(w.data(), n) == sw && v.endsWith(w) == ew && v.endsWith(w.data(), n) == ew, "prefix or suffix %s of %s", show(b).c_str(), show(a).c_str());
            if (cstr) SEQ_CHECK(v.startsWith(cz) == sw && v.endsWith(cz) == ew, "prefix or suffix %s of %s", show(b).c_str(), show(a).c_str());
            // search
            for (auto p : ps) {
                eq(v.find(w, p), a.find(b, p), "find", a, b, p); eq(v.rfind(w, p), a.rfind(b, p), "rfind", a, b, p); eq(v.findFirstOf(w, p), a.find_first_of(b, p), "findFirstOf", a, b, p); eq(v.findLastOf(w, p), a.find_last_of(b, p), "findLastOf", a, b, p); eq(v.findFirstNotOf(w, p), a.find_first_not_of(b, p), "findFirstNotOf", a, b, p); eq(v.findLastNotOf(w, p), a.find_last_not_of(b, p), "findLastNotOf", a, b, p);
                eq(v.find(cz, p), a.find(cz, p), "find C string", a, b, p); eq(v.rfind(cz, p), a.rfind(cz, p), "rfind C string", a, b, p); eq(v.findFirstOf(cz, p), a.find_first_of(cz, p), "findFirstOf C string", a, b, p); eq(v.findLastOf(cz, p), a.find_last_of(cz, p), "findLastOf C string", a, b, p); eq(v.findFirstNotOf(cz, p), a.find_first_not_of(cz, p), "findFirstNotOf C string", a, b, p); eq(v.findLastNotOf(cz, p), a.find_last_not_of(cz, p), "findLastNotOf C string", a, b, p);
                for (std::size_t k = 0; k <= n; ++k) { eq(v.find(w.data(), p, k), a.find(b.data(), p, k), "find", a, b, p, k); eq(v.rfind(w.data(), p, k), a.rfind(b.data(), p, k), "rfind", a, b, p, k); eq(v.findFirstOf(w.data(), p, k), a.find_first_of(b.data(), p, k), "findFirstOf", a, b, p, k); eq(v.findLastOf(w.data(), p, k), a.find_last_of(b.data(), p, k), "findLastOf", a, b, p, k); eq(v.findFirstNotOf(w.data(), p, k), a.find_first_not_of(b.data(), p, k), "findFirstNotOf", a, b, p, k); eq(v.findLastNotOf(w.data(), p, k), a.find_last_not_of(b.data(), p, k), "findLastNotOf", a, b, p, k); }
                if (n == 1) { C const ch = b[0]; eq(v.find(ch, p), a.find(ch, p), "find character", a, b, p); eq(v.rfind(ch, p), a.rfind(ch, p), "rfind character", a, b, p); eq(v.findFirstOf(ch, p), a.find_first_of(ch, p), "findFirstOf character", a, b, p); eq(v.findLastOf(ch, p), a.find_last_of(ch, p), "findLastOf character", a, b, p); eq(v.findFirstNotOf(ch, p), a.find_first_not_of(ch, p), "findFirstNotOf character", a, b, p); eq(v.findLastNotOf(ch, p), a.find_last_not_of(ch, p), "findLastNotOf character", a, b, p); }
                // partial comparison
                for (std::size_t k : {std::size_t(0), std::size_t(1), std::size_t(2), npos}) {
                    if (p > a.size()) { SEQ_CHECK(throws([&] { (void) v.compare(p, k, w); }) && throws([&] { (void) v.compare(p, k, cz); }) && throws([&] { (void) v.compare(p, k, w.data(), n); }) && throws([&] { (void) v.compare(p, k, w, 0, 1); }), "comparing from %zd of %s isn't reported", p, show(a).c_str()); continue; }
                    SEQ_CHECK(sgn(v.compare(p, k, w)) == sgn(a.compare(p, k, b)) && sgn(v.compare(p, k, w.data(), n)) == sgn(a.compare(p, k, b.data(), n)) && sgn(v.compare(p, k, cz)) == sgn(a.compare(p, k, cz)), "comparing %s from %zd (%zd) with %s", show(a).c_str(), p, k, show(b).c_str());
                    for (std::size_t p2 = 0; p2 <= n; ++p2) for (std::size_t k2 : {std::size_t(0), std::size_t(1), npos}) SEQ_CHECK(sgn(v.compare(p, k, w, p2, k2)) == sgn(a.compare(p, k, b, p2, k2)), "comparing %s from %zd (%zd) with %s from %zd (%zd)", show(a).c_str(), p, k, show(b).c_str(), p2, k2);
                    SEQ_CHECK(throws([&] { (void) v.compare(p, k, w, n + 1, 1); }), "comparing with an out of range position isn't reported");
                }
            }
            eq(v.find(w), a.find(b), "find", a, b, 0); eq(v.rfind(w), a.rfind(b), "rfind", a, b, npos); eq(v.findFirstOf(w), a.find_first_of(b), "findFirstOf", a, b, 0); eq(v.findLastOf(w), a.find_last_of(b), "findLastOf", a, b, npos); eq(v.findFirstNotOf(w), a.find_first_not_of(b), "findFirstNotOf", a, b, 0); eq(v.findLastNotOf(w), a.find_last_not_of(b), "findLastNotOf", a, b, npos);
            eq(v.find(cz), a.find(cz), "find C string", a, b, 0); eq(v.rfind(cz), a.rfind(cz), "rfind C string", a, b, npos); eq(v.findFirstOf(cz), a.find_first_of(cz), "findFirstOf C string", a, b, 0); eq(v.findLastOf(cz), a.find_last_of(cz), "findLastOf C string", a, b, npos); eq(v.findFirstNotOf(cz), a.find_first_not_of(cz), "findFirstNotOf C string", a, b, 0); eq(v.findLastNotOf(cz), a.find_last_not_of(cz), "findLastNotOf C string", a, b, npos);
            // trimming
            same(v.leftTrimmed(w), ltrim(a, b), "leftTrimmed", a, b, 0, v); same(v.rightTrimmed(w), rtrim(a, b), "rightTrimmed", a, b, 0, v); same(v.trimmed(w), ltrim(rtrim(a, b), b), "trimmed", a, b, 0, v);
            same(v.leftTrimmed(w.data(), n), ltrim(a, b), "leftTrimmed", a, b, 0, v); same(v.rightTrimmed(w.data(), n), rtrim(a, b), "rightTrimmed", a, b, 0, v); same(v.trimmed(w.data(), n), ltrim(rtrim(a, b), b), "trimmed", a, b, 0, v);
            same(v.leftTrimmed(cz), ltrim(a, zs), "leftTrimmed C string", a, b, 0, v); same(v.rightTrimmed(cz), rtrim(a, zs), "rightTrimmed C string", a, b, 0, v); same(v.trimmed(cz), ltrim(rtrim(a, zs), zs), "trimmed C string", a, b, 0, v);
            if (n == 1) {
                C const ch = b[0]; same(v.leftTrimmed(ch), ltrim(a, b), "leftTrimmed character", a, b, 0, v); same(v.rightTrimmed(ch), rtrim(a, b), "rightTrimmed character", a, b, 0, v); same(v.trimmed(ch), ltrim(rtrim(a, b), b), "trimmed character", a, b, 0, v);
                SEQ_CHECK(v.startsWith(ch) == sw && v.endsWith(ch) == ew, "first or last character of %s", show(a).c_str());
                eq(v.find(ch), a.find(ch), "find character", a, b, 0); eq(v.rfind(ch), a.rfind(ch), "rfind character", a, b, npos); eq(v.findFirstOf(ch), a.find_first_of(ch), "findFirstOf character", a, b, 0); eq(v.findLastOf(ch), a.find_last_of(ch), "findLastOf character", a, b, npos); eq(v.findFirstNotOf(ch), a.find_first_not_of(ch), "findFirstNotOf character", a, b, 0); eq(v.findLastNotOf(ch), a.find_last_not_of(ch), "findLastNotOf character", a, b, npos);
            }
            // swap
            { V x(v), y(w); x.swap(y); SEQ_CHECK(x.data() == w.data() && x.size() == w.size() && y.data() == v.data() && y.size() == v.size(), "swap"); x = y; SEQ_CHECK(x.data() == v.data() && x.size() == v.size(), "assignment"); }
        }
        seq::count(bs.size());
    }
    static void single(std::size_t max) {
        auto const & as = all(max); S const & a = as[std::size_t(seq::choose(int(as.size())))]; Buf const ba(a); V const v(ba.v()); std::size_t const n = a.size();
        SEQ_CHECK(v.size() == n && v.length() == n && v.empty() == a.empty() && v.data() == ba.p, "size of %s", show(a).c_str());
        SEQ_CHECK(S(v.begin(), v.end()) == a && S(v.cbegin(), v.cend()) == a && S(v.rbegin(), v.rend()) == S(a.rbegin(), a.rend()) && S(v.crbegin(), v.crend()) == S(a.rbegin(), a.rend()), "iterating over %s", show(a).c_str());
        SEQ_CHECK(v.str() == a && v.str(std::allocator<C>()) == a, "str() of %s", show(a).c_str());
        if (n) SEQ_CHECK(&v.front() == ba.p && &v.back() == ba.p + n - 1, "front or back of %s", show(a).c_str());
        { V const x(a); SEQ_CHECK(x.data() == a.data() && x.size() == n, "view of the string %s", show(a).c_str()); V const y(a.c_str()); SEQ_CHECK(y.data() == a.data() && y.size() == Tr::length(a.c_str()), "view of the C string %s", show(a).c_str()); V const z; SEQ_CHECK(z.empty() && z.size() == 0 && z.begin() == z.end() && z == V(static_cast<C const *>(nullptr)), "default view"); }
        for (auto p : positions(n)) {
            if (p < n) SEQ_CHECK(&v[p] == ba.p + p && &v.at(p) == ba.p + p, "character %zu of %s", p, show(a).c_str()); else SEQ_CHECK(throws([&] { (void) v.at(p); }), "at(%zd) of %s isn't reported", p, show(a).c_str());
            if (p <= n) {
                same(v.substr(p), a.substr(p), "substr", a, a, p, v); same(v.left(p), a.substr(0, p), "left", a, a, p, v); same(v.right(p), a.substr(n - p), "right", a, a, p, v); same(v.leftClipped(p), a.substr(p), "leftClipped", a, a, p, v); same(v.rightClipped(p), a.substr(0, n - p), "rightClipped", a, a, p, v);
                { V x(v); x.removePrefix(p); same(x, a.substr(p), "removePrefix", a, a, p, v); x = v; x.removeSuffix(p); same(x, a.substr(0, n - p), "removeSuffix", a, a, p, v); }
            } else SEQ_CHECK(throws([&] { (void) v.substr(p); }) && throws([&] { (void) v.substr(p, 0); }) && throws([&] { (void) v.left(p); }) && throws([&] { (void) v.right(p); }) && throws([&] { (void) v.leftClipped(p); }) && throws([&] { (void) v.rightClipped(p); }) && throws([&] { C x; (void) v.copy(&x, 0, p); }), "position %zd of %s isn't reported", p, show(a).c_str());
            for (auto k : positions(n)) {
                if (p <= n) {
                    same(v.substr(p, k), a.substr(p, k), "substr", a, a, p, v);
                    std::vector<C> d(std::min(k, n) + 1, C('#')), e(d); std::size_t const m = std::min(k, n - p); SEQ_CHECK(v.copy(d.data(), k, p) == m, "copy from %zd (%zd) of %s", p, k, show(a).c_str()); std::copy(a.begin() + std::ptrdiff_t(p), a.begin() + std::ptrdiff_t(p + m), e.begin()); SEQ_CHECK(d == e, "copy from %zd (%zd) of %s", p, k, show(a).c_str());
                    if (p == 0) { std::fill(d.begin(), d.end(), C('#')); SEQ_CHECK(v.copy(d.data(), k) == m && d == e, "copy of %s", show(a).c_str()); }
                }
                bool const ok = p <= n && k <= n - p; if (ok) same(v.clipped(p, k), a.substr(p, n - p - k), "clipped", a, a, p, v); else SEQ_CHECK(throws([&] { (void) v.clipped(p, k); }), "clipped(%zd, %zd) of %s isn't reported", p, k, show(a).c_str());
            }
        }
        seq::count(1);
    }
};
/* A stream buffer with limited space. */
template <typename C> struct Limited : std::basic_streambuf<C> {
    std::basic_string<C> s; std::size_t room; Limited(std::size_t r) : room(r) {}
    int overflow(int c) override { if (s.size() >= room || c == -1) return -1; s.push_back(C(c)); return c; }
};
void print() {
    auto const & as = T<char, std::char_traits<char>>::all(3); std::string const & a = as[std::size_t(seq::choose(int(as.size())))]; std::unique_ptr<char[]> p(new char[a.size()]); std::copy(a.begin(), a.end(), p.get()); sharemind::StringView const v(p.get(), a.size());
    for (int w = 0; w < 7; ++w) for (int adj = 0; adj < 4; ++adj) for (int bad = 0; bad < 3; ++bad) {
        std::ostringstream x, y; x << std::setfill('*') << std::setw(w); y << std::setfill('*') << std::setw(w);
        if (adj) { auto const f = adj == 1 ? std::ios::left : adj == 2 ? std::ios::right : std::ios::internal; x.setf(f, std::ios::adjustfield); y.setf(f, std::ios::adjustfield); }
        if (bad) { x.setstate(bad == 1 ? std::ios::failbit : std::ios::eofbit); y.setstate(bad == 1 ? std::ios::failbit : std::ios::eofbit); }
        x << v << '|' << v; y << a << '|' << a;
        SEQ_CHECK(x.str() == y.str() && x.rdstate() == y.rdstate() && (bad || x.width() == y.width()), "printing %zu characters with width %d gives %s instead of %s", a.size(), w, x.str().c_str(), y.str().c_str());
    }
    std::size_t const room = std::size_t(seq::choose(6)); int const w = seq::choose(6); bool const left = seq::flip();
    Limited<char> b(room), b2(room); std::ostream o(&b), o2(&b2); o << std::setfill('.') << std::setw(w) << (left ? std::left : std::right) << v; o2 << std::setfill('.') << std::setw(w) << (left ? std::left : std::right) << a;
    SEQ_CHECK(b.s == b2.s && o.good() == o2.good() && o.width() == 0, "output to a limited stream"); 
    seq::count(1);
}
void hashes() {
    auto const & as = T<char, std::char_traits<char>>::all(4); std::string const & a = as[std::size_t(seq::choose(int(as.size())))]; std::string const b(a); std::unique_ptr<char[]> p(new char[a.size()]); std::copy(a.begin(), a.end(), p.get());
    sharemind::StringView const v(p.get(), a.size()), w(b); SEQ_CHECK(boost::hash<sharemind::StringView>()(v) == boost::hash<sharemind::StringView>()(w) && hash_value(v) == hash_value(w), "equal strings hash differently");
    SEQ_CHECK(hash_value(v) == boost::hash<std::string>()(a), "a view hashes unlike its string");
    seq::count(1);
}
constexpr bool constant() { using namespace sharemind::StringViewLiterals; return "abc\0"_sv.size() == 4 && "abc"_sv.substr(1, 1).front() == 'b' && L"x"_sv.size() == 1 && u"xy"_sv[1] == u'y' && U"xyz"_sv.back() == U'z'; }
static_assert(constant(), "");
} // namespace
SEQ_TEST(chars, 0, 0) { T<char, std::char_traits<char>>::pair(seq::thorough() ? 5 : 4, 2); }
SEQ_TEST(chars_long, 0, 0) { T<char, std::char_traits<char>>::pair(2, seq::thorough() ? 4 : 3); }
SEQ_TEST(chars_triples, 0, 0) { T<char, std::char_traits<char>>::pair(seq::thorough() ? 4 : 3, 3); }
SEQ_TEST(wide, 0, 0) { T<wchar_t, std::char_traits<wchar_t>>::pair(3, 2); }
SEQ_TEST(utf16, 0, 0) { T<char16_t, std::char_traits<char16_t>>::pair(3, 2); }
SEQ_TEST(case_insensitive, 0, 0) { T<char, Ci>::pair(seq::thorough() ? 4 : 3, 2); }
SEQ_TEST(slices, 0, 0) { switch (seq::choose(3)) { case 0: T<char, std::char_traits<char>>::single(5); break; case 1: T<char16_t, std::char_traits<char16_t>>::single(4); break; default: T<char, Ci>::single(4); } }
SEQ_TEST(printing, 0, 0) { print(); }
SEQ_TEST(hashing, 0, 0) { hashes(); }
/* Long strings next to long strings, with long sets of characters. */
namespace { template <typename C, typename Tr> void longStrings() {
    using S = std::basic_string<C, Tr>; using X = T<C, Tr>; using V = sharemind::BasicStringView<C, Tr>; static std::vector<S> ss;
    if (ss.empty()) for (int n : {1, 20, 129, 256, 300}) for (int k = 0; k < 4; ++k) { S s; for (int i = 0; i < n; ++i) s += C(k == 0 ? 'a' : k == 1 ? 'a' + (i == n - 1) : k == 2 ? 'a' + i % 19 : (i % 3 ? 'a' : 'b') + (i > n / 2)); ss.push_back(s); }
    S const a = ss[std::size_t(seq::choose(int(ss.size())))], b = ss[std::size_t(seq::choose(int(ss.size())))]; typename X::Buf const ba(a), bb(b); V const v(ba.v()), w(bb.v()); C const * const cz = b.c_str(); std::size_t const n = b.size();
    int const c = X::sgn(a.compare(b));
    SEQ_CHECK(X::sgn(v.compare(w)) == c && X::sgn(v.compare(cz)) == c && X::sgn(v.compare(w.data(), n)) == c && (v == w) == (c == 0) && (v < w) == (c < 0) && (v <= w) == (c <= 0) && (v > b) == (c > 0) && (b != v) == (c != 0), "strings of %zu and %zu characters compare wrongly", a.size(), n);
    for (std::size_t p : {std::size_t(0), std::size_t(1), std::size_t(15), std::size_t(100), a.size() / 2, a.size(), a.size() + 1, std::size_t(254), V::npos}) {
        X::eq(v.find(w, p), a.find(b, p), "find", a, b, p); X::eq(v.rfind(w, p), a.rfind(b, p), "rfind", a, b, p); X::eq(v.findFirstOf(w, p), a.find_first_of(b, p), "findFirstOf", a, b, p); X::eq(v.findLastOf(w, p), a.find_last_of(b, p), "findLastOf", a, b, p); X::eq(v.findFirstNotOf(w, p), a.find_first_not_of(b, p), "findFirstNotOf", a, b, p); X::eq(v.findLastNotOf(w, p), a.find_last_not_of(b, p), "findLastNotOf", a, b, p);
        X::eq(v.find(cz, p), a.find(cz, p), "find C string", a, b, p); X::eq(v.rfind(cz, p), a.rfind(cz, p), "rfind C string", a, b, p); X::eq(v.findFirstNotOf(cz, p), a.find_first_not_of(cz, p), "findFirstNotOf C string", a, b, p); X::eq(v.findLastNotOf(cz, p), a.find_last_not_of(cz, p), "findLastNotOf C string", a, b, p);
        X::eq(v.find(b.back(), p), a.find(b.back(), p), "find character", a, b, p); X::eq(v.rfind(b.back(), p), a.rfind(b.back(), p), "rfind character", a, b, p); X::eq(v.findFirstNotOf(b[0], p), a.find_first_not_of(b[0], p), "findFirstNotOf character", a, b, p); X::eq(v.findLastNotOf(b[0], p), a.find_last_not_of(b[0], p), "findLastNotOf character", a, b, p);
        if (p > a.size()) continue;
        for (std::size_t k : {std::size_t(17), std::size_t(256), V::npos}) {
            X::same(v.substr(p, k), a.substr(p, k), "substr", a, a, p, v); SEQ_CHECK(X::sgn(v.compare(p, k, w)) == X::sgn(a.compare(p, k, b)), "comparing part of a long string"); SEQ_CHECK(X::sgn(v.compare(p, k, w, n / 3, k)) == X::sgn(a.compare(p, k, b, n / 3, k)), "comparing parts of long strings");
            std::vector<C> d(a.size() + 1, C('#')); SEQ_CHECK(v.copy(d.data(), k, p) == std::min(k, a.size() - p) && S(d.data(), std::min(k, a.size() - p)) == a.substr(p, k) && d[std::min(k, a.size() - p)] == C('#'), "copy of part of a long string"); }
        X::same(v.left(p), a.substr(0, p), "left", a, a, p, v); X::same(v.right(p), a.substr(a.size() - p), "right", a, a, p, v);
    }
    bool const sw = a.size() >= n && a.compare(0, n, b) == 0, ew = a.size() >= n && a.compare(a.size() - n, n, b) == 0; SEQ_CHECK(v.startsWith(w) == sw && v.startsWith(cz) == sw && v.endsWith(w) == ew && v.endsWith(cz) == ew, "prefix or suffix of a long string");
    X::same(v.trimmed(w), X::ltrim(X::rtrim(a, b), b), "trimmed", a, b, 0, v); SEQ_CHECK(v.str() == a, "str() of a long string");
    seq::count(9);
} }
SEQ_TEST(long_strings, 0, 0) { switch (seq::choose(3)) { case 0: longStrings<char, std::char_traits<char>>(); break; case 1: longStrings<char16_t, std::char_traits<char16_t>>(); break; default: longStrings<char, Ci>(); } }
SEQ_TEST(long_hashes_and_printing, 0, 0) {
    static int const sizes[] = {1, 8, 16, 17, 33, 100, 257, 1000, 5000}; int const n = sizes[seq::choose(9)], at = seq::choose(4) * (n - 1) / 3; std::string a(std::size_t(n), 'x'), b(a); b[std::size_t(at)] = char('y' + seq::choose(3));
    sharemind::StringView const v(a), w(b), a2(a.data(), a.size()); SEQ_CHECK(hash_value(v) == hash_value(a2) && hash_value(v) == boost::hash<std::string>()(a) && hash_value(w) == boost::hash<std::string>()(b), "a view hashes unlike its string"); SEQ_CHECK(hash_value(v) != hash_value(w), "strings of %d characters which differ at %d hash to the same value", n, at);
    for (int width : {0, n - 1, n, n + 1, n + 70}) for (bool left : {false, true}) { std::ostringstream x, y; x << std::setfill('.') << std::setw(width) << (left ? std::left : std::right) << v << '|' << w; y << std::setfill('.') << std::setw(width) << (left ? std::left : std::right) << a << '|' << b; SEQ_CHECK(x.str() == y.str() && x.good(), "printing %d characters with width %d", n, width); }
    seq::count(10);
}
