// C32: every presentation of every pair of short strings (with embedded zeros and characters above 127).
#include "seq.h"
#include <array>
#include <cstring>
#include <forward_list>
#include <list>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>
#include <sharemind/Range.h>
#include <sharemind/StringHashTablePredicate.h>
#include <sharemind/StringHasher.h>
#include <sharemind/StringView.h>

namespace {
std::string show(std::string const & s) { std::string r = "\""; char b[8]; for (unsigned char c : s) if (c >= 32 && c < 127) r += char(c); else { std::snprintf(b, sizeof b, "\\%03o", c); r += b; } return r + "\""; }
char const alphabet[] = {'a', 'b', '\0', '\377'};
std::string input(int max) { std::string s; int const n = seq::choose(max + 1); for (int i = 0; i < n; ++i) s += alphabet[seq::choose(4)]; return s; }
/* A range with its own end type, which can be traversed only once at a time and refuses to move beyond the end. */
struct Bounded {
    std::string s;
    struct Stop {};
    struct It {
        using iterator_category = std::input_iterator_tag; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = char const *; using reference = char const &;
        std::string const * s; std::size_t i;
        char const & operator*() const { SEQ_CHECK(i < s->size(), "read past the end of a range"); return (*s)[i]; }
        It & operator++() { SEQ_CHECK(i < s->size(), "moved past the end of a range"); ++i; return *this; }
        It operator++(int) { It r(*this); ++*this; return r; }
        friend bool operator==(It const & a, It const & b) { return a.i == b.i; } friend bool operator!=(It const & a, It const & b) { return a.i != b.i; }
    };
    It begin() const { return {&s, 0}; } It end() const { return {&s, s.size()}; }
};
/* Calls f(name, presentation) for every presentation of s */
template <typename F> void forAll(std::string const & s, F && f) {
    { std::string m(s); f("string", m); } { std::string const & c = s; f("const string", c); }
    { std::vector<char> v(s.begin(), s.end()); f("vector", v); auto const & c = v; f("const vector", c); }
    { std::list<char> const l(s.begin(), s.end()); f("list", l); }
    { std::forward_list<char> l(s.begin(), s.end()); f("forward_list", l); }
    { std::vector<char> const v(s.begin(), s.end()); sharemind::StringView const w(v.data(), v.size()); f("StringView", w); }
    { Bounded b{s}; f("input range", b); }
    if (s.size() == 2) { std::array<char, 2> a{{s[0], s[1]}}; f("array<2>", a); char p[2] = {s[0], s[1]}; f("char[2]", p); }
    if (std::strlen(s.c_str()) == s.size()) { std::vector<char> z(s.c_str(), s.c_str() + s.size() + 1); char const * const p = z.data(); f("char const *", p); char * q = z.data(); f("char *", q); }
}
template <typename P> void predicate(P const & p, std::size_t hash, std::string const & s, std::string const & t, char const * what) {
    SEQ_CHECK(p.hash() == hash, "the predicate of a %s has hash %zx instead of %zx", what, p.hash(), hash);
    SEQ_CHECK(p(t) == (s == t), "the predicate of the %s %s %s %s", what, show(s).c_str(), s == t ? "does not match" : "matches", show(t).c_str());
}
void compare(std::string const & s, std::string const & t);
void all(int max) { std::string const s = input(max), t = input(max); compare(s, t); }
void compare(std::string const & s, std::string const & t) {
    seq::op("%s and %s", show(s.substr(0, 40)).c_str(), show(t.substr(0, 40)).c_str());
    using H = sharemind::StringHasher; H const h{}; H::transparent_key_equal const eq{};
    std::size_t const want = h(s); bool const same = s == t;
    forAll(s, [&](char const * what, auto & x) {
        SEQ_CHECK(h(x) == want, "the hash of the %s %s differs from the one of the string", what, show(s).c_str());
        SEQ_CHECK(eq(x, t) == same && eq(t, x) == same, "the %s %s and the string %s compare wrong", what, show(s).c_str(), show(t).c_str());
        SEQ_CHECK(h(x) == want, "comparing changes the hash of the %s %s", what, show(s).c_str());
        auto p = sharemind::getOrCreateTemporaryStringHashTablePredicate(x); predicate(p, want, s, t, what); predicate(p, want, s, t, what);
        auto const q = p; predicate(q, want, s, t, what);
        auto && same_ = sharemind::getOrCreateTemporaryStringHashTablePredicate(p); SEQ_CHECK(&same_ == &p, "a predicate is not its own predicate"); auto && c = sharemind::getOrCreateTemporaryStringHashTablePredicate(q); SEQ_CHECK(&c == &q, "a constant predicate is not its own predicate");
        auto const g = sharemind::getOrCreateTemporaryStringHashTablePredicate(x, want ^ 5u); predicate(g, want ^ 5u, s, t, what); p = g; predicate(p, want ^ 5u, s, t, what);
        seq::count(1);
    });
    // Constant arrays are terminated strings to the hasher:
    if (s.size() == 2 && std::strlen(s.c_str()) == 2) { char const c[3] = {s[0], s[1], 0}; SEQ_CHECK(h(c) == want && eq(c, t) == same && eq(t, c) == same, "the array %s", show(s).c_str()); }
    SEQ_CHECK(h(s.begin(), s.end()) == want && h(s.data(), s.data() + s.size()) == want, "the hash of iterators of %s", show(s).c_str());
    SEQ_CHECK(!same || h(t) == want, "equal strings have different hashes");
    SEQ_CHECK(eq(s, t) == same && eq(t, s) == same, "%s and %s compare wrong", show(s).c_str(), show(t).c_str());
}
/* Long strings: differences everywhere, prefixes whose lengths are equal modulo 256. */
void large() {
    static std::size_t const ns[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1024, 5000}; std::size_t const n = ns[seq::choose(18)]; std::string s; for (std::size_t i = 0; i < n; ++i) s += char('a' + i * 7 % 26); if (seq::flip()) s[n / 2] = '\0';
    std::string t(s); switch (seq::choose(8)) { case 0: break; case 1: t[0] ^= 1; break; case 2: t[n / 2] ^= 1; break; case 3: t[n - 1] ^= 1; break; case 4: t.pop_back(); break; case 5: t += 'a'; break; case 6: t.append(256, 'a'); break; default: t = s.substr(0, n % 256); }
    compare(s, t); compare(t, s);
    sharemind::StringHasher const h{}; for (std::size_t at : {std::size_t(0), std::size_t(1), n / 3, n / 2, n - 2, n - 1}) { bool differs = false; for (int k = 1; k < 4; ++k) { std::string u(s); u[at] = char(u[at] + k * 3); differs |= h(u) != h(s); } SEQ_CHECK(differs, "the hash of %zu characters does not depend on character %zu", n, at); }
}
} // namespace
SEQ_TEST(presentations, 0, 0) { all(seq::thorough() ? 5 : 4); }
SEQ_TEST(long_strings, 0, 0) { large(); }
