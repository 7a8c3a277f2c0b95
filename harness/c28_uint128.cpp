// C28: uint128_t next to the compiler's 128 bit integers, over a lattice of all halves made of boundary values.
#include "seq.h"
#include <cstdint>
#include <ios>
#include <limits>
#include <sstream>
#include <streambuf>
#include <string>
#include <vector>
#include <sharemind/uint128_t.h>

namespace {
using X = sharemind::uint128_t; using R = unsigned __int128;
X real(R v) { return X(std::uint64_t(v >> 64), std::uint64_t(v)); }
R ref(X const & x) { return (R(x.upper()) << 64) | x.lower(); }
std::string text(R v, unsigned base, bool up) { if (v == 0) return "0"; std::string s; while (v) { R const q = v / R(base); s.insert(s.begin(), (up ? "0123456789ABCDEF" : "0123456789abcdef")[unsigned(v - q * base)]); v = q; } return s; }
void eq(X const & x, R w, char const * what, R a, R b) { if (ref(x) != w) seq::fail("%s of %s and %s is %s instead of %s", what, text(a, 16, 0).c_str(), text(b, 16, 0).c_str(), text(ref(x), 16, 0).c_str(), text(w, 16, 0).c_str()); }
void is(bool g, bool w, char const * what, R a, R b) { if (g != w) seq::fail("%s of %s and %s is %d", what, text(a, 16, 0).c_str(), text(b, 16, 0).c_str(), int(g)); }
std::vector<R> const & values() {
    static std::vector<R> v;
    if (v.empty()) {
        std::vector<std::uint64_t> h{0, 1, ~0ull, 1ull << 63, 0xffffffffull, 0x100000000ull, 0xffffffff00000000ull, 0x8000000080000000ull, 0x7fffffffffffffffull, 0x123456789abcdef1ull, ~0ull - 1};
        if (seq::thorough()) for (auto x : {0x2ull, 0xaull, 0x7fffffffull, 0x80000000ull, 0xfffffffeffffffffull, 0x5555555555555555ull, 0x100000001ull, 0xffffffff00000001ull, 0xedcba98765432100ull}) h.push_back(x);
        for (auto a : h) for (auto b : h) v.push_back((R(a) << 64) | b);
        for (unsigned i = 0; i < 128; i += seq::thorough() ? 5 : 21) { v.push_back(R(1) << i); v.push_back((R(1) << i) - 1); v.push_back(R(0) - (R(1) << i)); }
    }
    return v;
}
template <typename V> void from() { V const f = std::numeric_limits<V>::max(); for (V v : {V(0), V(1), f, V(f / 2), V(f / 2 + 1), V(f - 1), V(f / 3)}) { if (v < V(0)) continue; X const x(v); eq(x, R(v), "conversion", R(v), sizeof(V)); X y(~0ull, ~0ull); y = v; eq(y, R(v), "assigned conversion", R(v), sizeof(V)); X const z = v; eq(z, R(v), "conversion", R(v), sizeof(V)); } }
} // namespace
SEQ_TEST(pairs, 0, 0) {
    auto const & v = values(); R const a = v[std::size_t(seq::choose(int(v.size())))]; X const x = real(a); eq(x, a, "halves", a, a);
    for (R const b : v) {
        X const y = real(b);
        eq(x + y, a + b, "sum", a, b); eq(x - y, a - b, "difference", a, b); eq(x * y, a * b, "product", a, b); eq(x & y, a & b, "and", a, b); eq(x | y, a | b, "or", a, b); eq(x ^ y, a ^ b, "xor", a, b);
        is(x == y, a == b, "==", a, b); is(x != y, a != b, "!=", a, b); is(x < y, a < b, "<", a, b); is(x <= y, a <= b, "<=", a, b); is(x > y, a > b, ">", a, b); is(x >= y, a >= b, ">=", a, b);
        X z(x); eq(z += y, a + b, "+=", a, b); eq(z, a + b, "+=", a, b); z = x; eq(z -= y, a - b, "-=", a, b); eq(z, a - b, "-=", a, b); z = x; z *= y; eq(z, a * b, "*=", a, b); z = x; z &= y; eq(z, a & b, "&=", a, b); z = x; z |= y; eq(z, a | b, "|=", a, b); z = x; z ^= y; eq(z, a ^ b, "^=", a, b);
        if (b) { eq(x / y, a / b, "quotient", a, b); eq(x % y, a % b, "remainder", a, b); z = x; z /= y; eq(z, a / b, "/=", a, b); z = x; z %= y; eq(z, a % b, "%=", a, b); }
        else { int t = 0; z = x; try { (void) (x / y); } catch (X::division_by_zero_error const &) { ++t; } try { (void) (x % y); } catch (std::runtime_error const &) { ++t; } try { z /= y; } catch (X::division_by_zero_error const &) { ++t; } try { z %= y; } catch (X::division_by_zero_error const &) { ++t; } SEQ_CHECK(t == 4, "division by zero isn't reported"); eq(z, a, "failed division", a, b); }
    }
    X z(x); z += z; eq(z, a + a, "+= itself", a, a); z = x; z -= z; eq(z, 0, "-= itself", a, a); z = x; z *= z; eq(z, a * a, "*= itself", a, a); if (a) { z = x; z /= z; eq(z, 1, "/= itself", a, a); } z = x; z = z; eq(z, a, "self-assignment", a, a);
    seq::count(v.size());
}
SEQ_TEST(single, 0, 0) {
    auto const & v = values(); R const a = v[std::size_t(seq::choose(int(v.size())))]; X const x = real(a);
    is(!x, !a, "!", a, a); eq(~x, ~a, "~", a, a); eq(-x, -a, "negation", a, a);
    { X z(x); eq(++z, a + 1, "++", a, a); eq(z, a + 1, "++", a, a); z = x; eq(z++, a, "post++", a, a); eq(z, a + 1, "post++", a, a); z = x; eq(--z, a - 1, "--", a, a); eq(z, a - 1, "--", a, a); z = x; eq(z--, a, "post--", a, a); eq(z, a - 1, "post--", a, a); }
    for (unsigned s = 0; s < 128; ++s) { eq(x << s, a << s, "<<", a, s); eq(x >> s, a >> s, ">>", a, s); X z(x); eq(z <<= s, a << s, "<<=", a, s); eq(z, a << s, "<<=", a, s); z = x; eq(z >>= s, a >> s, ">>=", a, s); eq(z, a >> s, ">>=", a, s); }
    for (int k = 0; k < 12; ++k) {
        unsigned const base = k % 3 == 0 ? 10 : k % 3 == 1 ? 16 : 8; bool const up = (k / 3) & 1, pos = k / 6;
        std::ostringstream o; o << (base == 10 ? std::dec : base == 16 ? std::hex : std::oct); if (up) o << std::uppercase; if (pos) o << std::showpos;
        o << '<' << x << '>' << x; std::string t = text(a, base, up); if (pos && a) t = "+" + t;
        SEQ_CHECK(o.str() == "<" + t + ">" + t, "%s printed in base %u as %s", text(a, 16, 0).c_str(), base, o.str().c_str());
    }
    using sharemind::demote_integer;
    is(demote_integer<bool>(x), a != 0, "demotion to bool", a, a); SEQ_CHECK(demote_integer<std::uint8_t>(x) == std::uint8_t(a) && demote_integer<std::uint16_t>(x) == std::uint16_t(a) && demote_integer<std::uint32_t>(x) == std::uint32_t(a) && demote_integer<std::uint64_t>(x) == std::uint64_t(a), "demotion of %s", text(a, 16, 0).c_str());
    std::uint64_t const l = std::uint64_t(a); SEQ_CHECK(demote_integer<std::uint8_t>(l) == std::uint8_t(l) && demote_integer<std::uint32_t>(l) == std::uint32_t(l) && demote_integer<std::uint16_t>(std::uint32_t(l)) == std::uint16_t(l) && demote_integer<bool>(l) == (l != 0) && demote_integer<bool>(std::uint8_t(l)) == (std::uint8_t(l) != 0), "demotion of %llx", (unsigned long long) l);
    eq(x + 1, a + 1, "sum with int", a, 1); eq(1 + x, a + 1, "sum with int", a, 1); eq(0 - x, -a, "difference with int", 0, a); eq(x / 10u, a / 10, "quotient with int", a, 10); is(x == 0, a == 0, "== 0", a, 0);
    X const c(x); eq(c, a, "copy", a, a); X d; d = c; eq(d, a, "assignment", a, a); X e(static_cast<X &&>(d)); eq(e, a, "move", a, a);
    from<bool>(); from<std::uint8_t>(); from<std::uint16_t>(); from<std::uint32_t>(); from<std::uint64_t>(); from<int>(); from<long>(); from<short>(); from<signed char>();
    seq::count(128);
}
