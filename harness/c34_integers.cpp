// C34: comparisons, sign tests and sign conversions for all values of small types and all boundary values of large ones.
#include "seq.h"
#include <utility>
#include <cstdint>
#include <limits>
#include <type_traits>
#include <vector>
#include <sharemind/EnumToUnderlying.h>
#include <sharemind/IntegralComparisons.h>
#include <sharemind/IsPowerOfTwo.h>
#include <sharemind/Max.h>
#include <sharemind/MaybeEnumToUnderlying.h>
#include <sharemind/Min.h>
#include <sharemind/SignedToUnsigned.h>
#include <sharemind/ToSigned.h>
#include <sharemind/ToUnsigned.h>
#include <sharemind/integer_demotion.h>

namespace {
using namespace sharemind;
using Wide = __int128;
template <typename A, typename B> void compare(A a, B b) {
    Wide const x = a, y = b;
    bool const ok = integralLess(a, b) == (x < y) && integralLessThan(a, b) == (x < y) && integralLessEqual(a, b) == (x <= y) && integralEqual(a, b) == (x == y) && integralNotEqual(a, b) == (x != y)
        && integralGreaterEqual(a, b) == (x >= y) && integralGreater(a, b) == (x > y) && integralGreaterThan(a, b) == (x > y);
    SEQ_CHECK(ok, "comparing the %zu bit %s %lld with the %zu bit %s %lld", sizeof(A) * 8, std::is_signed<A>::value ? "signed" : "unsigned", static_cast<long long>(a), sizeof(B) * 8, std::is_signed<B>::value ? "signed" : "unsigned", static_cast<long long>(b));
}
template <typename A> void signs(A a) {
    Wide const x = a;
    SEQ_CHECK(integralPositive(a) == (x > 0) && integralNegative(a) == (x < 0) && integralNonNegative(a) == (x >= 0) && integralNonPositive(a) == (x <= 0) && integralZero(a) == (x == 0) && integralNonZero(a) == (x != 0), "sign of %lld", static_cast<long long>(a));
    seq::count(1);
}
template <typename A> void conversions(A a) {
    using S = typename std::make_signed<A>::type; using U = typename std::make_unsigned<A>::type; A const c(a);
    static_assert(std::is_same<std::decay_t<decltype(toSigned(a))>, std::conditional_t<std::is_unsigned<A>::value, S, A>>::value && std::is_same<std::decay_t<decltype(toUnsigned(a))>, std::conditional_t<std::is_signed<A>::value, U, A>>::value, "types");
    auto s = toSigned(a); auto u = toUnsigned(c); Wide const mod = Wide(1) << sizeof(A) * 8;
    SEQ_CHECK(s == S(a) && Wide(u) == (Wide(a) + mod) % mod, "converting %lld", static_cast<long long>(a));
    SEQ_CHECK(toSigned(u) == S(a) && toUnsigned(s) == U(a), "converting %lld back", static_cast<long long>(a));
    Wide const x = a; bool p = false; for (int i = 0; i < 64; ++i) p = p || x == Wide(1) << i; SEQ_CHECK(isPowerOfTwo(a) == p, "%lld is%s a power of two", static_cast<long long>(a), p ? "" : " not");
    seq::count(1);
}
template <typename S> std::enable_if_t<std::is_signed<S>::value> stou(S s) { SEQ_CHECK((Wide(signedToUnsigned(s)) == (s < 0 ? Wide(s) + (Wide(1) << sizeof(S) * 8) : Wide(s))), "signedToUnsigned(%lld)", static_cast<long long>(s)); static_assert(std::is_same<decltype(signedToUnsigned(s)), std::make_unsigned_t<S>>::value, ""); }
template <typename S> std::enable_if_t<!std::is_signed<S>::value> stou(S) {}
template <typename T> std::vector<T> edges() {
    std::vector<T> r; using L = std::numeric_limits<T>; std::vector<Wide> base{0, L::min(), L::max()}; for (int i = 6; i < 65; ++i) if (i < 9 || i == 15 || i == 16 || i == 31 || i == 32 || i > 61) { base.push_back(Wide(1) << i); base.push_back(-(Wide(1) << i)); }
    for (Wide b : base) for (int d = -2; d <= 2; ++d) if (b + d >= L::min() && b + d <= L::max()) r.push_back(T(b + d));
    return r;
}
template <typename A, typename B> void edgePairs() { for (A a : edges<A>()) for (B b : edges<B>()) compare(a, b); seq::count(edges<A>().size() * edges<B>().size()); }
template <typename A> void row() {
    edgePairs<A, std::int8_t>(); edgePairs<A, std::uint8_t>(); edgePairs<A, std::int16_t>(); edgePairs<A, std::uint16_t>(); edgePairs<A, std::int32_t>(); edgePairs<A, std::uint32_t>(); edgePairs<A, std::int64_t>(); edgePairs<A, std::uint64_t>();
    edgePairs<A, long long>(); edgePairs<A, unsigned long long>(); edgePairs<A, char>(); edgePairs<A, wchar_t>(); edgePairs<A, char16_t>(); edgePairs<A, char32_t>();
    for (A a : edges<A>()) { signs(a); conversions(a); stou(a); compare(a, true); compare(false, a); }
}
template <typename A, typename B> void column(A a, B) { Wide const lo = std::numeric_limits<B>::min(), hi = std::numeric_limits<B>::max(); for (Wide b = lo; b <= hi; ++b) { compare(a, B(b)); if ((b & 0xffff) == 0xffff) seq::progress(); } seq::count(std::uint64_t(hi - lo + 1)); }
enum Small : std::uint8_t { S0 = 0, S1 = 255 }; enum class Sig : std::int16_t { A = -32768, B = 7, C = 32767 }; enum class Big : std::uint64_t { A = ~0ull, B = 0 };
} // namespace
SEQ_TEST(bytes, 0, 0) { int const n = seq::choose(256); auto s = std::int8_t(n - 128); auto u = std::uint8_t(n);
    column(s, std::int8_t()); column(s, std::uint8_t()); column(u, std::int8_t()); column(u, std::uint8_t()); signs(s); signs(u); conversions(s); conversions(u); stou(s); conversions(char(n)); signs(char(n));
    column(s, std::int16_t()); column(s, std::uint16_t()); column(u, std::int16_t()); column(u, std::uint16_t()); column(s, bool()); column(u, bool()); }
SEQ_TEST(shorts, 0, 0) { int const h = seq::choose(256); for (int l = 0; l < 256; ++l) { auto u = std::uint16_t(h << 8 | l); auto s = std::int16_t(u); signs(s); signs(u); conversions(s); conversions(u); stou(s); column(s, std::int8_t()); column(s, std::uint8_t()); column(u, std::int8_t()); column(u, std::uint8_t());
    SEQ_CHECK(demote_integer<std::uint8_t>(u) == std::uint8_t(l) && demote_integer<std::int8_t>(s) == std::int8_t(l) && demote_integer<bool>(u) == (u != 0), "demotion of %u", unsigned(u));
    if (seq::thorough() && l % 8 == 0) { column(s, std::int16_t()); column(s, std::uint16_t()); column(u, std::int16_t()); column(u, std::uint16_t()); } } }
SEQ_TEST(boundaries, 0, 0) {
    switch (seq::choose(12)) { case 0: row<std::int8_t>(); break; case 1: row<std::uint8_t>(); break; case 2: row<std::int16_t>(); break; case 3: row<std::uint16_t>(); break; case 4: row<std::int32_t>(); break; case 5: row<std::uint32_t>(); break; case 6: row<std::int64_t>(); break; case 7: row<std::uint64_t>(); break; case 8: row<long long>(); break; case 9: row<unsigned long long>(); break; case 10: row<char>(); break; case 11: row<wchar_t>(); break; }
}
SEQ_TEST(minmax, 0, 0) {
    int v[4]; int const n = 1 + seq::choose(4); for (int i = 0; i < n; ++i) v[i] = seq::choose(4) * 3 - 5;
    int lo = v[0], hi = v[0]; for (int i = 1; i < n; ++i) { if (v[i] < lo) lo = v[i]; if (v[i] > hi) hi = v[i]; }
    int const w[4] = {v[0], n > 1 ? v[1] : 0, n > 2 ? v[2] : 0, n > 3 ? v[3] : 0};
    int a, b; switch (n) { case 1: a = sharemind::min(v[0]); b = sharemind::max(v[0]); break; case 2: a = sharemind::min(v[0], v[1]); b = sharemind::max(v[0], v[1]); break; case 3: a = sharemind::min(v[0], v[1], v[2]); b = sharemind::max(v[0], v[1], v[2]); break; default: a = sharemind::min(v[0], v[1], v[2], v[3]); b = sharemind::max(v[0], v[1], v[2], v[3]); }
    SEQ_CHECK(a == lo && b == hi, "minimum %d, maximum %d of %d numbers instead of %d and %d", a, b, n, lo, hi); for (int i = 0; i < n; ++i) SEQ_CHECK(v[i] == w[i], "arguments change");
}
template <std::size_t ... I> void manyArguments(std::index_sequence<I...>) {
    constexpr int n = int(sizeof...(I)); int const at = seq::choose(n), at2 = seq::choose(n); int v[n]; for (int i = 0; i < n; ++i) v[i] = 40 + (i * 7) % 5; v[at] = 3; v[at2] = 99; if (at == at2) return;
    SEQ_CHECK(sharemind::min(v[I]...) == 3 && sharemind::max(v[I]...) == 99, "minimum %d and maximum %d of %d numbers, instead of the numbers %d and %d", sharemind::min(v[I]...), sharemind::max(v[I]...), n, at, at2); seq::count(1);
}
SEQ_TEST(minmax_many, 0, 0) { switch (seq::choose(7)) { case 0: manyArguments(std::make_index_sequence<5>()); break; case 1: manyArguments(std::make_index_sequence<6>()); break; case 2: manyArguments(std::make_index_sequence<7>()); break; case 3: manyArguments(std::make_index_sequence<8>()); break; case 4: manyArguments(std::make_index_sequence<9>()); break; case 5: manyArguments(std::make_index_sequence<16>()); break; case 6: manyArguments(std::make_index_sequence<33>()); break; } }
SEQ_TEST(enumerations, 0, 0) {
    for (int i = 0; i < 256; ++i) { SEQ_CHECK(enumToUnderlying(Small(i)) == i && maybeEnumToUnderlying(Small(i)) == i, "enumeration value %d", i); auto const e = Small(i); SEQ_CHECK(enumToUnderlying(e) == i && maybeEnumToUnderlying(e) == i, "enumeration value %d", i); }
    for (int i = -32768; i < 32768; ++i) { Sig e = Sig(i); SEQ_CHECK(enumToUnderlying(e) == i && maybeEnumToUnderlying(e) == i && maybeEnumToUnderlying(std::int16_t(i)) == i, "enumeration value %d", i); }
    for (std::uint64_t v : edges<std::uint64_t>()) { Big const e = Big(v); SEQ_CHECK(enumToUnderlying(e) == v && maybeEnumToUnderlying(e) == v && maybeEnumToUnderlying(v) == v, "enumeration value"); }
    static_assert(std::is_same<decltype(enumToUnderlying(Sig::A)), std::int16_t>::value && std::is_same<decltype(maybeEnumToUnderlying(Big::A)), std::uint64_t>::value && std::is_same<decltype(maybeEnumToUnderlying(1)), int>::value, "");
}
