// C47: every literal text of up to three characters, and long and boundary texts, instantiated for several maxima, against a run-time model; texts which must be rejected are given to the compiler.
// CFLAGS: -O0 -g0
#include "seq.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <sharemind/CstddefLiterals.h>
#include <sharemind/CstdintLiterals.h>

namespace { template <std::uintmax_t M> struct WithMax; }
namespace std { template <std::uintmax_t M> struct numeric_limits<WithMax<M>> { static constexpr std::uintmax_t max() { return M; } }; }
namespace {
template <std::uintmax_t M> struct Of { SHAREMIND_INTEGERLITERAL_SIMPLE_TEMPLATE(Text, WithMax<M>) };
using namespace sharemind;
using U = std::uintmax_t;
using Wide = unsigned __int128;
struct Result { std::string text; U max; bool valid; U base; bool overflow; U value; U digits; std::size_t chars; };
template <typename L, bool = L::valid> struct Read { static Result get(std::string t, U max) { return {t, max, true, L::base, L::overflow, L::value, L::digits, L::chars}; } };
template <typename L> struct Read<L, false> { static Result get(std::string t, U max) { return {t, max, false, 0, false, 0, 0, L::chars}; } };
Result model(std::string const & t, U max) {
    Result r{t, max, true, 10, false, 0, 0, t.size()}; std::string d = t;
    if (t.size() > 1 && t[0] == '0' && (t[1] == 'x' || t[1] == 'X')) { r.base = 16; d = t.substr(2); }
    else if (t[0] == '0') { r.base = 8; d = t.substr(1); }
    Wide v = 0, cap = Wide(1) << 100; U low = 0;
    for (char c : d) {
        unsigned x = c >= '0' && c <= '9' ? unsigned(c - '0') : c >= 'a' && c <= 'f' ? unsigned(c - 'a' + 10) : c >= 'A' && c <= 'F' ? unsigned(c - 'A' + 10) : 99u;
        if (x >= r.base) { r.valid = false; return Result{t, max, false, 0, false, 0, 0, t.size()}; }
        v = v * r.base + x; if (v > cap) v = cap; low = low * r.base + x; ++r.digits;
    }
    r.overflow = v > max; r.value = low; return r;
}
void verify(Result const & g) {
    Result const e = model(g.text, g.max); char const * t = g.text.c_str();
    SEQ_CHECK(g.valid == e.valid, "literal %s is %s", t, g.valid ? "accepted although it is invalid" : "not accepted");
    SEQ_CHECK(g.chars == e.chars, "literal %s has %zu characters", t, g.chars);
    if (e.valid) {
        SEQ_CHECK(g.base == e.base && g.digits == e.digits, "literal %s has base %llu and %llu digits", t, (unsigned long long)g.base, (unsigned long long)g.digits);
        SEQ_CHECK(g.overflow == e.overflow, "literal %s %s %llu", t, g.overflow ? "is said to overflow" : "is not said to overflow", (unsigned long long)g.max);
        SEQ_CHECK(g.value == e.value, "literal %s has the value %llu, not %llu", t, (unsigned long long)g.value, (unsigned long long)e.value);
    }
    seq::count(1);
}
constexpr char alphabet[] = {'0', '1', '7', '8', '9', 'b', 'F', 'x', '.'};
constexpr char firsts[] = {'0', '1', '7', '8', '9'};
template <U Max, char ... Cs> void one() { verify(Read<typename Of<Max>::template Text<Cs...>>::get(std::string{Cs...}, Max)); }
template <U Max, char A, char B, std::size_t ... Is> std::enable_if_t<!(A == '0' && B == 'x')> pair(std::index_sequence<Is...> s) { one<Max, A, B>(); int x[] = {(one<Max, A, B, alphabet[Is]>(), 0)...}; (void)x; }
template <U Max, char A, char B, std::size_t ... Is> std::enable_if_t<(A == '0' && B == 'x')> pair(std::index_sequence<Is...>) { int x[] = {(one<Max, A, B, alphabet[Is]>(), 0)...}; (void)x; }
template <U Max, char A, std::size_t ... Is> void first(std::index_sequence<Is...> s) { one<Max, A>(); int x[] = {(pair<Max, A, alphabet[Is]>(s), 0)...}; (void)x; }
template <U Max, std::size_t ... Is> void all(std::index_sequence<Is...>) { int x[] = {(first<Max, firsts[Is]>(std::make_index_sequence<sizeof(alphabet)>()), 0)...}; (void)x; }
template <U Max> void texts() { all<Max>(std::make_index_sequence<sizeof(firsts)>()); }

/* Boundary texts, computed at compile time: a number in a base, with leading zeros or trailing zeros. */
struct Buf { char c[80]; int n; };
constexpr Buf number(unsigned base, Wide v, int zeros, int shift, bool upper) {
    Buf r{}; if (base != 10) r.c[r.n++] = '0'; if (base == 16) r.c[r.n++] = upper ? 'X' : 'x';
    for (int i = 0; base != 10 && i < zeros; ++i) r.c[r.n++] = '0';
    char rev[80]{}; int m = 0; do { unsigned d = unsigned(v % base); rev[m++] = char(d < 10 ? '0' + d : (upper ? 'A' : 'a') + (d - 10)); v /= base; } while (v);
    while (m) r.c[r.n++] = rev[--m];
    for (int i = 0; i < shift; ++i) r.c[r.n++] = '0';
    return r;
}
template <U Max, typename G, std::size_t ... Is> void spelled(std::index_sequence<Is...>) { one<Max, G::get().c[Is]...>(); }
template <U Max, typename G> void spell() { spelled<Max, G>(std::make_index_sequence<std::size_t(G::get().n)>()); }
template <unsigned Base, U Hi, U Lo, int Zeros, int Shift, bool Upper> struct Gen { static constexpr Buf get() { return number(Base, (Wide(Hi) << 64) | Lo, Zeros, Shift, Upper); } };
template <U Max, U Of, unsigned Base> void edges() {
    spell<Max, Gen<Base, 0, Of, 0, 0, false>>(); spell<Max, Gen<Base, 0, Of - 1, 0, 0, true>>(); spell<Max, Gen<Base, Of == ~U(0), Of + 1, 0, 0, false>>(); spell<Max, Gen<Base, Of == ~U(0), Of + 1, 3, 0, true>>();
    spell<Max, Gen<Base, 0, Of, 2, 0, true>>(); spell<Max, Gen<Base, 0, Of, 0, 1, false>>(); spell<Max, Gen<Base, 0, Of / Base, 0, 1, false>>(); spell<Max, Gen<Base, 0, Of, 30, 0, false>>(); spell<Max, Gen<Base, 0, Of / Base + 1, 0, 1, false>>();
}
template <U Max, unsigned Base, int ... Shifts> void powers(std::integer_sequence<int, Shifts...>) { int x[] = {(spell<Max, Gen<Base, 0, 1, 0, Shifts, false>>(), spell<Max, Gen<Base, 0, Base - 1, 1, Shifts, true>>(), 0)...}; (void)x; }
template <U Max> void bounds() { edges<Max, Max, 8>(); edges<Max, Max, 10>(); edges<Max, Max, 16>(); edges<Max, ~U(0), 8>(); edges<Max, ~U(0), 10>(); edges<Max, ~U(0), 16>();
    powers<Max, 8>(std::make_integer_sequence<int, 46>()); powers<Max, 10>(std::make_integer_sequence<int, 41>()); powers<Max, 16>(std::make_integer_sequence<int, 34>()); }

template <typename T, typename L> void value(L literal, T want, char const * t) { static_assert(std::is_same<L, T>::value, "type of a literal"); SEQ_CHECK(literal == want, "the literal %s has the wrong value", t); seq::count(1); }
#define LIT(T, P, S) value<T>(S ## _ ## P, T(S), #S "_" #P)
#define LITU(T, P, S) value<T>(S ## _ ## P ## _no_overflow, T(S), #S "_" #P "_no_overflow")
#define LITS(T, P, S) value<T>(S ## _ ## P ## _overflow, T(U(S)), #S "_" #P "_overflow")
#define SMALL(T, P) LIT(T, P, 0), LIT(T, P, 1), LIT(T, P, 017), LIT(T, P, 0x7f), LIT(T, P, 0X1a), LIT(T, P, 99), LIT(T, P, 127)
#define SIGNED(T, P) SMALL(T, P), LITS(T, P, 127), LITS(T, P, 128), LITS(T, P, 0xff), LITS(T, P, 65535), LITS(T, P, 4294967295), LITS(T, P, 18446744073709551615), LITS(T, P, 0)
#define UNSIGNED(T, P) SMALL(T, P), LIT(T, P, 0377), LIT(T, P, 255), LIT(T, P, 256), LIT(T, P, 65535), LIT(T, P, 0xffffffff), LIT(T, P, 18446744073709551615), LITU(T, P, 0377), LITU(T, P, 0), LITU(T, P, 0xFf)

struct Attempt { char const * expr; bool ok; };
Attempt const attempts[] = {
    {"0_int8", true}, {"127_int8", true}, {"128_int8", false}, {"128_int8_overflow", true}, {"0x80_int8", false}, {"0200_int8", false}, {"0177_int8", true}, {"08_int8", false}, {"09_int8_overflow", false}, {"1.5_int8", false}, {"1.5_int8_overflow", false},
    {"0b1_int16", false}, {"1'000_int16", false}, {"32768_int16", false}, {"32767_int16", true}, {"1e3_int32", false}, {"9223372036854775808_int64", false}, {"9223372036854775807_int64", true}, {"100000000000000000000000_int64", false}, {"100000000000000000000000_int64_overflow", true},
    {"08_uint8", false}, {"1.0_uint8_no_overflow", false}, {"256_uint8", true}, {"256_uint8_no_overflow", false}, {"255_uint8_no_overflow", true}, {"0x100_uint8_no_overflow", false}, {"0400_uint8_no_overflow", false}, {"65536_uint16_no_overflow", false}, {"18446744073709551616_uint64_no_overflow", false}, {"18446744073709551615_uint64_no_overflow", true},
    {"18446744073709551616_sizeT_no_overflow", false}, {"18446744073709551615_sizeT_no_overflow", true}, {"0x10000000000000000_uintMax_no_overflow", false}, {"09_sizeT", false}, {"0x1p3_sizeT", false}, {"0x8000000000000000_intMax", false}, {"0x7fffffffffffffff_intMax", true},
};
} // namespace
SEQ_TEST(short_texts, 0, 0) { switch (seq::choose(5)) { case 0: texts<13>(); break; case 1: texts<127>(); break; case 2: texts<255>(); break; case 3: texts<U(~U(0) >> 1)>(); break; case 4: texts<~U(0)>(); break; } }
SEQ_TEST(long_texts, 0, 0) { switch (seq::choose(9)) { case 0: bounds<9>(); break; case 1: bounds<127>(); break; case 2: bounds<255>(); break; case 3: bounds<32767>(); break; case 4: bounds<65535>(); break; case 5: bounds<2147483647>(); break; case 6: bounds<4294967295>(); break; case 7: bounds<U(~U(0) >> 1)>(); break; case 8: bounds<~U(0)>(); break; } }
SEQ_TEST(operators, 0, 0) {
    SIGNED(std::int8_t, int8); SIGNED(std::int16_t, int16); SIGNED(std::int32_t, int32); SIGNED(std::int64_t, int64); SIGNED(std::int_fast8_t, intFast8); SIGNED(std::int_fast16_t, intFast16); SIGNED(std::int_fast32_t, intFast32); SIGNED(std::int_fast64_t, intFast64);
    SIGNED(std::int_least8_t, intLeast8); SIGNED(std::int_least16_t, intLeast16); SIGNED(std::int_least32_t, intLeast32); SIGNED(std::int_least64_t, intLeast64); SIGNED(std::intmax_t, intMax); SIGNED(std::intptr_t, intPtr);
    UNSIGNED(std::uint8_t, uint8); UNSIGNED(std::uint16_t, uint16); UNSIGNED(std::uint32_t, uint32); UNSIGNED(std::uint64_t, uint64); UNSIGNED(std::uint_fast8_t, uintFast8); UNSIGNED(std::uint_fast16_t, uintFast16); UNSIGNED(std::uint_fast32_t, uintFast32); UNSIGNED(std::uint_fast64_t, uintFast64);
    UNSIGNED(std::uint_least8_t, uintLeast8); UNSIGNED(std::uint_least16_t, uintLeast16); UNSIGNED(std::uint_least32_t, uintLeast32); UNSIGNED(std::uint_least64_t, uintLeast64); UNSIGNED(std::uintmax_t, uintMax); UNSIGNED(std::uintptr_t, uintPtr); UNSIGNED(std::size_t, sizeT);
}
/* The compiler is asked about each text; what it accepts and rejects is the observable behaviour of the literals. */
SEQ_TEST(rejected, 0, 0) {
    int const n = seq::choose(sizeof(attempts) / sizeof(*attempts)); Attempt const & a = attempts[n];
    std::string c = "printf '#include <sharemind/CstddefLiterals.h>\\n#include <sharemind/CstdintLiterals.h>\\nusing namespace sharemind;\\nauto x = %s;\\n' \"" + std::string(a.expr) + "\" | g++ -std=c++14 -w -fsyntax-only " VERIF_INCLUDES " -x c++ - >/dev/null 2>&1";
    int const r = std::system(c.c_str());
    SEQ_CHECK((r == 0) == a.ok, "the literal %s is %s by the compiler", a.expr, r == 0 ? "accepted" : "rejected"); seq::count(1); seq::allowLeaks();
}
