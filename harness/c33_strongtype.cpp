// C33: every operation of strong types next to the same operation on the wrapped values, for all values of small types.
#include "seq.h"
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include <ostream>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>
#include <sharemind/StrongType.h>

namespace {
using namespace sharemind;
template <typename T> bool eq(T const & a, T const & b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
struct Sink { std::string s; template <typename T> Sink & operator<<(T const & v) { std::ostringstream o; o << +v; s += o.str() + ";"; return *this; } };
template <typename T> using Cmp = StrongType<T, struct CmpTag, StrongTypeHashable, StrongTypeFullyComparable, StrongTypeSwappable, StrongTypeStreamable, StrongTypeStreamableTo<Sink>>;
template <typename T> using Eq = StrongType<T, struct EqTag, StrongTypeBasicComparable, StrongTypeSortComparable>;
template <typename T> using Single = StrongType<T, struct SingleTag, StrongTypeEqualityComparable, StrongTypeInequalityComparable, StrongTypeLessThanComparable, StrongTypeLessOrEqualComparable, StrongTypeGreaterThanComparable, StrongTypeGreaterOrEqualComparable>;
template <typename T> using Arith = StrongType<T, struct ArithTag, StrongTypeAddAssignable, StrongTypeSubAssignable, StrongTypeMulAssignable, StrongTypeDivAssignable, StrongTypeAddAssignableWith<T>, StrongTypeSubAssignableWith<T>, StrongTypeMulAssignableWith<T>, StrongTypeDivAssignableWith<T>, StrongTypeAddAssignableWith<Eq<T>>, StrongTypeSubAssignableWith<Eq<T>>, StrongTypeMulAssignableWith<Eq<T>>, StrongTypeDivAssignableWith<Eq<T>>, StrongTypeIncrementable, StrongTypeDecrementable>;
template <typename T> using Bits = StrongType<T, struct BitsTag, StrongTypeModAssignable, StrongTypeXorAssignable, StrongTypeAndAssignable, StrongTypeOrAssignable, StrongTypeModAssignableWith<T>, StrongTypeXorAssignableWith<T>, StrongTypeAndAssignableWith<T>, StrongTypeOrAssignableWith<T>, StrongTypeXorAssignableWith<Eq<T>>, StrongTypeModAssignableWith<Eq<T>>, StrongTypeAndAssignableWith<Eq<T>>, StrongTypeOrAssignableWith<Eq<T>>, StrongTypePreIncrementable, StrongTypePreDecrementable>;
template <typename T> using Post = StrongType<T, struct PostTag, StrongTypePostIncrementable, StrongTypePostDecrementable>;

template <typename S, typename T> void compare(T const & a, T const & b, char const * what) {
    S x(a), y(b); S const & cx = x;
    SEQ_CHECK((cx == y) == (a == b) && (x != y) == (a != b), "%s: comparing for equality", what);
    SEQ_CHECK((cx < y) == (a < b), "%s: less than", what); SEQ_CHECK(eq(x.get(), a) && eq(y.get(), b), "%s: comparing changes a value", what);
}
template <typename S, typename T> void compareAll(T const & a, T const & b, char const * what) {
    compare<S>(a, b, what); S const x(a), y(b);
    SEQ_CHECK((x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "%s: ordering", what);
}
template <typename T> void values(T const & a, T const & b, char const * what) {
    using C = Cmp<T>;
    { T t(a); C x(t); SEQ_CHECK(eq(x.get(), a), "%s: construction", what); C y(std::move(t)); SEQ_CHECK(eq(y.get(), a), "%s: construction", what); C z(y), w(std::move(y)); SEQ_CHECK(eq(z.get(), a) && eq(w.get(), a), "%s: copying", what);
      C u(b); u = z; SEQ_CHECK(eq(u.get(), a) && eq(z.get(), a), "%s: assignment", what); u = C(b); SEQ_CHECK(eq(u.get(), b), "%s: assignment", what); u.get() = a; SEQ_CHECK(eq(u.get(), a), "%s: get()", what);
      C p(a), q(b); swap(p, q); SEQ_CHECK(eq(p.get(), b) && eq(q.get(), a), "%s: swap", what); std::swap(p, q); SEQ_CHECK(eq(p.get(), a) && eq(q.get(), b), "%s: std::swap", what); static_assert(noexcept(swap(p, q)), "");
      swap(p, p); SEQ_CHECK(eq(p.get(), a), "%s: swap with itself", what); }
    compareAll<C>(a, b, what); compareAll<Single<T>>(a, b, what); compare<Eq<T>>(a, b, what);
    { C const x(a); SEQ_CHECK(x.hash() == std::hash<T>()(a) && std::hash<C>()(x) == std::hash<T>()(a), "%s: hash", what); }
    static_assert(std::is_same<typename C::ValueType, T>::value && IsStrongType<C>::value && IsStrongTypeOf<C, T>::value && !IsStrongType<T>::value && !std::is_convertible<T, C>::value && !std::is_convertible<C, T>::value, "");
    seq::count(8);
}
template <typename T> void printing(T const & a, char const * what) {
    std::ostringstream o, p; o << Cmp<T>(a) << '|' << Cmp<T>(a); p << a << '|' << a; SEQ_CHECK(o.str() == p.str(), "%s: printed as %s instead of %s", what, o.str().c_str(), p.str().c_str());
    std::ostringstream f, g; f.width(7); f.fill('*'); f << std::hex << std::showpos << Cmp<T>(a); g.width(7); g.fill('*'); g << std::hex << std::showpos << a; SEQ_CHECK(f.str() == g.str(), "%s: printed as %s instead of %s", what, f.str().c_str(), g.str().c_str());
    Sink s, t; Sink & r = (s << Cmp<T>(a)); t << a; SEQ_CHECK(&r == &s && s.s == t.s, "%s: streaming", what);
}
#define OP(S, op) { S x(a); T t(a); t op b; S & r = (x op S(b)); SEQ_CHECK(&r == &x && eq(x.get(), t), "%s: " #op " strong", what); \
                 S y(a); S & r2 = (y op b); SEQ_CHECK(&r2 == &y && eq(y.get(), t), "%s: " #op, what); \
                 S z(a); S & r3 = (z op Eq<T>(b)); SEQ_CHECK(&r3 == &z && eq(z.get(), t), "%s: " #op " other", what); \
                 S w(a); w op w; T u(a); u op u; SEQ_CHECK(eq(w.get(), u), "%s: " #op " itself", what); seq::count(4); }
template <typename T> void arithmetic(T const & a, T const & b, char const * what) {
    OP(Arith<T>, +=) OP(Arith<T>, -=) OP(Arith<T>, *=) if (b != 0 && a != 0) OP(Arith<T>, /=)
    { Arith<T> x(a); T t(a); Arith<T> & r = ++x; ++t; SEQ_CHECK(&r == &x && eq(x.get(), t), "%s: ++x", what); Arith<T> o(x++); T const u = t++; SEQ_CHECK(eq(o.get(), u) && eq(x.get(), t), "%s: x++", what); }
    { Arith<T> x(a); T t(a); Arith<T> & r = --x; --t; SEQ_CHECK(&r == &x && eq(x.get(), t), "%s: --x", what); Arith<T> o(x--); T const u = t--; SEQ_CHECK(eq(o.get(), u) && eq(x.get(), t), "%s: x--", what); }
    { Post<T> x(a); T t(a); Post<T> const o(x++); T const u = t++; SEQ_CHECK(eq(o.get(), u) && eq(x.get(), t), "%s: x++ only", what); Post<T> const o2(x--); T const u2 = t--; SEQ_CHECK(eq(o2.get(), u2) && eq(x.get(), t), "%s: x-- only", what); }
}
template <typename T> void bitwise(T const & a, T const & b, char const * what) {
    if (b != 0 && a != 0) OP(Bits<T>, %=) OP(Bits<T>, ^=) OP(Bits<T>, &=) OP(Bits<T>, |=)
    { Bits<T> x(a); T t(a); Bits<T> & r = ++x; ++t; SEQ_CHECK(&r == &x && eq(x.get(), t), "%s: ++x only", what); Bits<T> & r2 = --x; --t; SEQ_CHECK(&r2 == &x && eq(x.get(), t), "%s: --x only", what); }
}
/* Operands of other types: the operation happens in the common type, as for the wrapped values. */
template <typename O> using Other = StrongType<O, struct OtherTag>;
template <typename T, typename O> using MixA = StrongType<T, struct MixATag, StrongTypeAddAssignableWith<O>, StrongTypeSubAssignableWith<O>, StrongTypeMulAssignableWith<O>, StrongTypeDivAssignableWith<O>, StrongTypeAddAssignableWith<Other<O>>, StrongTypeSubAssignableWith<Other<O>>, StrongTypeMulAssignableWith<Other<O>>, StrongTypeDivAssignableWith<Other<O>>>;
template <typename T, typename O> using MixB = StrongType<T, struct MixBTag, StrongTypeModAssignableWith<O>, StrongTypeXorAssignableWith<O>, StrongTypeAndAssignableWith<O>, StrongTypeOrAssignableWith<O>, StrongTypeModAssignableWith<Other<O>>, StrongTypeXorAssignableWith<Other<O>>, StrongTypeAndAssignableWith<Other<O>>, StrongTypeOrAssignableWith<Other<O>>>;
#define MIX(S, op) { T t(a); t op b; S y(a); S & r = (y op b); SEQ_CHECK(&r == &y && eq(y.get(), t), "%s: " #op, what); Other<O> const o(b); S z(a); S & r2 = (z op o); SEQ_CHECK(&r2 == &z && eq(z.get(), t) && eq(o.get(), b), "%s: " #op " strong", what); seq::count(2); }
template <typename T, typename O> bool fits(double v) { return v > double(std::numeric_limits<T>::lowest()) && v < double(std::numeric_limits<T>::max()) && (!std::is_signed<O>::value || std::fabs(v) < 1e15); }
template <typename T, typename O> void mixed(T const a, O const b, char const * what) {
    using MA_ = MixA<T, O>; bool const f = std::is_floating_point<O>::value; double const x = double(a), y = double(b); auto const fit = [&](double v) { return !f || fits<T, O>(v); };
    if (fit(x + y)) MIX(MA_, +=) if (fit(x - y)) MIX(MA_, -=) if (fit(x * y)) MIX(MA_, *=) if (b != 0 && fit(x / y)) MIX(MA_, /=)
}
template <typename T, typename O> void mixedBits(T const a, O const b, char const * what) { using MB_ = MixB<T, O>; if (b != 0) MIX(MB_, %=) MIX(MB_, ^=) MIX(MB_, &=) MIX(MB_, |=) }
template <typename T> std::vector<T> edges() { using L = std::numeric_limits<T>; return {T(0), T(1), T(2), T(7), T(L::max() / 3), T(100)}; }
template <typename T> T pick(std::vector<T> const & v) { return v[static_cast<std::size_t>(seq::choose(int(v.size())))]; }
} // namespace
SEQ_TEST(signed_bytes, 0, 0) { int const n = seq::choose(256); for (int m = 0; m < 256; ++m) { auto a = std::int8_t(n - 128), b = std::int8_t(m - 128); values(a, b, "int8_t"); arithmetic(a, b, "int8_t"); bitwise(a, b, "int8_t"); } printing(std::int8_t(n - 128), "int8_t"); }
SEQ_TEST(unsigned_bytes, 0, 0) { int const n = seq::choose(256); for (int m = 0; m < 256; ++m) { auto a = std::uint8_t(n), b = std::uint8_t(m); values(a, b, "uint8_t"); arithmetic(a, b, "uint8_t"); bitwise(a, b, "uint8_t"); } printing(std::uint8_t(n), "uint8_t"); }
SEQ_TEST(words, 0, 0) {
    switch (seq::choose(3)) {
    case 0: { std::vector<std::uint64_t> v{0, 1, 2, 3, 0x7fffffffu, 0x80000000u, 0xffffffffu, 1ull << 32, 1ull << 63, ~0ull}; auto a = pick(v), b = pick(v); values(a, b, "uint64_t"); arithmetic(a, b, "uint64_t"); bitwise(a, b, "uint64_t"); printing(a, "uint64_t"); break; }
    case 1: { std::vector<int> v{0, 1, -1, 2, -2, 3, 1000, -1000, 30000, -30000}; auto a = pick(v), b = pick(v); values(a, b, "int"); arithmetic(a, b, "int"); bitwise(a, b, "int"); printing(a, "int"); break; }
    case 2: { bool const a = seq::flip(), b = seq::flip(); values(a, b, "bool"); printing(a, "bool"); break; }
    }
}
SEQ_TEST(floats, 0, 0) { std::vector<double> v{0.0, -0.0, 1.0, -1.5, 1e300, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::denorm_min()}; auto a = pick(v), b = pick(v); values(a, b, "double"); printing(a, "double"); if (a == a && b == b && std::isfinite(a) && std::isfinite(b)) { arithmetic(a, b, "double"); } }
namespace { struct Obj { int a, b; int f() const { return a; } int g() const { return b; } }; }
SEQ_TEST(pointers, 0, 0) {
    static int arr[3]; int i = seq::choose(4), j = seq::choose(4); int * a = i == 3 ? nullptr : arr + i, * b = j == 3 ? nullptr : arr + j;
    values(a, b, "int *"); printing(static_cast<void const *>(a), "void const *") ;
    if (a && i < 2) { StrongType<int *, struct PtrTag, StrongTypeAddAssignableWith<std::ptrdiff_t>, StrongTypeSubAssignableWith<std::ptrdiff_t>, StrongTypeIncrementable, StrongTypeDecrementable> p(a); p += std::ptrdiff_t(1); SEQ_CHECK(p.get() == a + 1, "pointer +="); p -= std::ptrdiff_t(1); SEQ_CHECK(p.get() == a, "pointer -="); SEQ_CHECK((p++).get() == a && p.get() == a + 1 && (--p).get() == a, "pointer ++"); }
    int Obj::* const ms[] = {&Obj::a, &Obj::b, nullptr}; auto x = ms[seq::choose(3)], y = ms[seq::choose(3)]; using M = StrongType<int Obj::*, struct MTag, StrongTypeBasicComparable, StrongTypeSwappable>; M p(x), q(y);
    SEQ_CHECK((p == q) == (x == y) && (p != q) == (x != y), "member pointers"); swap(p, q); SEQ_CHECK(p.get() == y && q.get() == x, "swap of member pointers");
    std::unordered_set<Cmp<int *>> s; s.insert(Cmp<int *>(a)); s.insert(Cmp<int *>(b)); SEQ_CHECK(s.size() == (a == b ? 1u : 2u) && s.count(Cmp<int *>(a)) == 1u, "as keys");
}
namespace {
template <typename T, typename O> void mix(std::vector<T> const & as, std::vector<O> const & bs, char const * what) { for (T const a : as) for (O const b : bs) mixed(a, b, what); }
template <typename T, typename O> void mixBits(std::vector<T> const & as, std::vector<O> const & bs, char const * what) { for (T const a : as) for (O const b : bs) mixedBits(a, b, what); }
}
SEQ_TEST(mixed_types, 0, 0) {
    std::vector<int> const is{0, 1, -1, 7, -10, 100, 30000}; std::vector<double> const ds{0.0, 0.5, -0.5, 1.5, 3.0, 0.001, -2.75, 1e3}; std::vector<std::uint8_t> const bs{0, 1, 7, 200, 255}; std::vector<std::int64_t> const ls{0, 1, -1, 300, -300, 70000, 0x100000001ll}; std::vector<std::uint64_t> const us{0, 1, 255, 256, 0xffffffffu, 1ull << 40};
    switch (seq::choose(9)) {
    case 0: mix(is, ds, "int and double"); break;
    case 1: mix(std::vector<std::int8_t>{0, 1, -1, 10, -10}, ds, "int8_t and double"); break;
    case 2: mix(ds, std::vector<float>{0.5f, 3.f, -1.25f, 100.f}, "double and float"); break;
    case 3: mix(bs, us, "uint8_t and uint64_t"); mixBits(bs, us, "uint8_t and uint64_t"); break;
    case 4: mix(us, bs, "uint64_t and uint8_t"); mixBits(us, bs, "uint64_t and uint8_t"); break;
    case 5: mix(is, ls, "int and int64_t"); mixBits(is, ls, "int and int64_t"); break;
    case 6: mix(ls, is, "int64_t and int"); mixBits(ls, is, "int64_t and int"); break;
    case 7: mixBits(bs, ls, "uint8_t and int64_t"); mix(bs, ls, "uint8_t and int64_t"); break;
    case 8: mix(ds, is, "double and int"); mix(ds, us, "double and uint64_t"); break;
    }
}
