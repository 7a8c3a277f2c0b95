// C48: concepts: all combinations of probe types, all logical combinations up to a depth, types lacking any one or two of the required operations.
// CFLAGS: -O0 -g0
#include "seq.h"
#include <cstddef>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <sharemind/Concepts.h>
#include <sharemind/IsReferenceable.h>
#include <sharemind/IsSwappable.h>
#include <sharemind/Iterator.h>

namespace c48 {
namespace S = sharemind;
void eq(char const * what, bool got, bool want, std::string const & of) { seq::count(1); SEQ_CHECK(got == want, "%s for %s: %d", what, of.c_str(), int(got)); }
template <typename C> constexpr bool models() { return S::Models<C>::value; }

/* Probe types. */
struct Plain {};
struct Base { int b; }; struct Derived: Base {}; struct Other { Other(Base const &); };
struct NoDefault { explicit NoDefault(int); };
struct MoveOnly { MoveOnly() = default; MoveOnly(MoveOnly &&) = default; MoveOnly & operator=(MoveOnly &&) = default; };
struct Fixed { Fixed(Fixed &&) = delete; Fixed & operator=(Fixed &&) = delete; };
struct Throwing { Throwing() noexcept(false); Throwing(Throwing const &) noexcept(false); Throwing & operator=(Throwing const &) noexcept(false); };
struct ConstMember { int const c; };
struct AsBool { explicit operator bool() const; }; struct AsInt { operator int() const; };
struct OwnSwap: Fixed { friend void swap(OwnSwap &, OwnSwap &) noexcept; };
enum E1 { e1 }; enum class E2 { e2 }; enum class E3: unsigned char { e3 };
struct Holder { int i; ~Holder() = delete; };
template <typename T> struct Name;
#define NAME(...) template <> struct Name<__VA_ARGS__> { static char const * s() { return #__VA_ARGS__; } };
NAME(int) NAME(unsigned) NAME(char) NAME(signed char) NAME(bool) NAME(double) NAME(long long) NAME(int *) NAME(int const *) NAME(void *) NAME(std::nullptr_t) NAME(int &) NAME(int const &) NAME(Plain) NAME(Plain &) NAME(Base) NAME(Base &) NAME(Derived) NAME(Derived &) NAME(Derived const &) NAME(Base *) NAME(Derived *) NAME(Other) NAME(NoDefault) NAME(MoveOnly) NAME(MoveOnly &) NAME(Fixed) NAME(Fixed &) NAME(Throwing) NAME(ConstMember) NAME(AsBool) NAME(AsInt) NAME(OwnSwap) NAME(OwnSwap &) NAME(E1) NAME(E2) NAME(E3) NAME(std::string) NAME(char const *) NAME(std::vector<int>) NAME(Holder &) NAME(int (&)[3]) NAME(int (*)(int)) NAME(float)
template <typename T> std::string name() { return Name<T>::s(); }
template <typename ... T> struct Types {};
using All = Types<int, unsigned, char, signed char, bool, double, float, long long, int *, int const *, void *, std::nullptr_t, int &, int const &, Plain, Plain &, Base, Base &, Derived, Derived &, Derived const &, Base *, Derived *, Other, NoDefault, MoveOnly, MoveOnly &, Fixed, Fixed &, Throwing, ConstMember, AsBool, AsInt, OwnSwap, OwnSwap &, E1, E2, E3, std::string, char const *, std::vector<int>, Holder &, int (&)[3], int (*)(int)>;

/* What swap() can do, judged by calling it. */
namespace swapping { using std::swap; template <typename A, typename B, typename = decltype(swap(std::declval<A>(), std::declval<B>()))> std::true_type can(int); template <typename, typename> std::false_type can(...);
    template <typename A, typename B, bool = decltype(can<A, B>(0))::value> struct quiet: std::integral_constant<bool, noexcept(swap(std::declval<A>(), std::declval<B>()))> {}; template <typename A, typename B> struct quiet<A, B, false>: std::false_type {}; }
template <typename A, typename B> constexpr bool canSwap() { return decltype(swapping::can<A, B>(0))::value; }
template <typename A, typename B> constexpr bool quietSwap() { return swapping::quiet<A, B>::value; }

template <typename T> struct One { static void run() {
    auto const n = name<T>();
    eq("Constructible", models<S::Constructible(T)>(), std::is_constructible<T>::value, n); eq("Constructible from int", models<S::Constructible(T, int)>(), std::is_constructible<T, int>::value, n); eq("Constructible from two", models<S::Constructible(T, unsigned, char)>(), std::is_constructible<T, unsigned, char>::value, n);
    eq("NothrowConstructible", models<S::NothrowConstructible(T)>(), std::is_nothrow_constructible<T>::value, n); eq("NothrowConstructible from int", models<S::NothrowConstructible(T, int)>(), std::is_nothrow_constructible<T, int>::value, n);
    eq("DefaultConstructible", models<S::DefaultConstructible(T)>(), std::is_default_constructible<T>::value, n); eq("NothrowDefaultConstructible", models<S::NothrowDefaultConstructible(T)>(), std::is_nothrow_default_constructible<T>::value, n);
    eq("MoveConstructible", models<S::MoveConstructible(T)>(), std::is_constructible<T, T &&>::value, n); eq("NothrowMoveConstructible", models<S::NothrowMoveConstructible(T)>(), std::is_nothrow_constructible<T, T &&>::value, n);
    eq("MoveAssignable", models<S::MoveAssignable(T)>(), std::is_assignable<T &, T &&>::value, n); eq("NothrowMoveAssignable", models<S::NothrowMoveAssignable(T)>(), std::is_nothrow_assignable<T &, T &&>::value, n);
    using C = std::conditional_t<std::is_reference<T>::value, T, T const &>;
    eq("CopyConstructible", models<S::CopyConstructible(T)>(), std::is_constructible<T, C>::value, n); eq("NothrowCopyConstructible", models<S::NothrowCopyConstructible(T)>(), std::is_nothrow_constructible<T, C>::value, n);
    eq("CopyAssignable", models<S::CopyAssignable(T)>(), std::is_assignable<T &, C>::value, n); eq("NothrowCopyAssignable", models<S::NothrowCopyAssignable(T)>(), std::is_nothrow_assignable<T &, C>::value, n);
    eq("Destructible", models<S::Destructible(T)>(), std::is_destructible<T>::value, n);
    bool const integral = std::is_integral<T>::value, neg = std::is_arithmetic<T>::value && std::is_signed<T>::value, pos = std::is_unsigned<T>::value;
    eq("Integral", models<S::Integral(T)>(), integral, n); eq("Signed", models<S::Signed(T)>(), neg, n); eq("Unsigned", models<S::Unsigned(T)>(), pos, n); eq("SignedIntegral", models<S::SignedIntegral(T)>(), integral && neg, n); eq("UnsignedIntegral", models<S::UnsignedIntegral(T)>(), integral && pos, n);
    using L = std::remove_reference_t<T> &;
    eq("Swappable", models<S::Swappable(T)>(), canSwap<L, L>(), n); eq("IsSwappable", S::IsSwappable<T>::value, canSwap<L, L>(), n); eq("IsNothrowSwappable", S::IsNothrowSwappable<T>::value, quietSwap<L, L>(), n);
    eq("IsReferenceable", S::IsReferenceable<T>::value, true, n);
} };
template <typename A, typename B> struct Two { static void run() {
    auto const n = name<A>() + " and " + name<B>();
    eq("Same", models<S::Same(A, B)>(), std::is_same<A, B>::value, n); eq("BaseOf", models<S::BaseOf(A, B)>(), std::is_base_of<A, B>::value, n); eq("DerivedFrom", models<S::DerivedFrom(A, B)>(), std::is_base_of<B, A>::value, n);
    eq("ConvertibleTo", models<S::ConvertibleTo(A, B)>(), std::is_convertible<A, B>::value, n); eq("DecaysTo", models<S::DecaysTo(A, B)>(), std::is_same<std::decay_t<A>, B>::value, n);
    eq("Constructible", models<S::Constructible(A, B)>(), std::is_constructible<A, B>::value, n); eq("NothrowConstructible", models<S::NothrowConstructible(A, B)>(), std::is_nothrow_constructible<A, B>::value, n);
    using LA = std::remove_reference_t<A> &; using LB = std::remove_reference_t<B> &;
    eq("Swappable", models<S::Swappable(A, B)>(), canSwap<LA, LB>() && canSwap<LB, LA>(), n); eq("IsSwappableWith", S::IsSwappableWith<A, B>::value, canSwap<A, B>() && canSwap<B, A>(), n); eq("IsSwappableWith", S::IsSwappableWith<LA, LB>::value, canSwap<LA, LB>() && canSwap<LB, LA>(), n); eq("IsNothrowSwappableWith", S::IsNothrowSwappableWith<LA, LB>::value, quietSwap<LA, LB>() && quietSwap<LB, LA>(), n);
} };
template <typename A, typename ... B> void pairs(Types<B...>) { int x[] = { (Two<A, B>::run(), 0)... }; (void) x; }
template <typename ... T> void all(Types<T...> ts) { int x[] = { (One<T>::run(), pairs<T>(ts), 0)... }; (void) x; }

/* Types without references. */
void unreferenceable() {
    eq("IsReferenceable", S::IsReferenceable<void>::value, false, "void"); eq("IsReferenceable", S::IsReferenceable<void const>::value, false, "void const"); eq("IsReferenceable", S::IsReferenceable<int() const>::value, false, "int() const"); eq("IsReferenceable", S::IsReferenceable<int()>::value, true, "int()"); eq("IsReferenceable", S::IsReferenceable<int[]>::value, true, "int[]");
    eq("IsSwappable", S::IsSwappable<void>::value, false, "void"); eq("IsNothrowSwappable", S::IsNothrowSwappable<void>::value, false, "void"); eq("IsSwappable", S::IsSwappable<int() const>::value, false, "int() const"); eq("IsNothrowSwappable", S::IsNothrowSwappable<int() &>::value, false, "int() &"); eq("IsSwappable", S::IsSwappable<int()>::value, false, "int()"); eq("IsSwappable", S::IsSwappable<int[]>::value, false, "int[]"); eq("IsSwappable", S::IsSwappable<int[2]>::value, true, "int[2]"); eq("IsNothrowSwappable", S::IsNothrowSwappable<int[2]>::value, true, "int[2]"); eq("IsSwappable", S::IsSwappable<int const>::value, false, "int const"); eq("IsSwappable", S::IsSwappable<Fixed[2]>::value, false, "Fixed[2]"); eq("IsSwappable", S::IsSwappable<OwnSwap>::value, true, "OwnSwap");
    eq("IsSwappableWith", S::IsSwappableWith<void, int &>::value, false, "void and int &"); eq("IsSwappableWith", S::IsSwappableWith<int &, void>::value, false, "int & and void"); eq("IsNothrowSwappableWith", S::IsNothrowSwappableWith<void, void>::value, false, "void"); eq("IsSwappableWith", S::IsSwappableWith<int, int>::value, false, "int rvalues"); eq("IsSwappableWith", S::IsSwappableWith<int &, int>::value, false, "lvalue and rvalue");
}

/* Callables and predicates: arity, kind of result, qualification. */
struct R0 {}; /* not convertible to bool */
template <typename Res, typename ... Args> struct Fn { Res operator()(Args ...) const; };
template <typename Res, typename ... Args> struct MutFn { Res operator()(Args ...); };
template <typename Res, typename ... Args> struct LvalFn { Res operator()(Args ...) &; };
template <typename Res, typename ... Args> struct RvalFn { Res operator()(Args ...) &&; };
template <template <typename, typename ...> class F, typename Res> void predicatesOf(char const * n, bool yes, bool callable, bool pred) {
    bool const c = callable, p = pred && yes;
    eq("Callable/0", models<S::Callable(F<Res>)>(), c, n); eq("Callable/0 with 1", models<S::Callable(F<Res>, int)>(), false, n); eq("Callable/1", models<S::Callable(F<Res, int>, int)>(), c, n); eq("Callable/1 with 0", models<S::Callable(F<Res, int>)>(), false, n); eq("Callable/2", models<S::Callable(F<Res, int, Plain>, int, Plain)>(), c, n); eq("Callable/2 swapped", models<S::Callable(F<Res, int, Plain>, Plain, int)>(), false, n); eq("Callable/1 converting", models<S::Callable(F<Res, long>, char)>(), c, n); eq("Callable/1 lvalue", models<S::Callable(F<Res, int &>, int &)>(), c, n); eq("Callable/1 rvalue for lvalue", models<S::Callable(F<Res, int &>, int)>(), false, n); eq("Callable/1 lvalue for rvalue", models<S::Callable(F<Res, int &&>, int &)>(), false, n); eq("Callable/1 rvalue", models<S::Callable(F<Res, int &&>, int)>(), c, n); eq("Callable/3", models<S::Callable(F<Res, int, int, int>, int, int, int)>(), c, n);
    eq("Predicate/0", models<S::Predicate(F<Res>)>(), p, n); eq("Predicate/1", models<S::Predicate(F<Res, int>, int)>(), p, n); eq("Predicate/1 with 2", models<S::Predicate(F<Res, int>, int, int)>(), false, n);
    eq("UnaryPredicate", models<S::UnaryPredicate(F<Res, int>, int)>(), p, n); eq("UnaryPredicate of the wrong type", models<S::UnaryPredicate(F<Res, int>, Plain)>(), false, n); eq("UnaryPredicate with two", models<S::UnaryPredicate(F<Res, int, int>, int, int)>(), false, n); eq("UnaryPredicate without", models<S::UnaryPredicate(F<Res>)>(), false, n);
    eq("BinaryPredicate", models<S::BinaryPredicate(F<Res, int, Plain>, int, Plain)>(), p, n); eq("BinaryPredicate of the wrong type", models<S::BinaryPredicate(F<Res, int, Plain>, Plain, int)>(), false, n); eq("BinaryPredicate with one", models<S::BinaryPredicate(F<Res, int>, int)>(), false, n);
    eq("TrinaryPredicate", models<S::TrinaryPredicate(F<Res, int, Plain, int *>, int, Plain, int *)>(), p, n); eq("TrinaryPredicate of the wrong type", models<S::TrinaryPredicate(F<Res, int, Plain, int *>, int, Plain, int)>(), false, n); eq("TrinaryPredicate with two", models<S::TrinaryPredicate(F<Res, int, int>, int, int)>(), false, n);
}
template <typename Res> void predicates(char const * n, bool yes) {
    predicatesOf<Fn, Res>(n, yes, true, true); predicatesOf<MutFn, Res>(n, yes, true, true);
    eq("Callable of an lvalue", models<S::Callable(Fn<Res> &)>(), true, n); eq("Callable of a constant", models<S::Callable(Fn<Res> const &)>(), true, n); eq("Callable of a constant", models<S::Callable(MutFn<Res> const &)>(), false, n); eq("Predicate of an lvalue", models<S::Predicate(MutFn<Res> &)>(), yes, n); eq("Predicate of a constant", models<S::Predicate(MutFn<Res> const &)>(), false, n);
    eq("Predicate which is called as rvalue only", models<S::Predicate(LvalFn<Res> &)>(), yes, n); eq("Callable", models<S::Callable(LvalFn<Res> &)>(), true, n);
    eq("Predicate", models<S::Predicate(Res (*)(int), int)>(), yes, n); eq("Predicate", models<S::Predicate(Res (&)(int), int)>(), yes, n); eq("Predicate", models<S::Predicate(Res (*)(int), int *)>(), false, n);
}

/* Comparisons: what is returned, for which qualification, in which order. */
template <int K> struct Ret; template <> struct Ret<0> { using T = bool; }; template <> struct Ret<1> { using T = AsInt; }; template <> struct Ret<2> { using T = AsBool; }; template <> struct Ret<3> { using T = void; }; template <> struct Ret<4> { using T = int const *; };
template <int K, bool CL, bool CR> struct X; template <int K, bool CL, bool CR> struct Y;
#define OPS(op) \
    template <int K> typename Ret<K>::T operator op(X<K, true, true> const &, X<K, true, true> const &); template <int K> typename Ret<K>::T operator op(X<K, false, true> &&, X<K, false, true> const &); template <int K> typename Ret<K>::T operator op(X<K, false, true> &, X<K, false, true> const &); template <int K> typename Ret<K>::T operator op(X<K, true, false> const &, X<K, true, false> &); template <int K> typename Ret<K>::T operator op(X<K, false, false> &, X<K, false, false> &); \
    template <int K> typename Ret<K>::T operator op(X<K, true, true> const &, Y<K, true, true> const &); template <int K> typename Ret<K>::T operator op(X<K, false, true> &, Y<K, false, true> const &); template <int K> typename Ret<K>::T operator op(X<K, true, false> const &, Y<K, true, false> &); template <int K> typename Ret<K>::T operator op(X<K, false, false> &, Y<K, false, false> &);
template <int K, bool CL, bool CR> struct X {}; template <int K, bool CL, bool CR> struct Y {};
OPS(==) OPS(!=) OPS(<) OPS(<=) OPS(>) OPS(>=)
struct OnlyEq { bool operator==(OnlyEq const &) const; }; struct OnlyNe { bool operator!=(OnlyNe const &) const; }; struct OnlyLt { bool operator<(OnlyLt const &) const; }; struct OnlyLe { bool operator<=(OnlyLe const &) const; }; struct OnlyGt { bool operator>(OnlyGt const &) const; }; struct OnlyGe { bool operator>=(OnlyGe const &) const; };
template <typename Concept, int K, bool CL, bool CR> void comparisonOf(char const * c) {
    bool const want = K != 3 && K != 2 && CL && CR; auto const n = "result " + std::to_string(K) + " qualification " + std::to_string(CL) + std::to_string(CR);
    eq(c, models<Concept(X<K, CL, CR>)>(), want, n); if (CL && CR) eq(c, models<Concept(X<K, CL, CR> &)>(), want, n + " lvalue"); eq(c, models<Concept(X<K, CL, CR>, X<K, CL, CR>)>(), want, n + " twice"); eq(c, models<Concept(X<K, CL, CR>, Y<K, CL, CR>)>(), want, n + " mixed"); eq(c, models<Concept(Y<K, CL, CR>, X<K, CL, CR>)>(), false, n + " mixed the other way around"); eq(c, models<Concept(Y<K, CL, CR>)>(), false, n + " incomparable");
}
template <typename Concept> void comparison(char const * c, int k) {
    comparisonOf<Concept, 0, true, true>(c); comparisonOf<Concept, 1, true, true>(c); comparisonOf<Concept, 2, true, true>(c); comparisonOf<Concept, 3, true, true>(c); comparisonOf<Concept, 4, true, true>(c); comparisonOf<Concept, 0, true, false>(c); comparisonOf<Concept, 0, false, false>(c);
    eq(c, models<Concept(int)>(), true, "int"); eq(c, models<Concept(int, double)>(), true, "int and double"); eq(c, models<Concept(int, int *)>(), false, "int and pointer"); eq(c, models<Concept(Plain)>(), false, "Plain"); eq(c, models<Concept(std::string, char const *)>(), true, "string and C string"); eq(c, models<Concept(E2)>(), true, "E2"); eq(c, models<Concept(E2, E3)>(), false, "E2 and E3"); eq(c, models<Concept(E2, int)>(), false, "E2 and int");
    eq(c, models<Concept(OnlyEq)>(), k == 0, "type with == only"); eq(c, models<Concept(OnlyNe)>(), k == 1, "type with != only"); eq(c, models<Concept(OnlyLt)>(), k == 2, "type with < only"); eq(c, models<Concept(OnlyLe)>(), k == 3, "type with <= only"); eq(c, models<Concept(OnlyGt)>(), k == 4, "type with > only"); eq(c, models<Concept(OnlyGe)>(), k == 5, "type with >= only");
}

/* Operands each of which may be constant or not: every set of the combinations which give a truth value. */
struct NoBool {}; template <unsigned M> struct Q {}; template <unsigned M> struct P {}; template <unsigned M, unsigned I> using Truth = std::conditional_t<((M >> I) & 1u) != 0, bool, NoBool>;
#define OPS4(op) template <unsigned M> Truth<M, 0> operator op(Q<M> &, P<M> &); template <unsigned M> Truth<M, 1> operator op(Q<M> &, P<M> const &); template <unsigned M> Truth<M, 2> operator op(Q<M> const &, P<M> &); template <unsigned M> Truth<M, 3> operator op(Q<M> const &, P<M> const &); \
    template <unsigned M> Truth<M, 0> operator op(Q<M> &, Q<M> &); template <unsigned M> Truth<M, 1> operator op(Q<M> &, Q<M> const &); template <unsigned M> Truth<M, 2> operator op(Q<M> const &, Q<M> &); template <unsigned M> Truth<M, 3> operator op(Q<M> const &, Q<M> const &);
OPS4(==) OPS4(!=) OPS4(<) OPS4(<=) OPS4(>) OPS4(>=)
template <typename Concept, unsigned M> void qualificationsOf(char const * c) { auto const n = "truth values for the combinations " + std::to_string(M); eq(c, models<Concept(Q<M>, P<M>)>(), M == 15u, n); eq(c, models<Concept(Q<M>)>(), M == 15u, n + " (one type)"); eq(c, models<Concept(Q<M>, Q<M>)>(), M == 15u, n + " (twice)"); }
template <typename Concept, unsigned ... M> void qualifications(char const * c, std::integer_sequence<unsigned, M...>) { int x[] = { (qualificationsOf<Concept, M>(c), 0)... }; (void) x; }

/* Swapping in one order only, and swapping which may throw in one order. */
template <int I, int J> struct SA {}; template <int I, int J> struct SB {};
template <int I, int J> std::enable_if_t<I != 0> swap(SA<I, J> &, SB<I, J> &) noexcept(I == 2); template <int I, int J> std::enable_if_t<J != 0> swap(SB<I, J> &, SA<I, J> &) noexcept(J == 2);
template <int I, int J> void swapOrder() { auto const n = "swapping " + std::to_string(I) + " and the other way around " + std::to_string(J); using A = SA<I, J>; using B = SB<I, J>;
    eq("Swappable", models<S::Swappable(A &, B &)>(), I && J, n); eq("Swappable", models<S::Swappable(B &, A &)>(), I && J, n); eq("IsSwappableWith", S::IsSwappableWith<A &, B &>::value, I && J, n); eq("IsSwappableWith", S::IsSwappableWith<B &, A &>::value, I && J, n); eq("IsNothrowSwappableWith", S::IsNothrowSwappableWith<A &, B &>::value, I == 2 && J == 2, n); eq("IsNothrowSwappableWith", S::IsNothrowSwappableWith<B &, A &>::value, I == 2 && J == 2, n); }
void swapOrders() { swapOrder<0, 0>(); swapOrder<0, 1>(); swapOrder<0, 2>(); swapOrder<1, 0>(); swapOrder<1, 1>(); swapOrder<1, 2>(); swapOrder<2, 0>(); swapOrder<2, 1>(); swapOrder<2, 2>(); }

/* All formulas up to a depth: T and F are concepts which hold and which do not. */
using T_ = S::Integral(int); using F_ = S::Integral(double);
template <int D, int I> struct Formula;
constexpr int per0 = 2, per1 = 2 + 2 + 3 * (1 + 2 + 4 + 8);
template <int I> struct Formula<0, I> { using type = std::conditional_t<I == 0, F_, T_>; static constexpr bool v = I; static std::string s() { return I ? "T" : "F"; } };
struct NotK {}; struct AllK {}; struct AnyK {}; struct NoneK {};
template <typename K, typename ... Fs> struct Combine;
template <typename F> struct Combine<NotK, F> { using type = S::Not(typename F::type); static constexpr bool v = !F::v; static std::string s() { return "Not(" + F::s() + ")"; } };
constexpr int sum() { return 0; } template <typename ... R> constexpr int sum(bool a, R ... r) { return int(a) + sum(r...); }
inline std::string join() { return ""; } template <typename ... R> std::string join(std::string a, R ... r) { return a + "," + join(r...); }
template <typename ... F> struct Combine<AllK, F...> { using type = S::All(typename F::type...); static constexpr bool v = sum(F::v...) == int(sizeof...(F)); static std::string s() { return "All(" + join(F::s()...) + ")"; } };
template <typename ... F> struct Combine<AnyK, F...> { using type = S::Any(typename F::type...); static constexpr bool v = sum(F::v...) != 0; static std::string s() { return "Any(" + join(F::s()...) + ")"; } };
template <typename ... F> struct Combine<NoneK, F...> { using type = S::None(typename F::type...); static constexpr bool v = sum(F::v...) == 0; static std::string s() { return "None(" + join(F::s()...) + ")"; } };
template <typename F> void check1() { eq("the value", models<typename F::type>(), F::v, F::s()); }
template <typename A> void unary() { check1<A>(); check1<Combine<NotK, A>>(); check1<Combine<NotK, Combine<NotK, A>>>(); check1<Combine<AllK, A>>(); check1<Combine<AnyK, A>>(); check1<Combine<NoneK, A>>(); }
template <typename A, typename B> void binary() { check1<Combine<AllK, A, B>>(); check1<Combine<AnyK, A, B>>(); check1<Combine<NoneK, A, B>>(); check1<Combine<NotK, Combine<AnyK, A, B>>>(); check1<Combine<AllK, A, Combine<NotK, B>>>(); check1<Combine<AnyK, Combine<NoneK, A>, Combine<AllK, A, B>>>();
    eq("several concepts", (S::Models<typename A::type, typename B::type>::value), A::v && B::v, A::s() + B::s()); }
template <typename A, typename B, typename C> void ternary() { check1<Combine<AllK, A, B, C>>(); check1<Combine<AnyK, A, B, C>>(); check1<Combine<NoneK, A, B, C>>(); check1<Combine<AllK, Combine<AnyK, A, B>, Combine<NotK, C>>>(); check1<Combine<NoneK, Combine<AllK, A, B>, Combine<AllK, B, C>>>(); eq("several concepts", (S::Models<typename A::type, typename B::type, typename C::type>::value), A::v && B::v && C::v, A::s() + B::s() + C::s()); }
void formulas() {
    using T = Formula<0, 1>; using F = Formula<0, 0>;
    unary<T>(); unary<F>(); binary<T, T>(); binary<T, F>(); binary<F, T>(); binary<F, F>();
    ternary<T, T, T>(); ternary<T, T, F>(); ternary<T, F, T>(); ternary<T, F, F>(); ternary<F, T, T>(); ternary<F, T, F>(); ternary<F, F, T>(); ternary<F, F, F>();
    check1<Combine<AllK>>(); check1<Combine<AnyK>>(); check1<Combine<NoneK>>(); eq("no concepts", S::Models<>::value, true, "()");
    using N = Combine<NotK, Combine<AllK, T, F>>; using O = Combine<NoneK, N, T>; unary<N>(); unary<O>(); binary<N, O>(); binary<O, N>(); ternary<N, O, T>(); ternary<O, F, O>();
}
/* Overloads. */
template <typename T, SHAREMIND_REQUIRES_CONCEPTS(S::UnsignedIntegral(T))> int pick(T) { return 1; }
template <typename T, SHAREMIND_REQUIRES_CONCEPTS(S::SignedIntegral(T))> int pick(T) { return 2; }
template <typename T, SHAREMIND_REQUIRES_CONCEPTS(S::Not(S::Integral(T)), S::Swappable(T &))> int pick(T) { return 3; }
template <typename T, SHAREMIND_REQUIRES_CONCEPTS(S::Not(S::Integral(T)), S::Not(S::Swappable(T &)))> int pick(T) { return 4; }
template <typename T> SHAREMIND_REQUIRE_CONCEPTS_R(char const *, S::Any(S::Same(T, int), S::Same(T, char))) pickR(T) { return "small"; }
template <typename T> SHAREMIND_REQUIRE_CONCEPTS_R(std::string, S::None(S::Same(T, int), S::Same(T, char))) pickR(T) { return "other"; }
template <typename T, SHAREMIND_REQUIRES(sizeof(T) == 1)> int pickV(T) { return 1; }
template <typename T, SHAREMIND_REQUIRES(sizeof(T) != 1)> int pickV(T) { return 2; }
template <typename T> SHAREMIND_REQUIRE_R(long, sizeof(T) == 4) pickW(T) { return 4; } template <typename T> SHAREMIND_REQUIRE_R(char, sizeof(T) < 4) pickW(T) { return 3; }
template <typename T, typename = void> struct Partial { static constexpr int v = 0; };
template <typename T> struct Partial<T, S::Void_t<SHAREMIND_REQUIRE_CONCEPTS(S::Swappable(T &))>> { static constexpr int v = 1; };
SHAREMIND_DEFINE_CONCEPT(HasSize) { template <typename T> auto check(T && t) -> SHAREMIND_REQUIRE_CONCEPTS(S::Integral(decltype(t.size()))); template <typename T, typename U> auto check(T && t, U && u) -> S::ValidTypes<decltype(t.size() + u.size())>; };
struct SizeD { double size() const; };
void overloads() {
    eq("overload", pick(1u) == 1 && pick(std::size_t()) == 1 && pick(true) == 1, true, "unsigned"); eq("overload", pick(1) == 2 && pick(-1ll) == 2, true, "signed"); eq("overload", pick(1.0) == 3 && pick(Plain()) == 3 && pick(nullptr) == 3, true, "others"); eq("overload", pick(ConstMember{1}) == 4, true, "unswappable");
    eq("overload", std::string(pickR(1)) == "small" && std::string(pickR('c')) == "small" && pickR(1u) == "other" && pickR(Plain()) == "other" && std::is_same<decltype(pickR(1)), char const *>::value, true, "results"); eq("overload", pickV('c') == 1 && pickV(2) == 2, true, "conditions"); eq("overload", pickW(1) == 4 && pickW('c') == 3 && std::is_same<decltype(pickW(1)), long>::value && std::is_same<decltype(pickW('c')), char>::value, true, "conditions with results"); eq("specialization", Partial<int>::v == 1 && Partial<Fixed>::v == 0 && Partial<OwnSwap>::v == 1, true, "of templates");
    eq("own concept", models<HasSize(std::string)>() && models<HasSize(std::vector<int> &)>() && !models<HasSize(int)>() && !models<HasSize(SizeD)>() && models<HasSize(SizeD, std::string)>() && !models<HasSize(SizeD, int)>() && !models<HasSize(int, SizeD)>(), true, "");
}

/* Iterators which lack operations, all sets of at most two. */
enum { CopyC, CopyA, Swap, DerefRef, PreInc, PostInc, PostIncCopy, Eq, Ne, Default, PreDec, PostDec, Plus, PlusLeft, Minus, Diff, PlusA, MinusA, Index, Lt, Le, Gt, Ge, Traits, Count };
constexpr char const * opNames[] = { "copying", "copy assignment", "swapping", "dereferencing", "++i", "i++", "i++ to an iterator", "==", "!=", "default construction", "--i", "i--", "i + n", "n + i", "i - n", "i - i", "+=", "-=", "i[n]", "<", "<=", ">", ">=", "traits" };
template <bool B, int N> struct Cp { }; template <int N> struct Cp<false, N> { Cp() = default; Cp(Cp &&) = default; Cp(Cp const &) = delete; Cp & operator=(Cp const &) = default; Cp & operator=(Cp &&) = default; };
template <bool B, int N> struct Ca { }; template <int N> struct Ca<false, N> { Ca() = default; Ca(Ca const &) = default; Ca(Ca &&) = default; Ca & operator=(Ca const &) = delete; Ca & operator=(Ca &&) = default; };
template <bool B> struct Df { Df() = default; explicit Df(int) {} }; template <> struct Df<false> { explicit Df(int); };
struct Bad {};
#define HAS(x) (((M >> (x)) & 1u) != 0)
#define IF(x) template <typename Q = void, typename = std::enable_if_t<HAS(x) && std::is_void<Q>::value>>
template <unsigned M, typename V, bool Ok = ((M >> Traits) & 1u) != 0> struct Tr { using iterator_category = std::random_access_iterator_tag; using value_type = std::remove_const_t<V>; using difference_type = std::ptrdiff_t; using pointer = V *; using reference = V &; };
template <unsigned M, typename V> struct Tr<M, V, false> {};
/* The operations in W are there, but give something else. */
#define WRONG(x, right, ...) std::conditional_t<((W >> (x)) & 1u) != 0, __VA_ARGS__, right>
template <typename V> struct Cell { operator V &() const; V & operator=(std::remove_const_t<V> const &) const; };
template <typename I, typename V> struct Old { operator I const &() const; Cell<V> operator*() const; };
template <unsigned M, typename V, unsigned W = 0u> struct It: Tr<M, V>, Cp<HAS(CopyC), 0>, Ca<HAS(CopyA), 0>, Df<HAS(Default)> {
    std::conditional_t<HAS(DerefRef), WRONG(DerefRef, V &, Cell<V>), Bad> operator*() const;
    std::conditional_t<HAS(PreInc), WRONG(PreInc, It &, It const &), Bad> operator++();
    using OldIt = Old<It, V>;
    IF(PostInc) std::conditional_t<HAS(PostIncCopy), WRONG(PostInc, It, OldIt), V *> operator++(int);
    IF(Eq) WRONG(Eq, bool, Bad) operator==(It const &) const; IF(Ne) WRONG(Ne, bool, Bad) operator!=(It const &) const; IF(Lt) WRONG(Lt, bool, Bad) operator<(It const &) const; IF(Le) WRONG(Le, bool, Bad) operator<=(It const &) const; IF(Gt) WRONG(Gt, bool, Bad) operator>(It const &) const; IF(Ge) WRONG(Ge, bool, Bad) operator>=(It const &) const;
    IF(PreDec) WRONG(PreDec, It &, It const &) operator--(); IF(PostDec) WRONG(PostDec, It, OldIt) operator--(int); IF(Plus) WRONG(Plus, It, OldIt) operator+(std::ptrdiff_t) const; IF(Minus) WRONG(Minus, It, OldIt) operator-(std::ptrdiff_t) const; IF(Diff) WRONG(Diff, std::ptrdiff_t, int) operator-(It const &) const; IF(PlusA) WRONG(PlusA, It &, It const &) operator+=(std::ptrdiff_t); IF(MinusA) WRONG(MinusA, It &, It const &) operator-=(std::ptrdiff_t); IF(Index) WRONG(Index, V &, Bad) operator[](std::ptrdiff_t) const;
};
template <unsigned M, typename V, unsigned W> std::enable_if_t<HAS(PlusLeft), std::conditional_t<((W >> PlusLeft) & 1u) != 0, Bad, It<M, V, W>>> operator+(std::ptrdiff_t, It<M, V, W> const &);
template <unsigned M, typename V, unsigned W> std::enable_if_t<!HAS(Swap)> swap(It<M, V, W> &, It<M, V, W> &) = delete;
constexpr unsigned bits() { return 0; } template <typename ... R> constexpr unsigned bits(int a, R ... r) { return 1u << a | bits(r...); }
constexpr unsigned needIterator = bits(CopyC, CopyA, Swap, DerefRef, PreInc, Traits);
constexpr unsigned needInput = needIterator | bits(Eq, Ne, PostInc), needOutput = needIterator | bits(PostInc, PostIncCopy), needForward = needInput | bits(Default, PostIncCopy), needBidir = needForward | bits(PreDec, PostDec), needRandom = needBidir | bits(Plus, PlusLeft, Minus, Diff, PlusA, MinusA, Index, Lt, Le, Gt, Ge);
template <unsigned M, typename V, unsigned W = 0u> void iterators(std::string const & n, bool writable) {
    using I = It<M, V, W>; auto has = [](unsigned need) { /* *i++ may give something else for input and output. */ unsigned const right = M & ~((need & bits(Default)) ? W : W & ~bits(PostInc)); return (right & need) == need; };
    eq("Iterator", models<S::Iterator(I)>(), has(needIterator), n); eq("InputIterator", models<S::InputIterator(I)>(), has(needInput), n); eq("OutputIterator", models<S::OutputIterator(I)>(), has(needOutput) && writable, n);
    /* A reference to the (mutable) value is needed if it can be written to. */
    eq("ForwardIterator", models<S::ForwardIterator(I)>(), has(needForward), n); eq("BidirectionalIterator", models<S::BidirectionalIterator(I)>(), has(needBidir), n); eq("RandomAccessIterator", models<S::RandomAccessIterator(I)>(), has(needRandom), n);
    using Val = std::remove_const_t<V>;
    eq("IteratorTo", models<S::IteratorTo(I, Val)>(), has(needIterator), n); eq("InputIteratorTo", models<S::InputIteratorTo(I, Val)>(), has(needInput), n); eq("OutputIteratorTo", models<S::OutputIteratorTo(I, Val)>(), has(needOutput) && writable, n); eq("ForwardIteratorTo", models<S::ForwardIteratorTo(I, Val)>(), has(needForward), n); eq("BidirectionalIteratorTo", models<S::BidirectionalIteratorTo(I, Val)>(), has(needBidir), n); eq("RandomAccessIteratorTo", models<S::RandomAccessIteratorTo(I, Val)>(), has(needRandom), n);
    eq("InputIteratorTo others", models<S::InputIteratorTo(I, Plain)>(), false, n); eq("RandomAccessIteratorTo others", models<S::RandomAccessIteratorTo(I, long)>(), false, n);
    eq("ValueSwappable", models<S::ValueSwappable(I)>(), has(needIterator) && writable, n);
}
constexpr unsigned every = (1u << Count) - 1u;
template <int A, int B> void lacking() { auto const n = std::string("an iterator without ") + opNames[A] + (A == B ? "" : std::string(" and ") + opNames[B]); constexpr unsigned m = every & ~(1u << A | 1u << B); iterators<m, int>(n, true); if (A == B) iterators<m, int const>(n + " (constant)", false); }
template <int A, int ... B> void lackingWith(std::integer_sequence<int, B...>) { int x[] = { (lacking<A, (B < A ? B : A)>(), 0)... }; (void) x; }
template <int A> void lackingPairs() { lackingWith<A>(std::make_integer_sequence<int, A + 1>()); }
template <typename I> struct Known { static void is(char const * n, int level, bool out, bool swappable) { /* 0 none, 1 input, 2 forward, 3 bidirectional, 4 random access */
    eq("Iterator", models<S::Iterator(I)>(), level > 0, n); eq("InputIterator", models<S::InputIterator(I)>(), level > 0, n); eq("ForwardIterator", models<S::ForwardIterator(I)>(), level > 1, n); eq("BidirectionalIterator", models<S::BidirectionalIterator(I)>(), level > 2, n); eq("RandomAccessIterator", models<S::RandomAccessIterator(I)>(), level > 3, n); eq("OutputIterator", models<S::OutputIterator(I)>(), out, n); eq("ValueSwappable", models<S::ValueSwappable(I)>(), swappable, n);
} };
void known() {
    Known<int *>::is("int *", 4, true, true); Known<int const *>::is("int const *", 4, false, false); Known<std::string *>::is("std::string *", 4, true, true); Known<int>::is("int", 0, false, false); Known<Plain>::is("Plain", 0, false, false); Known<void *>::is("void *", 0, false, false);
    Known<std::vector<int>::iterator>::is("vector", 4, true, true); Known<std::vector<int>::const_iterator>::is("const vector", 4, false, false); Known<std::string::iterator>::is("string", 4, true, true); Known<std::list<int>::iterator>::is("list", 3, true, true); Known<std::list<int>::const_iterator>::is("const list", 3, false, false); Known<std::forward_list<int>::iterator>::is("forward_list", 2, true, true); Known<std::istream_iterator<int>>::is("istream (several passes cannot be told from its operations)", 2, false, false);
    Known<std::reverse_iterator<int *>>::is("reverse", 4, true, true); Known<std::reverse_iterator<std::list<int>::iterator>>::is("reverse list", 3, true, true);
    eq("IteratorValueTypeT", std::is_same<S::IteratorValueTypeT<int const *>, int>::value && std::is_same<S::IteratorReferenceT<int const *>, int const &>::value && std::is_same<S::IteratorPointerT<int const *>, int const *>::value && std::is_same<S::IteratorDifferenceTypeT<int const *>, std::ptrdiff_t>::value && std::is_same<S::IteratorCategoryT<std::list<int>::iterator>, std::bidirectional_iterator_tag>::value, true, "pointers");
}

/* Pointers with null, and hash functions, which lack operations. */
enum { NEq, NNe, NDefault, NCopy, NAssign, NSwap, NBool, NEqNull, NNullEq, NNeNull, NNullNe, NSetNull, NCount };
constexpr char const * nOps[] = { "==", "!=", "default construction", "copying", "assignment", "swapping", "conversion to bool", "== nullptr", "nullptr ==", "!= nullptr", "nullptr !=", "= nullptr" };
template <unsigned M> struct NP: Cp<HAS(NCopy), 1>, Ca<HAS(NAssign), 1>, Df<HAS(NDefault)> {
    NP & operator=(NP const &) = default; NP(NP const &) = default; NP(NP &&) = default; NP & operator=(NP &&) = default; NP() = default;
    IF(NEq) bool operator==(NP const &) const; IF(NNe) bool operator!=(NP const &) const; IF(NBool) operator bool() const;
    IF(NSetNull) NP & operator=(std::nullptr_t);
};
template <unsigned M> std::enable_if_t<!HAS(NEq)> operator==(NP<M> const &, NP<M> const &) = delete; template <unsigned M> std::enable_if_t<!HAS(NNe)> operator!=(NP<M> const &, NP<M> const &) = delete;
template <unsigned M> std::enable_if_t<HAS(NEqNull), bool> operator==(NP<M> const &, std::nullptr_t); template <unsigned M> std::enable_if_t<HAS(NNeNull), bool> operator!=(NP<M> const &, std::nullptr_t); template <unsigned M> std::enable_if_t<HAS(NNullEq), bool> operator==(std::nullptr_t, NP<M> const &); template <unsigned M> std::enable_if_t<HAS(NNullNe), bool> operator!=(std::nullptr_t, NP<M> const &);
template <unsigned M> std::enable_if_t<!HAS(NSwap)> swap(NP<M> &, NP<M> &) = delete;
constexpr unsigned nEvery = (1u << NCount) - 1u;
template <int A> void nullable() { constexpr unsigned m = nEvery & ~(1u << A); eq("NullablePointer", models<S::NullablePointer(NP<m>)>(), false, std::string("a pointer without ") + nOps[A]); }
template <int ... A> void nullables(std::integer_sequence<int, A...>) { int x[] = { (nullable<A>(), 0)... }; (void) x; }
template <int K> struct H; /* 0 good, 1 returns int, 2 not for constants, 3 not for mutable, 4 not copyable, 5 not destructible, 6 only lvalues of keys, 7 template */
template <> struct H<0> { std::size_t operator()(Plain const &) const; }; template <> struct H<1> { int operator()(Plain const &) const; }; template <> struct H<2> { std::size_t operator()(Plain const &); }; template <> struct H<3> { std::size_t operator()(Plain const &) const; std::size_t operator()(Plain const &) = delete; }; template <> struct H<4> { H(H const &) = delete; std::size_t operator()(Plain const &) const; }; template <> struct H<5> { ~H() = delete; std::size_t operator()(Plain const &) const; }; template <> struct H<6> { std::size_t operator()(Plain &) const; }; template <> struct H<7> { std::size_t operator()(Plain) const; }; template <> struct H<8> { std::size_t operator()(int) const; }; template <> struct H<9> { void operator()(Plain const &) const; };
void nullsAndHashes() {
    eq("NullablePointer", models<S::NullablePointer(NP<nEvery>)>(), true, "a complete pointer"); nullables(std::make_integer_sequence<int, NCount>());
    eq("NullablePointer", models<S::NullablePointer(int *)>() && models<S::NullablePointer(int const *)>() && models<S::NullablePointer(void *)>() && models<S::NullablePointer(int (*)(int))>() && models<S::NullablePointer(int Base::*)>(), true, "plain pointers"); eq("NullablePointer", models<S::NullablePointer(int)>() || models<S::NullablePointer(Plain)>() || models<S::NullablePointer(bool)>() || models<S::NullablePointer(std::string)>(), false, "others");
    eq("Hash", models<S::Hash(H<0>, Plain)>(), true, "a hash"); eq("Hash", models<S::Hash(H<1>, Plain)>(), false, "a hash which returns int"); eq("Hash", models<S::Hash(H<2>, Plain)>(), false, "a mutable hash"); eq("Hash", models<S::Hash(H<3>, Plain)>(), false, "a constant-only hash"); eq("Hash", models<S::Hash(H<4>, Plain)>(), false, "an uncopyable hash"); eq("Hash", models<S::Hash(H<6>, Plain)>(), false, "a hash of lvalues"); eq("Hash", models<S::Hash(H<7>, Plain)>(), true, "a hash of values"); eq("Hash", models<S::Hash(H<8>, Plain)>(), false, "a hash of others"); eq("Hash", models<S::Hash(H<9>, Plain)>(), false, "a hash which returns nothing"); eq("Hash", models<S::Hash(std::hash<int>, int)>() && models<S::Hash(std::hash<std::string>, std::string)>() && models<S::Hash(std::hash<int *>, int *)>(), true, "standard hashes"); eq("Hash", models<S::Hash(std::hash<int>, std::string)>() || models<S::Hash(int, int)>(), false, "no hashes");
}
/* A pointer one operation of which gives something else. */
template <int W> struct NR { NR(std::nullptr_t = nullptr); struct Sub; std::conditional_t<W == 0, Sub, NR> & operator=(std::nullptr_t); std::conditional_t<W == 1, NoBool, bool> operator==(NR const &) const; std::conditional_t<W == 2, NoBool, bool> operator!=(NR const &) const; std::conditional_t<W == 3, NoBool, bool> operator==(std::nullptr_t) const; std::conditional_t<W == 4, NoBool, bool> operator!=(std::nullptr_t) const; operator std::conditional_t<W == 5, NoBool, bool>() const; };
template <int W> struct NR<W>::Sub: NR<W> {}; template <int W> std::conditional_t<W == 6, NoBool, bool> operator==(std::nullptr_t, NR<W> const &); template <int W> std::conditional_t<W == 7, NoBool, bool> operator!=(std::nullptr_t, NR<W> const &);
template <int ... W> void nullResults(std::integer_sequence<int, W...>) { int x[] = { (eq("NullablePointer", models<S::NullablePointer(NR<W>)>(), W == 8, "a pointer with another result of operation " + std::to_string(W)), 0)... }; (void) x; }
/* A hash of (mutable or constant) values of three kinds by a mutable or constant function: every set of those which give std::size_t. */
template <unsigned M, unsigned I> using HashOr = std::conditional_t<((M >> I) & 1u) != 0, std::size_t, int>;
template <unsigned M> struct HM { HashOr<M, 0> operator()(Plain &); HashOr<M, 1> operator()(Plain &) const; HashOr<M, 2> operator()(Plain &&); HashOr<M, 3> operator()(Plain &&) const; HashOr<M, 4> operator()(Plain const &&); HashOr<M, 5> operator()(Plain const &&) const; };
template <unsigned ... M> void hashResults(std::integer_sequence<unsigned, M...>) { int x[] = { (eq("Hash", models<S::Hash(HM<M>, Plain)>(), M == 63u, "a hash with the results " + std::to_string(M)), 0)... }; (void) x; }
/* What i++ gives cannot be used as a value. */
struct OldBad; struct PostBad { using iterator_category = std::forward_iterator_tag; using value_type = int; using difference_type = std::ptrdiff_t; using pointer = int *; using reference = int &; int & operator*() const; PostBad & operator++(); OldBad operator++(int); bool operator==(PostBad const &) const; bool operator!=(PostBad const &) const; };
struct OldBad { operator PostBad const &() const; Bad operator*() const; };
void otherResults() { nullResults(std::make_integer_sequence<int, 9>()); hashResults(std::make_integer_sequence<unsigned, 64>()); eq("Iterator", models<S::Iterator(PostBad)>(), true, "an iterator the old value of which is no iterator"); eq("InputIterator", models<S::InputIterator(PostBad)>() || models<S::OutputIterator(PostBad)>() || models<S::ForwardIterator(PostBad)>(), false, "an iterator the old value of which is no iterator"); }
template <int A> void otherResult() { if (bits(A) & bits(CopyC, CopyA, Swap, PostIncCopy, Default, Traits)) return; iterators<every, int, bits(A)>(std::string("an iterator with another result of ") + opNames[A], true); iterators<every, int const, bits(A)>(std::string("a constant iterator with another result of ") + opNames[A], false); }
template <int ... A> void lackings(int part, std::integer_sequence<int, A...>) { int y[] = { (part == A ? otherResult<A>() : void(), 0)... }; (void) y; int x[] = { (part == A ? lackingPairs<A>() : void(), 0)... }; (void) x; }
} // namespace c48
SEQ_TEST(types, 0, 0) { c48::all(c48::All()); c48::unreferenceable(); c48::swapOrders(); }
SEQ_TEST(formulas, 0, 0) { c48::formulas(); c48::overloads(); }
SEQ_TEST(callables, 0, 0) { c48::predicates<bool>("bool", true); c48::predicates<int>("int", true); c48::predicates<c48::AsInt>("AsInt", true); c48::predicates<c48::AsBool>("AsBool", false); c48::predicates<void>("void", false); c48::predicates<c48::R0>("R0", false); c48::predicates<int *>("int *", true); c48::predicates<std::string>("std::string", false); }
SEQ_TEST(comparisons, 0, 0) { c48::comparison<c48::S::EqualityComparable>("EqualityComparable", 0); c48::qualifications<c48::S::EqualityComparable>("EqualityComparable", std::make_integer_sequence<unsigned, 16>()); c48::comparison<c48::S::InequalityComparable>("InequalityComparable", 1); c48::qualifications<c48::S::InequalityComparable>("InequalityComparable", std::make_integer_sequence<unsigned, 16>()); c48::comparison<c48::S::LessThanComparable>("LessThanComparable", 2); c48::qualifications<c48::S::LessThanComparable>("LessThanComparable", std::make_integer_sequence<unsigned, 16>()); c48::comparison<c48::S::LessOrEqualComparable>("LessOrEqualComparable", 3); c48::qualifications<c48::S::LessOrEqualComparable>("LessOrEqualComparable", std::make_integer_sequence<unsigned, 16>()); c48::comparison<c48::S::GreaterThanComparable>("GreaterThanComparable", 4); c48::qualifications<c48::S::GreaterThanComparable>("GreaterThanComparable", std::make_integer_sequence<unsigned, 16>()); c48::comparison<c48::S::GreaterOrEqualComparable>("GreaterOrEqualComparable", 5); c48::qualifications<c48::S::GreaterOrEqualComparable>("GreaterOrEqualComparable", std::make_integer_sequence<unsigned, 16>()); }
SEQ_TEST(iterators, 0, 0) { using namespace c48; int const p = seq::choose(Count + 1); if (p == Count) { iterators<every, int>("a complete iterator", true); iterators<every, int const>("a complete constant iterator", false); known(); } else lackings(p, std::make_integer_sequence<int, Count>()); }
SEQ_TEST(pointers_and_hashes, 0, 0) { c48::nullsAndHashes(); c48::otherResults(); }
