// C46: every list of up to three types and values (of three kinds each), instantiated, against run-time models.
// CFLAGS: -O0 -g0
// WARNINGS: -Wno-all -Werror=narrowing
#include "seq.h"
#include <cstddef>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <sharemind/AlwaysFalse.h>
#include <sharemind/AlwaysFalsePred.h>
#include <sharemind/AlwaysFalseType.h>
#include <sharemind/AlwaysFalseTypePred.h>
#include <sharemind/AlwaysTrue.h>
#include <sharemind/AlwaysTruePred.h>
#include <sharemind/AlwaysTrueType.h>
#include <sharemind/AlwaysTrueTypePred.h>
#include <sharemind/CopyCv.h>
#include <sharemind/Detected.h>
#include <sharemind/FunctionTraits.h>
#include <sharemind/RemoveCvref.h>
#include <sharemind/Size.h>
#include <sharemind/SizeOfTypes.h>
#include <sharemind/StripAndDecay.h>
#include <sharemind/TemplateAll.h>
#include <sharemind/TemplateAny.h>
#include <sharemind/TemplateAppend.h>
#include <sharemind/TemplateAppendTypes.h>
#include <sharemind/TemplateCommonPrefixTypes.h>
#include <sharemind/TemplateCondAppend.h>
#include <sharemind/TemplateCondAppendType.h>
#include <sharemind/TemplateContainsType.h>
#include <sharemind/TemplateCopyParams.h>
#include <sharemind/TemplateCountTypes.h>
#include <sharemind/TemplateFilter.h>
#include <sharemind/TemplateFilterTypes.h>
#include <sharemind/TemplateFirstType.h>
#include <sharemind/TemplateGetParam.h>
#include <sharemind/TemplateGetTypeParam.h>
#include <sharemind/TemplateInstantiateWithTypeParams.h>
#include <sharemind/TemplateInverseCondAppend.h>
#include <sharemind/TemplateInverseCondAppendType.h>
#include <sharemind/TemplateInverseFilter.h>
#include <sharemind/TemplateInverseTypeFilter.h>
#include <sharemind/TemplateLastType.h>
#include <sharemind/TemplateList.h>
#include <sharemind/TemplateNone.h>
#include <sharemind/TemplatePrefixTypes.h>
#include <sharemind/TemplatePrepend.h>
#include <sharemind/TemplatePrependTypes.h>
#include <sharemind/TemplateSubTypes.h>
#include <sharemind/TemplateSuffixTypes.h>
#include <sharemind/TemplateTypeList.h>
#include <sharemind/TypeIdentity.h>

namespace {
using namespace sharemind; using Str = std::string;
/* Three types; a list of them is written as a string of a, b and c. */
/* Different types, however closely related they are. */
struct A { char x[1]; }; struct B: A { char y[2]; B() {} B(A const &) {} }; struct C: B { char z[4]; C() {} C(A const &) {} C(B const &) {} };
template <typename T> struct Name; template <> struct Name<A> { static constexpr char v = 'a'; }; template <> struct Name<B> { static constexpr char v = 'b'; }; template <> struct Name<C> { static constexpr char v = 'c'; };
template <typename ... T> struct Box {}; template <typename ... T> struct Other {}; template <int ... v> struct Ints {}; template <int ... v> struct Ints2 {};
template <typename T> struct Text;
template <typename ... T> struct Text<Box<T...>> { static Str s() { char const c[] = { 'B', Name<T>::v..., 0 }; return c; } }; template <typename ... T> struct Text<Other<T...>> { static Str s() { char const c[] = { 'O', Name<T>::v..., 0 }; return c; } };
template <typename ... T> struct Text<TemplateTypeList<T...>> { static Str s() { char const c[] = { 'L', Name<T>::v..., 0 }; return c; } }; template <typename ... T> struct Text<std::tuple<T...>> { static Str s() { char const c[] = { 'T', Name<T>::v..., 0 }; return c; } };
template <int ... v> struct Text<Ints<v...>> { static Str s() { char const c[] = { 'I', char('0' + v)..., 0 }; return c; } }; template <int ... v> struct Text<Ints2<v...>> { static Str s() { char const c[] = { 'J', char('0' + v)..., 0 }; return c; } };
template <int ... v> struct Text<TemplateList<int, v...>> { static Str s() { char const c[] = { 'M', char('0' + v)..., 0 }; return c; } };
template <typename T> Str text() { return Text<T>::s(); }
void eq(char const * what, Str const & got, Str const & want, Str const & of) { seq::count(1); SEQ_CHECK(got == want, "%s of `%s': `%s' instead of `%s'", what, of.c_str(), got.c_str(), want.c_str()); }
void eq(char const * what, std::size_t got, std::size_t want, Str const & of) { seq::count(1); SEQ_CHECK(got == want, "%s of `%s': %zu instead of %zu", what, of.c_str(), got, want); }
/* Predicates for all subsets of the types and values. */
template <int Set> struct In { template <typename T> struct P: std::integral_constant<bool, (Set >> (Name<T>::v - 'a')) & 1> {}; template <int v> struct V: std::integral_constant<bool, (Set >> v) & 1> {}; };
Str keep(Str const & s, int set, bool yes, char base) { Str r; for (char c : s) if (bool((set >> (c - base)) & 1) == yes) r += c; return r; }

template <int Set, typename ... T> struct Filters { static void run(Str const & s) {
    eq("TemplateFilterTypes", text<TemplateFilterTypes_t<In<Set>::template P, T...>>(), "L" + keep(s, Set, true, 'a'), s); eq("TemplateInverseTypeFilter", text<TemplateInverseTypeFilter_t<In<Set>::template P, T...>>(), "L" + keep(s, Set, false, 'a'), s);
    eq("TemplateCondAppendType", text<TemplateCondAppendType_t<In<Set>::template P, Box<A, C>, T...>>(), "Bac" + keep(s, Set, true, 'a'), s); eq("TemplateInverseCondAppendType", text<TemplateInverseCondAppendType_t<In<Set>::template P, Box<A, C>, T...>>(), "Bac" + keep(s, Set, false, 'a'), s);
    eq("TemplateCondAppendType", text<TemplateCondAppendType_t<In<Set>::template P, std::tuple<>, T...>>(), "T" + keep(s, Set, true, 'a'), s); eq("TemplateInverseCondAppendType", text<TemplateInverseCondAppendType_t<In<Set>::template P, Other<>, T...>>(), "O" + keep(s, Set, false, 'a'), s);
} };
template <int Set, int ... v> struct VFilters { static void run(Str const & s) {
    eq("TemplateFilter", text<TemplateFilter_t<int, In<Set>::template V, v...>>(), "M" + keep(s, Set, true, '0'), s); eq("TemplateInverseFilter", text<TemplateInverseFilter_t<int, In<Set>::template V, v...>>(), "M" + keep(s, Set, false, '0'), s);
    eq("TemplateCondAppend", text<TemplateCondAppend_t<int, In<Set>::template V, Ints<2, 0>, v...>>(), "I20" + keep(s, Set, true, '0'), s); eq("TemplateInverseCondAppend", text<TemplateInverseCondAppend_t<int, In<Set>::template V, Ints2<2, 0>, v...>>(), "J20" + keep(s, Set, false, '0'), s);
} };
template <std::size_t N> using Idx = std::integral_constant<std::size_t, N>;
template <std::size_t S, std::size_t N, typename ... T> void sub(Str const & s, std::true_type) { eq("TemplateSubTypes", text<TemplateSubTypes_t<S, N, T...>>(), "L" + s.substr(S, N), s); eq("TemplateSubTypes", text<typename TemplateSubTypes<S, N, T...>::type>(), "L" + s.substr(S, N), s); }
template <std::size_t S, std::size_t N, typename ... T> void sub(Str const &, std::false_type) {}
template <std::size_t N, typename ... T> void ends(Str const & s, std::true_type) { eq("TemplatePrefixTypes", text<TemplatePrefixTypes_t<N, T...>>(), "L" + s.substr(0, N), s); eq("TemplateSuffixTypes", text<TemplateSuffixTypes_t<N, T...>>(), "L" + s.substr(s.size() - N), s); }
template <std::size_t N, typename ... T> void ends(Str const &, std::false_type) {}
template <std::size_t I, typename ... T> void get(Str const & s, std::true_type) { eq("TemplateGetTypeParam", Str(1, Name<TemplateGetTypeParam_t<I, T...>>::v), s.substr(I, 1), s); eq("TemplateTypeList::type", Str(1, Name<typename TemplateTypeList<T...>::template type<I>>::v), s.substr(I, 1), s); eq("FunctionTraits argument", Str(1, Name<typename FunctionTraits<int(T...)>::template argument<I>>::v), s.substr(I, 1), s); }
template <std::size_t I, typename ... T> void get(Str const &, std::false_type) {}
template <typename T, typename ... Ts> struct Ends { static void run(Str const & s) { eq("TemplateFirstType", Str(1, Name<TemplateFirstType<T, Ts...>>::v), s.substr(0, 1), s); eq("TemplateLastType", Str(1, Name<TemplateLastType<T, Ts...>>::v), s.substr(s.size() - 1), s); } };
template <typename ... T> struct NonEmpty { static void run(Str const &) {} }; template <typename T, typename ... Ts> struct NonEmpty<T, Ts...>: Ends<T, Ts...> {};
template <typename R, typename ... T> struct Fun { R operator()(T ...) const; }; template <typename R, typename ... T> struct Fun2 { R operator()(T ...); };
template <typename X> Str fn(Str const & self) { using F = FunctionTraits<X>; static_assert(std::is_same<typename F::return_type, C>::value, "return type"); (void) self; return std::to_string(F::arity()); }
template <typename X, typename ... Args> constexpr bool argsAre() { return std::is_same<typename FunctionTraits<X>::arguments, TemplateTypeList<Args...>>::value; }
template <typename ... T> struct Pairs; /* all lists combined with some others */
template <typename L, typename ... T> struct Two;
template <typename ... U, typename ... T> struct Two<Box<U...>, T...> { static void run(Str const & s) {
    Str const u = text<Box<U...>>().substr(1), pair = u + "|" + s; std::size_t k = 0; while (k < u.size() && k < s.size() && u[k] == s[k]) ++k;
    eq("TemplateAppendTypes", text<TemplateAppendTypes_t<Box<U...>, T...>>(), "B" + u + s, pair); eq("TemplatePrependTypes", text<TemplatePrependTypes_t<Box<U...>, T...>>(), "B" + s + u, pair);
    eq("TemplateCommonPrefixTypes", text<TemplateCommonPrefixTypes_t<Box<U...>, Other<T...>>>(), "L" + u.substr(0, k), pair); eq("TemplateCommonPrefixTypes", text<TemplateCommonPrefixTypes_t<std::tuple<T...>, Box<U...>, Other<T...>>>(), "L" + u.substr(0, k), pair);
    std::size_t j = 0; while (j < k && j < 2 && u[j] == Str("ab")[j]) ++j; eq("TemplateCommonPrefixTypes", text<TemplateCommonPrefixTypes_t<Box<U...>, Other<T...>, TemplateTypeList<A, B>>>(), "L" + u.substr(0, j), pair);
    eq("TemplateInstantiateWithTypeParams", text<TemplateInstantiateWithTypeParams_t<Other, Box<U...>, std::tuple<T...>>>(), "O" + u + s, pair); eq("TemplateInstantiateWithTypeParams", text<TemplateInstantiateWithTypeParams_t<Other, Box<U...>, std::tuple<T...>, Box<C, A>, Box<>>>(), "O" + u + s + "ca", pair);
} };
template <typename ... T> struct One { static void run() {
    Str const s = text<Box<T...>>().substr(1); auto constexpr n = sizeof...(T);
    Filters<0, T...>::run(s); Filters<1, T...>::run(s); Filters<2, T...>::run(s); Filters<3, T...>::run(s); Filters<4, T...>::run(s); Filters<5, T...>::run(s); Filters<6, T...>::run(s); Filters<7, T...>::run(s);
#define S_(S, N) sub<S, N, T...>(s, std::integral_constant<bool, S + N <= n>());
    S_(0, 0) S_(0, 1) S_(0, 2) S_(0, 3) S_(1, 0) S_(1, 1) S_(1, 2) S_(2, 0) S_(2, 1) S_(3, 0)
#undef S_
#define E_(N) ends<N, T...>(s, std::integral_constant<bool, N <= n>()); get<N, T...>(s, std::integral_constant<bool, (N < n)>());
    E_(0) E_(1) E_(2) E_(3)
#undef E_
    NonEmpty<T...>::run(s);
    std::size_t ca = 0, cb = 0, size = 0; for (char c : s) { ca += c == 'a'; cb += c == 'b'; size += c == 'a' ? 1 : c == 'b' ? 3 : 7; }
    eq("TemplateCountTypes", TemplateCountTypes<A, T...>::value, ca, s); eq("TemplateCountTypes", TemplateCountTypes_v<B, T...>, cb, s); eq("TemplateContainsType", TemplateContainsType<A, T...>::value, ca != 0, s); eq("TemplateContainsType", TemplateContainsType_v<B, T...>, cb != 0, s);
    eq("SizeOfTypes", SizeOfTypes<T...>::value, size, s); eq("sizeOfTypes", sizeOfTypes<T...>(), size, s); eq("TemplateTypeList::size", TemplateTypeList<T...>::size(), n, s); eq("TemplateTypeList::AsTuple", text<typename TemplateTypeList<T...>::AsTuple>(), "T" + s, s);
    eq("TemplateInstantiateWithTypeParams", text<TemplateInstantiateWithTypeParams_t<Box, Other<T...>>>(), "B" + s, s); eq("TemplateInstantiateWithTypeParams", text<TemplateInstantiateWithTypeParams_t<Box>>(), "B", s); eq("TemplateCommonPrefixTypes", text<TemplateCommonPrefixTypes_t<Box<T...>>>(), "L" + s, s); eq("TemplateCommonPrefixTypes", text<TemplateCommonPrefixTypes_t<>>(), "L", s);
    Two<Box<>, T...>::run(s); Two<Box<A>, T...>::run(s); Two<Box<B>, T...>::run(s); Two<Box<A, B>, T...>::run(s); Two<Box<A, A>, T...>::run(s); Two<Box<A, B, C>, T...>::run(s); Two<Box<C, A, C>, T...>::run(s); Two<Box<A, C, C>, T...>::run(s);
    using F = Fun<C, T...>; using F2 = Fun2<C, T...>; Str const k = std::to_string(n), k1 = std::to_string(n + 1);
    eq("arity", fn<C(T...)>(s), k, s); eq("arity", fn<C(*)(T...)>(s), k, s); eq("arity", fn<C(&)(T...)>(s), k, s); eq("arity", fn<C(A::*)(T...)>(s), k1, s); eq("arity", fn<C(A::*)(T...) const>(s), k1, s); eq("arity", fn<C(A::*)(T...) volatile>(s), k1, s); eq("arity", fn<C(A::*)(T...) const volatile>(s), k1, s);
    eq("arity", fn<F>(s), k1, s); eq("arity", fn<F const &>(s), k1, s); eq("arity", fn<F &&>(s), k1, s); eq("arity", fn<F2 &>(s), k1, s); eq("arity", fn<F2>(s), k1, s); eq("arity", fn<F const &&>(s), k1, s); eq("arity", fn<F volatile &>(s), k1, s); eq("arity", fn<F volatile &&>(s), k1, s); eq("arity", fn<F const volatile &>(s), k1, s); eq("arity", fn<F const volatile &&>(s), k1, s); eq("arity", fn<F2 const volatile &&>(s), k1, s);
    static_assert(argsAre<C(T...), T...>() && argsAre<C(*)(T...), T...>() && argsAre<C(A::*)(T...), A *, T...>() && argsAre<C(A::*)(T...) const, A const *, T...>() && argsAre<C(A::*)(T...) volatile, A volatile *, T...>() && argsAre<C(A::*)(T...) const volatile, A const volatile *, T...>() && argsAre<F, F const *, T...>() && argsAre<F2, F2 *, T...>(), "arguments");
    static_assert(AlwaysTrueType<T...>::value && !AlwaysFalseType<T...>::value, "");
} };
template <int ... v> struct VOne { static void run() {
    Str const s = text<Ints<v...>>().substr(1); VFilters<0, v...>::run(s); VFilters<1, v...>::run(s); VFilters<2, v...>::run(s); VFilters<3, v...>::run(s); VFilters<4, v...>::run(s); VFilters<5, v...>::run(s); VFilters<6, v...>::run(s); VFilters<7, v...>::run(s);
    eq("TemplateAppend", text<TemplateAppend_t<int, Ints<>, v...>>(), "I" + s, s); eq("TemplateAppend", text<TemplateAppend_t<int, Ints<1, 2>, v...>>(), "I12" + s, s); eq("TemplatePrepend", text<TemplatePrepend_t<int, Ints2<1, 2>, v...>>(), "J" + s + "12", s); eq("TemplatePrepend", text<TemplatePrepend_t<int, Ints2<>, v...>>(), "J" + s, s);
    eq("TemplateCopyParams", text<TemplateCopyParams_t<int, Ints<v...>, Ints2>>(), "J" + s, s); eq("TemplateList::size", TemplateList<int, v...>::size(), s.size(), s); eq("TemplateList", text<typename TemplateList<int, v...>::type>(), "M" + s, s);
    eq("TemplateAll", TemplateAll<(v != 0)...>::value, s.find('0') == Str::npos, s); eq("TemplateAny", TemplateAny<(v != 0)...>::value, s.find_first_not_of('0') != Str::npos, s); eq("TemplateNone", TemplateNone<(v != 0)...>::value, s.find_first_not_of('0') == Str::npos, s);
    static_assert(AlwaysTrue<int, v...>::value && !AlwaysFalse<int, v...>::value, ""); nth<0>(s, std::integral_constant<bool, (0 < sizeof...(v))>()); nth<1>(s, std::integral_constant<bool, (1 < sizeof...(v))>()); nth<2>(s, std::integral_constant<bool, (2 < sizeof...(v))>());
}
    template <std::size_t I> static void nth(Str const & s, std::true_type) { eq("TemplateGetParam", TemplateGetParam<int, I, v...>::value, std::size_t(s[I] - '0'), s); eq("TemplateGetParam", TemplateGetParam_t<int, I, v...>::value, std::size_t(s[I] - '0'), s); }
    template <std::size_t I> static void nth(Str const &, std::false_type) {}
};
template <int Left, typename ... T> struct All { static void go() { switch (seq::choose(4)) { case 0: One<T...>::run(); break; case 1: All<Left - 1, T..., A>::go(); break; case 2: All<Left - 1, T..., B>::go(); break; case 3: All<Left - 1, T..., C>::go(); break; } } };
template <typename ... T> struct All<0, T...> { static void go() { One<T...>::run(); } };
template <int Left, int ... v> struct VAll { static void go() { switch (seq::choose(4)) { case 0: VOne<v...>::run(); break; case 1: VAll<Left - 1, v..., 0>::go(); break; case 2: VAll<Left - 1, v..., 1>::go(); break; case 3: VAll<Left - 1, v..., 2>::go(); break; } } };
template <int ... v> struct VAll<0, v...> { static void go() { VOne<v...>::run(); } };
SEQ_TEST(type_lists, 0, 0) { All<3>::go(); }
SEQ_TEST(value_lists, 0, 0) { VAll<3>::go(); }
/* Type transformations: all combinations of qualifiers. */
template <typename T, int cv> using Q = std::conditional_t<cv == 0, T, std::conditional_t<cv == 1, T const, std::conditional_t<cv == 2, T volatile, T const volatile>>>;
template <typename T> constexpr int cvOf() { return (std::is_const<T>::value ? 1 : 0) + (std::is_volatile<T>::value ? 2 : 0); }
template <int t, int f> void cv() {
    using T = Q<A, t>; using F = Q<B, f>;
    static_assert(std::is_same<std::remove_cv_t<CopyCv_t<T, F>>, A>::value && std::is_same<std::remove_cv_t<OrCv_t<T, F>>, A>::value && std::is_same<std::remove_cv_t<CopyConst_t<T, F>>, A>::value && std::is_same<std::remove_cv_t<CopyVolatile_t<T, F>>, A>::value, "");
    eq("CopyCv", cvOf<CopyCv_t<T, F>>(), f, std::to_string(t) + std::to_string(f)); eq("OrCv", cvOf<OrCv_t<T, F>>(), t | f, std::to_string(t) + std::to_string(f)); eq("CopyConst", cvOf<CopyConst_t<T, F>>(), (t & 2) | (f & 1), std::to_string(t) + std::to_string(f)); eq("CopyVolatile", cvOf<CopyVolatile_t<T, F>>(), (t & 1) | (f & 2), std::to_string(t) + std::to_string(f));
    eq("OrConst", cvOf<OrConst_t<T, F>>(), t | (f & 1), ""); eq("OrVolatile", cvOf<OrVolatile_t<T, F>>(), t | (f & 2), ""); static_assert(std::is_same<RemoveCvrefT<T>, A>::value && std::is_same<RemoveCvrefT<T &>, A>::value && std::is_same<RemoveCvrefT<T &&>, A>::value && std::is_same<typename RemoveCvref<F const &>::type, B>::value && std::is_same<TypeIdentityT<T>, T>::value && std::is_same<StripAndDecay_t<T &>, A>::value && std::is_same<StripAndDecay_t<std::reference_wrapper<T>>, T &>::value, "");
    static_assert(AlwaysTrueTypePred<T>::value && !AlwaysFalseTypePred<T>::value && AlwaysTruePred<int, t>::value && !AlwaysFalsePred<int, f>::value, "");
}
template <int t> void cvs() { cv<t, 0>(); cv<t, 1>(); cv<t, 2>(); cv<t, 3>(); }
SEQ_TEST(qualifiers, 0, 0) { cvs<0>(); cvs<1>(); cvs<2>(); cvs<3>(); }
/* Detection of expressions. */
template <typename T> using Inner = typename T::inner; template <typename T, typename U> using Sum = decltype(std::declval<T>() + std::declval<U>()); struct Has { using inner = char; };
SEQ_TEST(detection, 0, 0) {
    static_assert(IsDetected<Inner, Has>::value && !IsDetected<Inner, A>::value && IsDetected<Sum, int, long>::value && !IsDetected<Sum, A, int>::value && !IsDetected<Sum, int>::value, ""); static_assert(std::is_same<DetectedT<Inner, Has>, char>::value && std::is_same<DetectedT<Inner, A>, NoneSuch>::value && std::is_same<DetectedOrT<long, Inner, A>, long>::value && std::is_same<DetectedOrT<long, Inner, Has>, char>::value, "");
    static_assert(IsDetectedExact<char, Inner, Has>::value && !IsDetectedExact<int, Inner, Has>::value && !IsDetectedExact<char, Inner, A>::value && IsDetectedConvertible<int, Inner, Has>::value && !IsDetectedConvertible<A, Inner, Has>::value && IsDetectedConvertible<long, Sum, int, char>::value, ""); static_assert(DetectedOr<long, Inner, Has>::ValueType::value && !DetectedOr<long, Inner, A>::ValueType::value, "");
    int arr[5]; std::vector<int> v(3); SEQ_CHECK(sharemind::size(arr) == 5 && sharemind::size(v) == 3, "size()"); static_assert(sharemind::size("abc") == 4, ""); seq::count(1);
}
} // namespace
