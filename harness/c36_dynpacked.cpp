// C36: every choice of small element counts, and all short copy/move histories.
#include "seq.h"
#include <cstdint>
#include <cstring>
#include <limits>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <sharemind/MaybeDynamicPackedStruct.h>
#include <sharemind/MaybeDynamicPackingInfo.h>

namespace {
using namespace sharemind;
using Sz = std::size_t; using Bytes = std::vector<unsigned char>; constexpr Sz MAX = std::numeric_limits<Sz>::max();
struct P3 { unsigned char a[3]; };
using R = DynamicFieldPlaceholder<>; template <typename T> using A = DynamicVectorFieldPlaceholder<T>;
template <typename T> struct K { using E = T; static constexpr bool dyn = false, raw = false; static constexpr Sz size = sizeof(T), min = 1, max = 1; };
template <Sz a, Sz b> struct K<DynamicFieldPlaceholder<a, b>> { using E = char; static constexpr bool dyn = true, raw = true; static constexpr Sz size = 1, min = a, max = b; };
template <typename T, Sz a, Sz b> struct K<DynamicVectorFieldPlaceholder<T, a, b>> { using E = T; static constexpr bool dyn = true, raw = false; static constexpr Sz size = sizeof(T), min = a, max = b; };
Sz sadd(Sz a, Sz b) { return a > MAX - b ? MAX : a + b; }
Sz smul(Sz a, Sz b) { return b && a > MAX / b ? MAX : a * b; }

template <typename ... Ts> struct Lay {
    using D = DynamicPackedStruct<Ts...>; using I = DynamicPackingInfo<Ts...>;
    static constexpr Sz n = sizeof...(Ts); static constexpr Sz nd = I::numDynamicFields();
    /* counts has one entry for each dynamic field. */
    static std::vector<Sz> offsets(std::vector<Sz> const & counts) {
        bool const dyn[] = { K<Ts>::dyn..., false }; Sz const size[] = { K<Ts>::size..., 0 }; std::vector<Sz> r; Sz o = 0, c = 0;
        for (Sz i = 0; i < n; ++i) { r.push_back(o); o = sadd(o, dyn[i] ? smul(size[i], counts[c++]) : size[i]); } r.push_back(o); return r;
    }
    template <typename F, Sz ... J> static auto with(F f, std::vector<Sz> const & c, std::index_sequence<J...>) { (void)c; return f(c[J]...); }
    static std::unique_ptr<D> make(std::vector<Sz> const & c) { return with([](auto ... x) { return std::unique_ptr<D>(new D(x...)); }, c, std::make_index_sequence<nd>()); }
    static Sz sizeInBytes(std::vector<Sz> const & c) { return with([](auto ... x) { return I::sizeInBytes(x...); }, c, std::make_index_sequence<nd>()); }
    static bool validSizes(std::vector<Sz> const & c) { return with([](auto ... x) { return I::validSizes(x...); }, c, std::make_index_sequence<nd>()); }
    static typename I::AccumArrayType accum(std::vector<Sz> const & c) { return with([](auto ... x) { return typename I::AccumArrayType(x...); }, c, std::make_index_sequence<nd>()); }
    static void populate(Sz * p, std::vector<Sz> const & c) { with([p](auto ... x) { I::populateAccumArray(p, x...); return 0; }, c, std::make_index_sequence<nd>()); }
    struct Obj { std::unique_ptr<D> d; Bytes b; std::vector<Sz> counts; bool data; };

    template <typename P> static P const * addr(P const * p) { return p; }
    template <typename T> static void const * addr(UnalignedPointer<T> p) { return static_cast<CopyCv_t<void, T> *>(p); }
    template <Sz F, typename T = typename K<TemplateGetTypeParam_t<F, Ts...>>::E> static typename std::enable_if<!K<TemplateGetTypeParam_t<F, Ts...>>::raw>::type refs(Obj & o, Sz off, Sz len, typename I::AccumArrayType const & acc) {
        if (len < sizeof(T)) return; D & d = *o.d; D const & c = d; T v; std::memcpy(&v, &o.b[off], sizeof v); T const got[] = { d.template ref<F>(), d.template cref<F>(), c.template cref<F>(), *d.template ptr<F>(), *c.template constPtr<F>(), I::template cref<F>(d.constData(), acc), I::template ref<F>(d.data(), acc) }; for (auto const & x : got) SEQ_CHECK(!std::memcmp(&x, &v, sizeof v), "field %zu reads something else", F);
        for (Sz i = 0; (i + 1) * sizeof(T) <= len; ++i) { T const x = d.template ptr<F>()[std::ptrdiff_t(i)], y = *(c.template constPtr<F>() + std::ptrdiff_t(i)); std::memcpy(&v, &o.b[off + i * sizeof(T)], sizeof v); SEQ_CHECK(!std::memcmp(&x, &v, sizeof v) && !std::memcmp(&y, &v, sizeof v), "element %zu of field %zu reads something else", i, F); }
        T w; std::memset(&w, 0x3c ^ int(F), sizeof w); d.template ref<F>() = w; std::memcpy(&o.b[off], &w, sizeof w); same(o, "write through a reference");
    }
    template <Sz F, typename T = int> static typename std::enable_if<K<TemplateGetTypeParam_t<F, Ts...>>::raw>::type refs(Obj &, Sz, Sz, typename I::AccumArrayType const &) {}
    template <Sz F, typename T = typename K<TemplateGetTypeParam_t<F, Ts...>>::E> static typename std::enable_if<!K<TemplateGetTypeParam_t<F, Ts...>>::dyn>::type sets(Obj & o, Sz off, typename I::AccumArrayType const & acc) {
        D & d = *o.d; D const & c = d; T v; std::memset(&v, 0x51 + int(F), sizeof v); { T const back = d.template set<F>(v); SEQ_CHECK(!std::memcmp(&back, &v, sizeof v), "set() of field %zu returns a reference to something else", F); } std::memcpy(&o.b[off], &v, sizeof v); same(o, "set"); T const g[] = { d.template get<F>(), c.template get<F>(), I::template get<F>(d.data(), acc), acc.template get<F>(d.data()) }; for (auto const & x : g) SEQ_CHECK(!std::memcmp(&x, &v, sizeof v), "get() of field %zu", F);
        std::memset(&v, 0x71 + int(F), sizeof v); { T const back = I::template set<F>(d.data(), acc, v); SEQ_CHECK(!std::memcmp(&back, &v, sizeof v), "set() of field %zu returns a reference to something else", F); } std::memcpy(&o.b[off], &v, sizeof v); same(o, "set");
    }
    template <Sz F, typename T = int> static typename std::enable_if<K<TemplateGetTypeParam_t<F, Ts...>>::dyn>::type sets(Obj &, Sz, typename I::AccumArrayType const &) {}
    template <Sz F> static void field(Obj & o, std::vector<Sz> const & off, typename I::AccumArrayType const & acc) {
        D & d = *o.d; D const & c = d; auto * base = static_cast<unsigned char *>(d.data()); void const * const w = base + off[F];
        SEQ_CHECK(d.template elemOffset<F>() == off[F] && acc.template elemOffset<F>() == off[F] && I::template elemOffset<F>(acc) == off[F], "offset of field %zu is %zu instead of %zu", F, d.template elemOffset<F>(), off[F]);
        void const * const p[] = { d.template voidPtr<F>(), c.template constVoidPtr<F>(), addr(d.template ptr<F>()), addr(c.template constPtr<F>()), I::template voidPtr<F>(d.data(), acc), I::template constVoidPtr<F>(d.data(), acc), addr(I::template ptr<F>(d.data(), acc)), addr(I::template constPtr<F>(d.data(), acc)) };
        for (auto x : p) SEQ_CHECK(x == w, "address of field %zu is wrong", F);
        refs<F>(o, off[F], off[F + 1] - off[F], acc); sets<F>(o, off[F], acc);
        for (Sz i = off[F]; i < off[F + 1]; ++i) { static_cast<unsigned char *>(d.template voidPtr<F>())[i - off[F]] = o.b[i] = static_cast<unsigned char>(i * 11 + F); } same(o, "write of a field");
        SEQ_CHECK(I::template PrefixType<F>::numFields() == F && I::template SuffixType<n - F>::numFields() == n - F, "parts");
    }
    template <Sz ... F> static void fields(Obj & o, std::vector<Sz> const & off, typename I::AccumArrayType const & acc, std::index_sequence<F...>) { int x[] = { (field<F>(o, off, acc), 0)..., 0 }; (void)x; }
    static void same(Obj const & o, char const * what) {
        D const & c = *o.d; if (!o.data) { SEQ_CHECK(!c.data(), "%s: data in an object which lost it", what); return; }
        SEQ_CHECK(c.size() == o.b.size(), "%s: size %zu instead of %zu", what, c.size(), o.b.size()); SEQ_CHECK(c.data() && c.data() == c.constData(), "%s: no data", what); if (!o.b.empty()) SEQ_CHECK(!std::memcmp(c.data(), o.b.data(), o.b.size()), "%s: contents changed", what);
        seq::count(1);
    }
    static void full(Obj & o) {
        same(o, "initially"); if (!o.data) return; auto const off = offsets(o.counts); auto const acc = accum(o.counts); Sz raw[nd + 1] = {}; raw[nd] = 4711; populate(raw, o.counts); for (Sz i = 0; i < nd; ++i) SEQ_CHECK(raw[i] == acc[i], "accumulated size %zu", i); SEQ_CHECK(raw[nd] == 4711, "accumulated sizes written beyond their number");
        D const & c = *o.d; void const * const e = static_cast<unsigned char *>(o.d->data()) + off[n];
        SEQ_CHECK(c.size() == off[n] && acc.structSizeInBytes() == off[n] && I::sizeFromAccum(acc) == off[n] && sizeInBytes(o.counts) == off[n], "size");
        SEQ_CHECK(c.endVoidPtr() == e && o.d->endVoidPtr() == e && c.endConstVoidPtr() == e && acc.endVoidPtr(o.d->data()) == e && acc.endVoidPtr(c.data()) == e && acc.endConstVoidPtr(c.data()) == e && I::endVoidPtr(o.d->data(), acc) == e && I::endVoidPtr(c.data(), acc) == e && I::endConstVoidPtr(c.data(), acc) == e, "end address");
        fields(o, off, acc, std::make_index_sequence<n>());
    }
    static void statics() {
        Sz const mn[] = { smul(K<Ts>::size, K<Ts>::min)..., 0 }, mx[] = { smul(K<Ts>::size, K<Ts>::max)..., 0 }; bool const dyn[] = { K<Ts>::dyn..., false }; Sz a = 0, b = 0, d = 0; for (auto x : mn) a = sadd(a, x); for (auto x : mx) b = sadd(b, x); for (auto x : dyn) d += x;
        SEQ_CHECK(D::minSizeInBytes() == a && I::minSizeInBytes() == a && D::maxSizeInBytes() == b && I::maxSizeInBytes() == b, "limits %zu..%zu instead of %zu..%zu", D::minSizeInBytes(), D::maxSizeInBytes(), a, b);
        SEQ_CHECK(D::numFields() == n && D::numDynamicFields() == d && D::hasDynamicFields() == (d != 0) && I::numFields() == n && I::hasDynamicFields() == (d != 0), "number of fields");
        static_assert(std::is_same<MaybeDynamicPackedStruct<Ts...>, typename std::conditional<(nd > 0), D, PackedStruct<Ts...>>::type>::value && std::is_same<MaybeDynamicPackingInfo<Ts...>, typename std::conditional<(nd > 0), I, PackingInfo<Ts...>>::type>::value, "");
    }
    static bool inRange(std::vector<Sz> const & c) { bool const dyn[] = { K<Ts>::dyn..., false }; Sz const mn[] = { K<Ts>::min..., 0 }, mx[] = { K<Ts>::max..., 0 }; Sz k = 0; for (Sz i = 0; i < n; ++i) if (dyn[i]) { if (c[k] < mn[i] || c[k] > mx[i]) return false; ++k; } return true; }
    static Obj object(int how, int seed) {
        Obj o; for (Sz i = 0; i < nd; ++i) { o.counts.push_back(Sz(how) % 3); how /= 3; } if (!inRange(o.counts)) { for (auto & c : o.counts) c = 1; }
        o.d = make(o.counts); o.b.resize(offsets(o.counts)[n]); for (Sz i = 0; i < o.b.size(); ++i) o.b[i] = static_cast<unsigned char>(Sz(seed) * 37 + i); SEQ_CHECK(o.d->size() == o.b.size(), "size is %zu instead of %zu", o.d->size(), o.b.size()); if (!o.b.empty()) std::memcpy(o.d->data(), o.b.data(), o.b.size()); o.data = true; return o;
    }
    static void shapes() {
        statics(); std::vector<Sz> c; for (Sz i = 0; i < nd; ++i) c.push_back(Sz(seq::choose(seq::depth())));
        SEQ_CHECK(validSizes(c) == inRange(c), "validity of counts"); if (!inRange(c)) { SEQ_CHECK(sizeInBytes(c) == offsets(c)[n], "size"); return; }
        Obj o{make(c), Bytes(offsets(c)[n], 0), c, true}; if (!o.b.empty()) std::memset(o.d->data(), 0, o.b.size()); full(o); std::uint64_t h = n; for (auto x : c) h = seq::mix(h, x); seq::state(h);
        { D const & r = *o.d; Obj p{std::unique_ptr<D>(new D(r)), o.b, c, true}; full(p); D m(std::move(*o.d)); SEQ_CHECK(m.size() == o.b.size(), "moved"); o.data = false; same(o, "after a move"); }
    }
    static void histories() {
        Obj o[2] = { object(seq::choose(3), 1), object(seq::choose(3) + 3 * seq::choose(2), 2) }; int faults = seq::choose(3);
        for (int s = 0; s < seq::depth(); ++s) {
            int const i = seq::choose(2), j = seq::choose(2); Obj & x = o[i], & y = o[j]; int const before = seq::faultsFired(); auto * const xd = x.data ? x.d->data() : nullptr;
            switch (int const k = seq::choose(8)) {
            case 0: case 1: if (faults) seq::armAllocFaults(faults); try { auto & r = k ? (*x.d = *y.d) : (*x.d = static_cast<D const &>(*y.d)); SEQ_CHECK(&r == x.d.get(), "assignment returns something else"); seq::disarmAllocFaults(); x.b = y.b; x.counts = y.counts; x.data = y.data; } catch (std::bad_alloc const &) { SEQ_CHECK(seq::faultsFired() > before, "bad_alloc"); } seq::disarmAllocFaults(); break;
            case 2: if (i == j) { return; } { auto * p = y.d->data(); auto & r = (*x.d = std::move(*y.d)); SEQ_CHECK(&r == x.d.get() && x.d->data() == p, "move assignment"); x.b = y.b; x.counts = y.counts; x.data = y.data; y.data = false; } break;
            case 3: case 4: if (faults) seq::armAllocFaults(faults); try { std::unique_ptr<D> n_(k == 3 ? new D(*y.d) : new D(static_cast<D const &>(*y.d))); seq::disarmAllocFaults(); x.b = y.b; x.counts = y.counts; x.data = y.data; x.d = std::move(n_); } catch (std::bad_alloc const &) { SEQ_CHECK(seq::faultsFired() > before, "bad_alloc"); } seq::disarmAllocFaults(); break;
            case 5: if (i == j) return; { auto * p = y.d->data(); x.d.reset(new D(std::move(*y.d))); SEQ_CHECK(x.d->data() == p, "move construction"); x.b = y.b; x.counts = y.counts; x.data = y.data; y.data = false; } break;
            case 6: if (i != j || !x.data) return; { auto p = x.d->release(); SEQ_CHECK(p.get() == xd && !x.d->data(), "release"); if (!x.b.empty()) SEQ_CHECK(!std::memcmp(p.get(), x.b.data(), x.b.size()), "released data"); x.data = false; } break;
            case 7: if (i != j || !x.data || x.b.empty()) return; { Sz at = seq::choose(2) ? x.b.size() - 1 : 0; x.b[at] = static_cast<unsigned char>(0xa0 + s); static_cast<unsigned char *>(x.d->data())[at] = x.b[at]; } break;
            }
            for (auto & z : o) same(z, "after an operation");
            if (o[0].data && o[1].data) { bool const eq = o[0].b == o[1].b; SEQ_CHECK((*o[0].d == *o[1].d) == eq && (*o[0].d != *o[1].d) == !eq, "comparison"); SEQ_CHECK(o[0].b.empty() || o[0].d->data() != o[1].d->data(), "two objects share their data"); }
        }
        for (auto & z : o) full(z);
    }
};
} // namespace
#define EACH(f) switch (seq::choose(13)) { \
    case 0: Lay<std::int64_t, char, R, char, A<std::int32_t>, std::uint16_t>::f(); break; case 1: Lay<R>::f(); break; case 2: Lay<A<std::uint16_t>, std::uint64_t>::f(); break; case 3: Lay<char, R, R, A<P3>, char, double>::f(); break; \
    case 4: Lay<A<double>, A<char>>::f(); break; case 5: Lay<char, DynamicFieldPlaceholder<1, 2>, DynamicVectorFieldPlaceholder<int, 0, 1>>::f(); break; case 6: Lay<int, char>::f(); break; case 7: Lay<std::uint16_t, A<P3>>::f(); break; \
    case 8: Lay<R, int, char>::f(); break; case 9: Lay<P3, A<std::uint32_t>, std::uint16_t, std::uint64_t, R>::f(); break; case 10: Lay<DynamicVectorFieldPlaceholder<std::uint64_t, 1, 3>, char, char>::f(); break; case 11: Lay<char>::f(); break; case 12: Lay<A<P3>, R, A<std::uint16_t>>::f(); break; }
SEQ_TEST(shapes, 3, 6) { EACH(shapes) }
SEQ_TEST(histories, 2, 3) { EACH(histories) }
SEQ_TEST(empty, 0, 0) { DynamicPackedStruct<> d; SEQ_CHECK(d.size() == 0 && DynamicPackedStruct<>::minSizeInBytes() == 0 && DynamicPackedStruct<>::maxSizeInBytes() == 0, "no fields"); DynamicPackedStruct<> e(d), f(std::move(e)); SEQ_CHECK(d == f, "no fields"); seq::count(1); }
/* Element counts whose total size is not representable can't be allocated. */
SEQ_TEST(overflow, 0, 0) {
    static Sz const c[] = { MAX, MAX / 2 + 1, MAX / 4 + 1, MAX / 3, MAX / 3 + 1, MAX - 1, MAX - 2, (Sz(1) << 62) + 1, MAX / 8 + 1 }; Sz const x = c[seq::choose(9)], y = seq::choose(2) ? 0 : c[seq::choose(9)]; bool threw = false;
    auto attempt = [&](auto f) { threw = false; try { f(); } catch (std::bad_alloc const &) { threw = true; } SEQ_CHECK(threw, "an object of %zu and %zu elements was made", x, y); seq::count(1); };
    SEQ_CHECK((DynamicPackingInfo<char, A<int>, R>::sizeInBytes(x, y)) == sadd(sadd(1, smul(x, 4)), y) && (DynamicPackingInfo<A<std::uint64_t>, A<P3>>::sizeInBytes(x, y)) == sadd(smul(x, 8), smul(y, 3)) && (DynamicPackingInfo<R, int, R, short>::sizeInBytes(x, y)) == sadd(sadd(x, 4), sadd(y, 2)), "sizes which can't be represented");
    attempt([&] { DynamicPackedStruct<char, A<int>, R> d(x, y); }); attempt([&] { DynamicPackedStruct<A<std::uint64_t>, A<P3>> d(x, y); }); attempt([&] { DynamicPackedStruct<R, int, R, short> d(x, y); }); attempt([&] { DynamicPackedStruct<P3, A<P3>> d(x); });
}
/* The largest sizes which are representable. */
template <Sz N> struct Elem { unsigned char a[N]; };
template <Sz N> void largestOf() { Sz const m = MAX / N, r = MAX - m * N; for (Sz n : {m - 1, m}) { SEQ_CHECK((DynamicPackingInfo<A<Elem<N>>>::sizeInBytes(n)) == n * N, "size of %zu elements of %zu bytes", n, N); SEQ_CHECK((DynamicPackingInfo<A<Elem<N>>, R>::sizeInBytes(n, r)) == n * N + r && (DynamicPackingInfo<R, A<Elem<N>>>::sizeInBytes(r, n)) == n * N + r, "size of %zu elements of %zu bytes and %zu bytes", n, N, r); if (n < m) SEQ_CHECK((DynamicPackingInfo<char, A<Elem<N>>>::sizeInBytes(n)) == n * N + 1, "size of a byte and %zu elements of %zu bytes", n, N); } SEQ_CHECK((DynamicPackingInfo<A<Elem<N>>>::sizeInBytes(m + 1)) == MAX || N == 1, "size which can't be represented"); seq::count(1); }
SEQ_TEST(largest, 0, 0) { switch (seq::choose(8)) { case 0: largestOf<1>(); break; case 1: largestOf<2>(); break; case 2: largestOf<3>(); break; case 3: largestOf<4>(); break; case 4: largestOf<5>(); break; case 5: largestOf<8>(); break; case 6: largestOf<15>(); break; case 7: largestOf<255>(); break; } }
SEQ_TEST(bounds, 0, 0) {
    using V = DynamicVectorFieldPlaceholder<int, 2, 5>; using W = V::type; using X = DynamicFieldPlaceholder<2, 5>::type; static_assert(std::is_same<V, W>::value, "the type of a placeholder is itself"); static_assert(std::is_same<X, DynamicFieldPlaceholder<2, 5>>::value, "");
    SEQ_CHECK(W::min() == 2 && W::max() == 5 && W::minBytes() == 8 && W::maxBytes() == 20 && X::min() == 2 && X::max() == 5 && X::minBytes() == 2 && X::maxBytes() == 5, "bounds of a placeholder"); seq::count(1);
}
/* Counts beyond those whose combinations are enumerated. */
template <typename T> std::pair<Sz, Sz> vectorAt(Sz before, Sz n) { return {before, n * sizeof(T)}; }
SEQ_TEST(large, 0, 0) {
    static Sz const ns[] = { 15, 16, 17, 100, 127, 128, 255, 256, 257, 1000, 65535, 65536, 70001 }; Sz const n = ns[seq::choose(13)], k = std::vector<Sz>{3, 300, 70001}[std::size_t(seq::choose(3))]; using D = DynamicPackedStruct<char, A<std::uint32_t>, std::uint16_t, R, P3, A<P3>, std::uint64_t>;
    D d(n, k, n); Sz const o1 = 1, o2 = o1 + 4 * n, o3 = o2 + 2, o4 = o3 + k, o5 = o4 + 3, o6 = o5 + 3 * n, e = o6 + 8; D const & c = d;
    SEQ_CHECK(d.size() == e && c.elemOffset<1>() == o1 && c.elemOffset<2>() == o2 && c.elemOffset<3>() == o3 && c.elemOffset<4>() == o4 && c.elemOffset<5>() == o5 && c.elemOffset<6>() == o6, "offsets with %zu and %zu elements", n, k);
    Bytes b(e); for (Sz i = 0; i < e; ++i) b[i] = static_cast<unsigned char>(i % 17 ? i * 31 + (i >> 8) : 0); std::memcpy(d.data(), b.data(), e);
    auto const is = [&](D const & x, char const * what) { SEQ_CHECK(x.size() == e && !std::memcmp(x.data(), b.data(), e), "%s of %zu bytes", what, e); };
    D f(c); is(f, "copy"); SEQ_CHECK(f == d && !(f != d), "copy compares unequal"); D g(Sz(1), Sz(1), Sz(1)); std::memset(g.data(), 1, g.size()); SEQ_CHECK(g != d && !(g == d), "comparison"); g = c; is(g, "assigned copy"); D h(2 * n, k, n); h = c; is(h, "assigned copy"); D m(std::move(f)); is(m, "moved"); h = std::move(m); is(h, "assigned move"); D q(n, k, n); std::memset(q.data(), 0, e); q = c; is(q, "assigned copy of equal size"); is(d, "the original");
    for (Sz at : {Sz(0), o1, e / 3, e / 2, o2, o4, o5, o6, e - 1}) { D x(c); static_cast<unsigned char *>(x.data())[at] ^= 0x40; SEQ_CHECK(x != d && !(x == d) && d != x, "objects which differ in byte %zu of %zu compare equal", at, e); }
    for (Sz i = 0; i < n; i += n / 7) { std::uint32_t v; std::memcpy(&v, &b[o1 + 4 * i], 4); std::uint32_t const got = c.constPtr<1>()[std::ptrdiff_t(i)]; SEQ_CHECK(got == v, "element %zu of %zu", i, n); d.ptr<1>()[std::ptrdiff_t(i)] = 0x12345678u + std::uint32_t(i); v = 0x12345678u + std::uint32_t(i); std::memcpy(&b[o1 + 4 * i], &v, 4); is(d, "write of an element"); }
    { std::uint64_t const v = 0x0102030405060708u; d.set<6>(v); std::memcpy(&b[o6], &v, 8); is(d, "set()"); std::uint64_t const w = c.get<6>(); SEQ_CHECK(w == v, "get()"); } seq::count(n);
}
/* Structures of more fields than the others have. */
template <typename ... Ts> void manyFields() {
    using L = Lay<Ts...>; L::statics(); std::vector<Sz> c; Sz const a = Sz(seq::choose(3)), b = Sz(seq::choose(3)); for (Sz i = 0; i < L::nd; ++i) c.push_back((a + b * i) % 3);
    typename L::Obj o{L::make(c), Bytes(L::offsets(c)[L::n], 0), c, true}; if (!o.b.empty()) std::memset(o.d->data(), 0, o.b.size()); L::full(o); typename L::Obj p{std::unique_ptr<typename L::D>(new typename L::D(static_cast<typename L::D const &>(*o.d))), o.b, c, true}; L::full(p);
}
SEQ_TEST(many_fields, 0, 0) {
    switch (seq::choose(2)) {
    case 0: manyFields<char, R, A<P3>, std::uint16_t, R, A<double>, char, R, A<std::uint16_t>, R, P3, std::uint64_t, A<int>, char, R, R, A<P3>, R, char>(); break;
    case 1: manyFields<R, R, R, R, R, R, R, R, R, R, R, R, R, R, R, R, R, A<int>>(); break;
    }
}
