// C35: all short write histories over several layouts, against a byte vector.
#include "seq.h"
#include <array>
#include <cstdint>
#include <cstring>
#include <memory>
#include <new>
#include <type_traits>
#include <vector>
#include <sharemind/MaybeDynamicPackedStruct.h>
#include <sharemind/MaybeDynamicPackingInfo.h>
#include <sharemind/PackedStruct.h>

namespace {
using namespace sharemind;
struct P3 { unsigned char a[3]; };
struct alignas(8) Al { std::uint64_t x; };
template <typename T> T val(int k) { T v; auto * p = reinterpret_cast<unsigned char *>(&v); for (std::size_t i = 0; i < sizeof(T); ++i) p[i] = static_cast<unsigned char>(k * 29 + 3 * int(i) + 0x81); return v; }
template <> float val<float>(int k) { return -1.5f + float(k); }
template <> double val<double>(int k) { return 2.75 * k - 1; }
template <> bool val<bool>(int k) { return !(k % 2); }
template <> long double val<long double>(int k) { long double v; std::memset(&v, 0, sizeof v); v = 1.25L * k; return v; }
template <typename T> bool same(T const & a, T const & b) { return !std::memcmp(&a, &b, sizeof(T)); }
template <> bool same<long double>(long double const & a, long double const & b) { return !std::memcmp(&a, &b, 10); }

template <typename ... Ts> struct Layout {
    using S = PackedStruct<Ts...>; using I = PackingInfo<Ts...>;
    static constexpr std::size_t n = sizeof...(Ts);
    static std::vector<std::size_t> offsets() { std::size_t o = 0; std::vector<std::size_t> r; for (std::size_t s : {sizeof(Ts)...}) { r.push_back(o); o += s; } r.push_back(o); return r; }
    std::vector<std::size_t> off = offsets(); std::size_t size = off.back();
    std::unique_ptr<unsigned char[]> mem; std::size_t at; std::vector<unsigned char> want; S * s;
    Layout(int at_) : mem(new unsigned char[size + 2 * std::size_t(at_)]), at(std::size_t(at_)) {
        for (std::size_t i = 0; i < size + 2 * at; ++i) { mem[i] = static_cast<unsigned char>(i * 7 + 1); want.push_back(mem[i]); }
        s = reinterpret_cast<S *>(mem.get() + at);
    }
    unsigned char * base() const { return mem.get() + at; }
    template <std::size_t K> void write(int how, int k) {
        using T = typename S::template ElemType<K>; T const v = val<T>(k); unsigned char before[sizeof(T)]; std::memcpy(before, base() + off[K], sizeof(T));
        switch (how) {
        case 0: s->template set<K>(v); break;
        case 1: s->template ref<K>() = v; break;
        case 2: *s->template ptr<K>() = v; break;
        case 3: s->refs().template set<K>(v); break;
        case 4: { auto const r = s->refs(); r.template ref<K>() = v; break; }
        case 5: { PackedStructAccessor<Ts...> r(base()); *r.template ptr<K>() = v; break; }
        case 6: { auto q = I::template set<K>(base(), v); T const b = q; SEQ_CHECK(same(b, v), "set() returns a reference to something else"); break; }
        case 7: std::memcpy(s->template voidPtr<K>(), &v, sizeof v); break;
        case 8: { auto const r = s->refs(); std::memcpy(r.template voidPtr<K>(), &v, sizeof v); break; }
        case 9: I::template ref<K>(base()) = v; break;
        case 10: I::template ptr<K>(base())[0] = v; break;
        }
        { T b = v; std::memcpy(&want[at + off[K]], &b, sizeof(T)); }
        if (std::is_same<T, long double>::value) std::memcpy(&want[at + off[K]], base() + off[K], sizeof(T)); /* padding bytes */
        T got; std::memcpy(&got, base() + off[K], sizeof(T)); SEQ_CHECK(same(got, v), "field %zu was not written (access path %d)", K, how);
    }
    template <std::size_t K> void read() const {
        using T = typename S::template ElemType<K>; T v; std::memcpy(&v, base() + off[K], sizeof(T)); S const & c = *s; auto const r = s->refs(); auto const cr = c.refs(); auto const cr2 = s->crefs(); ConstPackedStructAccessor<Ts...> const cr3(r);
        if (!std::is_same<T, bool>::value || base()[off[K]] < 2) {
            T const a[] = { c.template get<K>(), s->template get<K>(), c.template ref<K>(), s->template ref<K>(), c.template cref<K>(), *c.template ptr<K>(), *s->template ptr<K>(), *c.template constPtr<K>(), r.template get<K>(), r.template ref<K>(), r.template cref<K>(), *r.template ptr<K>(), *r.template constPtr<K>(), cr.template get<K>(), cr.template ref<K>(), cr2.template cref<K>(), *cr2.template ptr<K>(), *cr3.template constPtr<K>(), I::template get<K>(base()), I::template ref<K>(base()), I::template cref<K>(base()), *I::template ptr<K>(base()), *I::template constPtr<K>(base()) };
            int i = 0; for (auto const & x : a) { SEQ_CHECK(same(x, v), "access path %d to field %zu reads something else", i, K); ++i; }
        }
        void const * const f = base() + off[K];
        void const * const p[] = { c.template voidPtr<K>(), s->template voidPtr<K>(), c.template constVoidPtr<K>(), r.template voidPtr<K>(), r.template constVoidPtr<K>(), cr.template voidPtr<K>(), cr2.template constVoidPtr<K>(), I::template voidPtr<K>(base()), I::template constVoidPtr<K>(base()) };
        int i = 0; for (auto * x : p) { SEQ_CHECK(x == f, "address %d of field %zu is wrong", i, K); ++i; }
        SEQ_CHECK(I::template ElemOffset<K>::value == off[K] && S::template ElemOffset<K>::value == off[K], "offset of field %zu", K);
        SEQ_CHECK(I::template PrefixType<K>::size() == off[K] && I::template SuffixType<n - K>::size() == size - off[K], "sizes of the parts before and after field %zu", K); SEQ_CHECK(sizeof(typename S::template SuffixType<n - K>) == size - off[K] && (!K || sizeof(typename S::template PrefixType<K>) == off[K]), "sizes of the parts before and after field %zu", K);
    }
    template <std::size_t ... K> void readAll(std::index_sequence<K...>) const { int x[] = { (read<K>(), 0)... }; (void)x; }
    template <std::size_t ... K> void writeAny(int f, int how, int k, std::index_sequence<K...>) { using M = void (Layout::*)(int, int); static M const m[] = { &Layout::write<K>... }; (this->*m[f])(how, k); }
    void verify(char const * what) const {
        for (std::size_t i = 0; i < want.size(); ++i) SEQ_CHECK(mem[i] == want[i], "%s: byte %td of the structure is wrong", what, std::ptrdiff_t(i) - std::ptrdiff_t(at));
        S const & c = *s; auto const r = s->refs(); auto const cr = c.refs();
        SEQ_CHECK(sizeof(S) == size && alignof(S) == 1 && c.size() == size && S::staticSize() == size && S::minSizeInBytes() == size && S::maxSizeInBytes() == size && S::numFields() == n && S::numDynamicFields() == 0 && !S::hasDynamicFields(), "sizes");
        SEQ_CHECK(I::size() == size && I::minSizeInBytes() == size && I::maxSizeInBytes() == size && I::numFields() == n && I::numDynamicFields() == 0 && !I::hasDynamicFields() && I::sizeInBytes() == size, "sizes");
        SEQ_CHECK(r.size() == size && cr.size() == size && r.minSizeInBytes() == size && cr.maxSizeInBytes() == size && r.numFields() == n && cr.numFields() == n, "sizes of accessors");
        SEQ_CHECK(s->data() == base() && c.data() == base() && c.constData() == base() && s->dataUint8() == base() && c.dataUint8() == base() && c.constDataUint8() == base() && static_cast<void *>(s->dataChar()) == base() && static_cast<void const *>(c.constDataChar()) == base() && static_cast<void const *>(c.dataChar()) == base() && s->dataUnsignedChar() == base() && c.dataUnsignedChar() == base() && c.constDataUnsignedChar() == base() && r.data() == base() && r.constData() == base() && cr.data() == base() && cr.constData() == base(), "data address");
        void const * const e = base() + size; SEQ_CHECK(s->endVoidPtr() == e && c.endVoidPtr() == e && c.endConstVoidPtr() == e && r.endVoidPtr() == e && r.endConstVoidPtr() == e && cr.endVoidPtr() == e && cr.endConstVoidPtr() == e && I::endVoidPtr(static_cast<void *>(base())) == e && I::endVoidPtr(static_cast<void const *>(base())) == e && I::endConstVoidPtr(base()) == e, "end address");
        readAll(std::make_index_sequence<n>());
        S d(c); SEQ_CHECK(d == c && !(d != c) && d.refs() == r && !(d.crefs() != cr) && !std::memcmp(&d, &c, size), "a copy differs");
        for (std::size_t i = 0; i < size; ++i) { d = c; d.dataUint8()[i] ^= 0x40; SEQ_CHECK(!(d == c) && d != c && !(d.refs() == r) && d.crefs() != cr, "structures which differ in byte %zu compare equal", i); }
        seq::count(1); std::uint64_t h = size; for (auto b : want) h = seq::mix(h, b); seq::state(h);
    }
    static void run() {
        Layout l(seq::choose(3)); l.verify("initially");
        for (int i = 0; i < seq::depth(); ++i) { int const f = seq::choose(int(n)), how = seq::choose(11), k = seq::choose(2); seq::op("field %d = value %d via %d", f, k, how); l.writeAny(f, how, k, std::make_index_sequence<n>()); l.verify("after a write"); }
    }
};
struct Tail { char c; };
} // namespace
SEQ_TEST(writes, 2, 3) {
    switch (seq::choose(9)) {
    case 0: Layout<char, int, std::array<std::uint16_t, 3>, float, long>::run(); break;
    case 1: Layout<std::uint64_t>::run(); break;
    case 2: Layout<std::uint8_t, std::uint64_t, std::uint8_t, std::uint32_t>::run(); break;
    case 3: Layout<char, PackedStruct<char, int, short>, char>::run(); break;
    case 4: Layout<P3, Al, bool, double>::run(); break;
    case 5: Layout<bool, bool, P3, P3>::run(); break;
    case 6: Layout<char, long double, char>::run(); break;
    case 7: Layout<std::int16_t, std::int16_t, std::int64_t, char, std::int16_t, std::int32_t>::run(); break;
    case 8: Layout<std::uint8_t, std::uint8_t, std::uint8_t>::run(); break;
    }
}
/* Fields which are far from the start of the structure. */
template <std::size_t N> struct Block { unsigned char a[N]; };
template <std::size_t N> void far() {
    using B = Block<N>; using L = Layout<char, B, std::uint16_t, B, std::uint64_t, char>; L l(seq::choose(2)); l.readAll(std::make_index_sequence<6>());
    auto const inf = [&](char const * what) { for (std::size_t i = 0; i < l.want.size(); ++i) SEQ_CHECK(l.mem[i] == l.want[i], "%s: byte %td of the structure is wrong", what, std::ptrdiff_t(i) - std::ptrdiff_t(l.at)); };
    int const f = seq::choose(6), how = seq::choose(11); l.writeAny(f, how, 1, std::make_index_sequence<6>()); inf("after a write"); l.readAll(std::make_index_sequence<6>());
    typename L::S const & c = *l.s; typename L::S d(c); SEQ_CHECK(d == c && !(d != c), "a copy differs"); std::size_t const z = l.size;
    for (std::size_t at : {std::size_t(0), N / 2, N, N + 1, z / 2, z - 10, z - 9, z - 2, z - 1}) { d = c; d.dataUint8()[at] ^= 0x40; SEQ_CHECK(!(d == c) && d != c && !(d.refs() == l.s->refs()) && d.crefs() != c.refs(), "structures which differ in byte %zu of %zu compare equal", at, z); }
    void const * const e = l.base() + z; SEQ_CHECK(c.endVoidPtr() == e && c.endConstVoidPtr() == e && l.s->endVoidPtr() == e && l.s->refs().endVoidPtr() == e && L::I::endConstVoidPtr(l.base()) == e && c.size() == z && L::I::size() == z, "size of a large structure"); seq::count(1);
}
SEQ_TEST(far_fields, 0, 0) { switch (seq::choose(4)) { case 0: far<127>(); break; case 1: far<256>(); break; case 2: far<32768>(); break; case 3: far<65539>(); break; } }
SEQ_TEST(no_fields, 0, 0) {
    using I = PackingInfo<>; char x[2] = {}; char const * const c = x; for (int i = 0; i < 2; ++i) SEQ_CHECK(I::endVoidPtr(static_cast<void *>(x + i)) == x + i && I::endVoidPtr(static_cast<void const *>(c + i)) == c + i && I::endConstVoidPtr(c + i) == c + i, "the end of no fields");
    SEQ_CHECK(I::size() == 0 && I::numFields() == 0 && I::numDynamicFields() == 0 && !I::hasDynamicFields() && I::minSizeInBytes() == 0 && I::maxSizeInBytes() == 0 && I::sizeInBytes() == 0, "no fields"); seq::count(1);
}
/* Structures inside structures: writing through the nested accessor. */
SEQ_TEST(nested, 0, 0) {
    using In = PackedStruct<char, int, short>; using Out = PackedStruct<char, In, std::uint64_t>; static_assert(sizeof(Out) == 16, "");
    std::unique_ptr<Out> o(new Out()); std::memset(o.get(), 0x55, sizeof(Out)); unsigned char w[16]; std::memset(w, 0x55, 16); int const how = seq::choose(3); int const f = seq::choose(3); int v = 0x01020304;
    auto put = [&](PackedStructAccessor<char, int, short> r) { if (f == 0) { r.set<0>('z'); w[1] = 'z'; } else if (f == 1) { r.set<1>(v); std::memcpy(w + 2, &v, 4); } else { r.set<2>(short(v)); short t = short(v); std::memcpy(w + 6, &t, 2); } };
    if (how == 0) { In i = o->get<1>(); put(i.refs()); o->set<1>(i); } else if (how == 1) { put(PackedStructAccessor<char, int, short>(o->voidPtr<1>())); } else { In i = o->ref<1>(); put(i.refs()); *o->ptr<1>() = i; }
    SEQ_CHECK(!std::memcmp(o.get(), w, 16), "nested write");
    static_assert(std::is_same<MaybeDynamicPackedStruct<char, int>, PackedStruct<char, int>>::value && std::is_same<MaybeDynamicPackingInfo<char, int>, PackingInfo<char, int>>::value, ""); seq::count(1);
}
/* Structures of more fields than the others have: each field is written over each access path. */
template <typename ... Ts> void manyFields() {
    using L = Layout<Ts...>; using S = typename L::S; constexpr std::size_t n = sizeof...(Ts); auto const q = std::make_index_sequence<n>(); L l(seq::choose(2)); l.readAll(q);
    SEQ_CHECK(L::I::numFields() == n && L::I::size() == l.size && sizeof(S) == l.size && L::I::numDynamicFields() == 0u && L::I::minSizeInBytes() == l.size && L::I::maxSizeInBytes() == l.size, "a structure of %zu fields", n);
    int const how = seq::choose(11); for (int f = 0; f < int(n); ++f) { l.writeAny(f, how, f + 1, q); for (std::size_t i = 0; i < l.want.size(); ++i) SEQ_CHECK(l.mem[i] == l.want[i], "byte %zu is wrong after a write to field %d of %zu", i, f, n); }
    l.readAll(q); seq::count(1);
}
SEQ_TEST(many_fields, 0, 0) {
    using a = std::uint8_t; using b = std::uint16_t; using c = std::uint32_t; using d = std::uint64_t;
    switch (seq::choose(2)) { case 0: manyFields<a,b,c,d,a,b,c,d,a,b,c,d,a,b,c,d,a>(); break; case 1: manyFields<a,d,b,c,P3,a,d,b,c,P3,a,d,b,c,P3,a,d,b,c,P3,a,d,b,c,P3,a,d,b,c,P3,a,d,b>(); break; }
}
