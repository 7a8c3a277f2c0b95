// C37: every offset, every pair of elements, and all short pointer walks.
#include "seq.h"
#include <cstdint>
#include <cstring>
#include <memory>
#include <utility>
#include <vector>
#include <sharemind/UnalignedPointer.h>
#include <sharemind/ConstUnalignedReference.h>

namespace {
using namespace sharemind;
struct P3 { unsigned char a[3]; }; bool operator==(P3 const & x, P3 const & y) { return !std::memcmp(x.a, y.a, 3); }
struct Pad { char c; int i; }; bool operator==(Pad const & x, Pad const & y) { return x.c == y.c && x.i == y.i; }
struct alignas(16) Big { std::uint64_t a[4]; }; bool operator==(Big const & x, Big const & y) { return !std::memcmp(x.a, y.a, sizeof x.a); }
template <typename T> T val(int k) { T v; std::memset(&v, 0, sizeof v); for (std::size_t i = 0; i < sizeof(T); ++i) reinterpret_cast<unsigned char *>(&v)[i] = static_cast<unsigned char>(17 * k + 5 * int(i) + 1); return v; }
template <> double val<double>(int k) { return 1.5 * k - 3.25; }
template <> bool val<bool>(int k) { return k % 2; }
template <> Pad val<Pad>(int k) { Pad p; std::memset(&p, 0, sizeof p); p.c = char(k + 1); p.i = 77777 * k + 3; return p; }

/* n elements at byte offset o of an exactly sized block, with o bytes behind. */
template <typename T> struct Area {
    std::size_t o, n; std::unique_ptr<unsigned char[]> mem; std::vector<T> want; std::vector<unsigned char> guard;
    Area(int o_, int n_) : o(std::size_t(o_)), n(std::size_t(n_)), mem(new unsigned char[size()]) {
        for (std::size_t i = 0; i < size(); ++i) mem[i] = static_cast<unsigned char>(0xc0 + i);
        for (int i = 0; i < n_; ++i) { want.push_back(val<T>(i)); T const e = val<T>(i); std::memcpy(at(i), &e, sizeof(T)); }
    }
    std::size_t size() const { return 2 * o + n * sizeof(T); }
    void * at(int i) const { return mem.get() + std::ptrdiff_t(o) + i * std::ptrdiff_t(sizeof(T)); }
    void verify(char const * what) const {
        for (std::size_t i = 0; i < o; ++i) { SEQ_CHECK(mem[i] == static_cast<unsigned char>(0xc0 + i), "%s: byte %zu before the elements changed", what, i); std::size_t j = o + n * sizeof(T) + i; SEQ_CHECK(mem[j] == static_cast<unsigned char>(0xc0 + j), "%s: byte %zu behind the elements changed", what, i); }
        for (std::size_t i = 0; i < n; ++i) { T v; std::memcpy(&v, at(int(i)), sizeof(T)); SEQ_CHECK(v == want[i], "%s: element %zu is wrong", what, i); }
        seq::count(1);
    }
};
template <typename T> void refs() {
    Area<T> a(seq::choose(17), 3); int const i = seq::choose(3), k = seq::choose(4);
    UnalignedReference<T> r(a.at(i)); ConstUnalignedReference<T> c(a.at(i));
    T v = r; SEQ_CHECK(v == a.want[std::size_t(i)], "read"); T w = c; SEQ_CHECK(w == v, "read through a reference to const");
    switch (k) {
    case 0: { T const n = val<T>(9); auto & q = (r = n); SEQ_CHECK(&q == &r, "assignment returns something else"); a.want[std::size_t(i)] = n; break; }
    case 1: { T n = val<T>(8); r = n; a.want[std::size_t(i)] = n; break; }
    case 2: r = val<T>(7); a.want[std::size_t(i)] = val<T>(7); break;
    case 3: { UnalignedReference<T> s(a.at((i + 1) % 3)); UnalignedReference<T> q(r); q = T(s); a.want[std::size_t(i)] = a.want[std::size_t((i + 1) % 3)]; break; }
    }
    a.verify("write"); SEQ_CHECK(T(r) == a.want[std::size_t(i)] && T(c) == a.want[std::size_t(i)], "read after a write");
}
/* Assigning what converts to the element type stores the converted value. */
template <typename T, typename U> void conv(U u) {
    Area<T> a(seq::choose(9), 2); UnalignedReference<T> r(a.at(0)); r = u; a.want[0] = T(u); a.verify("write of another type");
    r = static_cast<U const &>(u); a.verify("write of another type"); r = U(u); a.verify("write of another type");
}
template <typename T> void refToRef() {
    Area<T> a(seq::choose(9), 3); int const i = seq::choose(3), j = seq::choose(3); UnalignedPointer<T> p(a.at(0)); UnalignedPointer<T const> cp(a.at(0));
    T const old = a.want[std::size_t(j)];
    switch (seq::choose(5)) {
    case 0: p[i] = p[j]; break;
    case 1: { auto s = p[j]; p[i] = s; break; }
    case 2: { auto const s = p[j]; p[i] = s; break; }
    case 3: p[i] = cp[j]; break;
    case 4: { auto d = p[i]; d = std::move(p[j]); break; }
    }
    a.want[std::size_t(i)] = old; a.verify("assignment of one element to another");
}
template <typename T> void pairs() {
    int const n = 4; Area<T> a(seq::choose(9), n); int const i = seq::choose(n + 1), j = seq::choose(n + 1);
    UnalignedPointer<T> p(a.at(i)), q(a.at(j)); UnalignedPointer<T const> cp(a.at(i)), cq(a.at(j)); auto const d = std::ptrdiff_t(i) - j;
#define CMP(x, y) SEQ_CHECK((x == y) == (i == j) && (x != y) == (i != j) && (x < y) == (i < j) && (x <= y) == (i <= j) && (x > y) == (i > j) && (x >= y) == (i >= j), "elements %d and %d compare wrong", i, j); SEQ_CHECK((x - y) == d, "the distance of %d from %d is %td", i, j, std::ptrdiff_t(x - y))
    CMP(p, q); CMP(cp, cq); CMP(p, cq); CMP(cp, q);
#undef CMP
    SEQ_CHECK(p + (j - i) == q && q + (i - j) == p && (j - i) + p == q && p - (i - j) == q, "%d moved to %d", i, j); { auto t = p; auto & z = (t += j - i); SEQ_CHECK(t == q && &z == &t, "+="); } { auto t = p; auto & z = (t -= i - j); SEQ_CHECK(t == q && &z == &t, "-="); }
    SEQ_CHECK(q + (p - q) == p, "distance"); SEQ_CHECK(static_cast<void *>(p) == a.at(i) && static_cast<void const *>(cp) == a.at(i) && bool(p) && !bool(UnalignedPointer<T>(nullptr)), "address");
    if (j < n) { T const v = p[j - i]; SEQ_CHECK(v == a.want[std::size_t(j)], "[%d] from %d", j - i, i); p[j - i] = val<T>(11); a.want[std::size_t(j)] = val<T>(11); a.verify("[]"); SEQ_CHECK(T(cp[j - i]) == val<T>(11), "[]"); }
}
template <typename T> void walk() {
    int const n = 4; Area<T> a(seq::choose(4), n); int pos = 0; UnalignedPointer<T> p(a.at(0));
    for (int s = 0; s < seq::depth(); ++s) {
        int const was = pos;
        switch (seq::choose(8)) {
        case 0: if (pos == n) return; { auto & r = ++p; SEQ_CHECK(&r == &p, "++"); } ++pos; break;
        case 1: if (!pos) return; { auto & r = --p; SEQ_CHECK(&r == &p, "--"); } --pos; break;
        case 2: if (pos == n) return; { auto o = p++; SEQ_CHECK(o == UnalignedPointer<T>(a.at(was)), "x++"); } ++pos; break;
        case 3: if (!pos) return; { auto o = p--; SEQ_CHECK(o == UnalignedPointer<T>(a.at(was)), "x--"); } --pos; break;
        case 4: if (pos + 2 > n) return; p += 2; pos += 2; break;
        case 5: if (pos < 2) return; p -= 2; pos -= 2; break;
        case 6: if (pos == n) return; *p = val<T>(20 + s); a.want[std::size_t(pos)] = val<T>(20 + s); break;
        case 7: { UnalignedPointer<T> q(p); p = UnalignedPointer<T>(a.at(n - pos)); p = std::move(q); break; }
        }
        SEQ_CHECK(static_cast<void *>(p) == a.at(pos), "after step %d the pointer is not at element %d", s, pos);
        if (pos < n) SEQ_CHECK(T(*p) == a.want[std::size_t(pos)], "element %d", pos);
        a.verify("walk"); seq::state(seq::mix(std::uint64_t(pos), sizeof(T)));
    }
}
} // namespace
#define ALL(name, q, t, f) SEQ_TEST(name, q, t) { switch (seq::choose(9)) { case 0: f<std::uint8_t>(); break; case 1: f<std::uint16_t>(); break; case 2: f<std::int32_t>(); break; case 3: f<std::uint64_t>(); break; case 4: f<double>(); break; case 5: f<P3>(); break; case 6: f<Pad>(); break; case 7: f<Big>(); break; case 8: f<bool>(); break; } }
ALL(refs, 0, 0, refs)
ALL(assign_elements, 0, 0, refToRef)
ALL(pairs, 0, 0, pairs)
ALL(walk, 4, 6, walk)
SEQ_TEST(conversions, 0, 0) {
    switch (seq::choose(12)) {
    case 0: conv<std::int32_t>(std::int8_t(-5)); break; case 1: conv<std::int32_t>(short(-300)); break; case 2: conv<std::int32_t>(3.75); break; case 3: conv<std::int64_t>(-7); break; case 4: conv<std::uint64_t>(static_cast<unsigned char>(200)); break;
    case 5: conv<double>(3); break; case 6: conv<double>(2.5f); break; case 7: conv<float>(2.25); break; case 8: conv<std::uint8_t>(65); break; case 9: conv<std::uint16_t>(0x1234567890ll); break; case 10: conv<bool>(2); break; case 11: conv<std::int64_t>(true); break;
    }
}
SEQ_TEST(pointers_to_pointers, 0, 0) {
    Area<int *> a(seq::choose(9), 2); int x = 0; a.want[0] = &x; a.want[1] = nullptr; UnalignedPointer<int *> p(a.at(0)); p[0] = &x; p[1] = nullptr; a.verify("pointers"); UnalignedPointer<int const *> c(a.at(0)); int const * const z = *c; SEQ_CHECK(z == &x, "pointer");
}
/* Addresses anywhere in memory (nothing is accessed). */
SEQ_TEST(far_pointers, 0, 0) {
    using U = std::uintptr_t; static U const as[] = { 0, 1, U(1) << 31, U(1) << 32, U(3) << 32, (U(1) << 33) + 5, U(1) << 40, (U(1) << 46) + 3 }; U const a = as[seq::choose(8)], b = as[seq::choose(8)];
    using P = UnalignedPointer<std::uint8_t>; using C = UnalignedPointer<std::uint8_t const>; P const p(reinterpret_cast<void *>(a)), q(reinterpret_cast<void *>(b)); C const cp(reinterpret_cast<void *>(a)), cq(reinterpret_cast<void *>(b));
#define CMP(x, y) SEQ_CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "addresses %zx and %zx compare wrong", std::size_t(a), std::size_t(b))
    CMP(p, q); CMP(cp, cq); CMP(p, cq); CMP(cp, q);
#undef CMP
    SEQ_CHECK(bool(p) == (a != 0) && bool(cp) == (a != 0), "truth of %zx", std::size_t(a)); if (!a || !b) return;
    SEQ_CHECK(p - q == std::ptrdiff_t(a - b) && cp - q == std::ptrdiff_t(a - b), "distance of %zx from %zx", std::size_t(a), std::size_t(b));
    auto const d = std::ptrdiff_t(b - a); SEQ_CHECK(p + d == q && d + p == q && q - d == p, "%zx moved by %td", std::size_t(a), d); { P t(p); t += d; SEQ_CHECK(t == q, "+="); t -= d; SEQ_CHECK(t == p, "-="); }
    using W = UnalignedPointer<std::uint64_t>; W const w(reinterpret_cast<void *>(a)); for (std::ptrdiff_t n : {std::ptrdiff_t(1) << 28, std::ptrdiff_t(1) << 29, std::ptrdiff_t(1) << 31, (std::ptrdiff_t(1) << 32) + 1, std::ptrdiff_t(1) << 40}) { W const z(reinterpret_cast<void *>(a + 8 * U(n))); SEQ_CHECK(w + n == z && n + w == z && z - n == w && z + -n == w && z - w == n && w - z == -n, "%zx moved by %td elements of 8 bytes", std::size_t(a), n); { W t(w); t += n; SEQ_CHECK(t == z, "+="); t -= n; SEQ_CHECK(t == w, "-="); } } seq::count(1);
}
