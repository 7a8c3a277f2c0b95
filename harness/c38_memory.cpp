// C38: operation sequences on arrays and aligned storage, every allocation failing or succeeding.
// LIBS: -Wl,--wrap=posix_memalign -Wl,--wrap=aligned_alloc
#include "seq.h"
#include <cerrno>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <list>
#include <memory>
#include <new>
#include <utility>
#include <vector>
#include <sharemind/AlignedAllocator.h>
#include <sharemind/GlobalDeleter.h>
#include <sharemind/UninitializedDynamicArray.h>

extern "C" int __real_posix_memalign(void **, std::size_t, std::size_t); extern "C" void * __real_aligned_alloc(std::size_t, std::size_t);
extern "C" int __wrap_posix_memalign(void ** p, std::size_t a, std::size_t n) {
    if (a < sizeof(void *) || (a & (a - 1))) return EINVAL; if (seq::allocFault() || n > (std::size_t(1) << 40)) { *p = reinterpret_cast<void *>(8); return ENOMEM; } /* the result is unspecified */
    return __real_posix_memalign(p, a, n);
}
extern "C" void * __wrap_aligned_alloc(std::size_t a, std::size_t n) { return seq::allocFault() || n > (std::size_t(1) << 40) ? nullptr : __real_aligned_alloc(a, n); }
namespace {
using namespace sharemind; using Sz = std::size_t;
struct S24 { char a[17]; std::int64_t b; }; bool operator==(S24 const & x, S24 const & y) { return x.b == y.b && x.a[16] == y.a[16]; }
struct alignas(32) A32 { char a[32]; }; bool operator==(A32 const & x, A32 const & y) { return !std::memcmp(x.a, y.a, 32); }
struct alignas(64) A64 { int v; }; bool operator==(A64 const & x, A64 const & y) { return x.v == y.v; }
struct P3 { char a[3]; }; bool operator==(P3 const & x, P3 const & y) { return !std::memcmp(x.a, y.a, 3); }
template <typename T> T val(int k) { T v; std::memset(&v, 0, sizeof v); std::memset(&v, k + 1, sizeof v); return v; }
template <> double val<double>(int k) { return k * 0.5; }
bool aligned(void const * p, Sz a) { return reinterpret_cast<std::uintptr_t>(p) % a == 0; }

template <typename T> struct Arr {
    using U = UninitializedDynamicArray<T>; struct M { std::vector<T> v; void const * at = nullptr; };
    static void same(U & u, M const & m) {
        U const & c = u; Sz const n = m.v.size(); SEQ_CHECK(u.size() == n && c.empty() == !n, "size %zu instead of %zu", u.size(), n); SEQ_CHECK(Sz(u.end() - u.begin()) == n && Sz(c.end() - c.begin()) == n && Sz(c.cend() - c.cbegin()) == n && u.begin() == u.data() && c.begin() == c.data() && c.cbegin() == c.data() && u.data() == c.data(), "range");
        SEQ_CHECK(!m.at || u.data() == m.at, "the elements moved"); SEQ_CHECK(aligned(u.data(), alignof(T)), "alignment");
        for (Sz i = 0; i < n; ++i) SEQ_CHECK(u[i] == m.v[i] && c[i] == m.v[i] && *u.data(i) == m.v[i] && c.data(i) == u.data() + i && u.begin()[i] == m.v[i], "element %zu", i);
        seq::count(1); std::uint64_t h = sizeof(T); for (auto const & x : m.v) h = seq::mix(h, *reinterpret_cast<unsigned char const *>(&x)); seq::state(h);
    }
    static void fill(U & u, M & m, int k) { for (Sz i = 0; i < m.v.size(); ++i) { m.v[i] = val<T>(k + int(i)); new (u.data(i)) T(m.v[i]); } m.at = m.v.empty() ? nullptr : u.data(); }
    static void run() {
        std::unique_ptr<U> u[2] = { std::make_unique<U>(), std::make_unique<U>() }; M m[2];
        for (int s = 0; s < seq::depth(); ++s) {
            int const i = seq::choose(2), j = seq::choose(2);
            switch (seq::choose(5)) {
            case 0: if (i != j) return; { Sz const n = Sz(seq::choose(4)); bool ok = true; int const before = seq::faultsFired(); M fresh; fresh.v.resize(n); char raw[sizeof(U)]; (void)raw; alignas(U) char mem[sizeof(U)]; U * x = nullptr; seq::armAllocFaults(1); try { x = new (mem) U(n); } catch (std::bad_alloc const &) { ok = false; } seq::disarmAllocFaults(); SEQ_CHECK(ok || seq::faultsFired() > before, "bad_alloc"); if (ok) { fill(*x, fresh, 3 * s); same(*x, fresh); auto & r = (*u[i] = std::move(*x)); SEQ_CHECK(&r == u[i].get(), "assignment returns something else"); SEQ_CHECK(x->empty() && x->begin() == x->end(), "moved-from array"); m[i] = fresh; x->~U(); } } break;
            case 1: { auto & r = (*u[i] = std::move(*u[j])); SEQ_CHECK(&r == u[i].get(), "assignment returns something else"); if (i != j) { m[i] = m[j]; m[j] = M(); } } break;
            case 2: { std::unique_ptr<U> n(new U(std::move(*u[j]))); M t = m[j]; m[j] = M(); same(*u[j], m[j]); u[i] = std::move(n); m[i] = t; } break;
            case 3: if (i != j) return; for (auto & x : *u[i]) x = val<T>(50 + s); for (auto & x : m[i].v) x = val<T>(50 + s); break;
            case 4: if (m[i].v.size() < 2) return; (*u[i])[1] = val<T>(70 + s + j); m[i].v[1] = val<T>(70 + s + j); break;
            }
            same(*u[0], m[0]); same(*u[1], m[1]);
        }
    }
};
template <Sz A> void storage() {
    Sz const n = Sz(seq::choose(66)); bool const nt = seq::flip(); void * p[3] = {}; int faults = seq::choose(2);
    for (auto & q : p) { seq::armAllocFaults(faults); int const before = seq::faultsFired(); if (nt) { q = allocateAlignedStorage<A>(n, std::nothrow); SEQ_CHECK(q || seq::faultsFired() > before, "no storage of %zu bytes at a multiple of %zu", n, A); } else try { q = allocateAlignedStorage<A>(n); SEQ_CHECK(q, "no storage"); } catch (std::bad_alloc const &) { SEQ_CHECK(seq::faultsFired() > before, "no storage of %zu bytes at a multiple of %zu", n, A); } seq::disarmAllocFaults(); SEQ_CHECK(aligned(q, A), "storage of %zu bytes is not at a multiple of %zu", n, A); if (q && n) std::memset(q, int(&q - p) + 1, n); }
    for (int i = 0; i < 3; ++i) for (Sz k = 0; p[i] && k < n; ++k) SEQ_CHECK(static_cast<unsigned char *>(p[i])[k] == i + 1, "storage overlaps"); for (auto q : p) if (q || seq::flip()) freeAlignedStorage(q);
    SEQ_CHECK(!allocateAlignedStorage<A>(Sz(1) << 62, std::nothrow), "too much storage"); bool t = false; try { allocateAlignedStorage<A>(Sz(1) << 62); } catch (std::bad_alloc const &) { t = true; } SEQ_CHECK(t, "no error"); seq::count(1);
}
int ctorFails;
struct X { SHAREMIND_ALIGNEDALLOCATION_MEMBERS(128) static int live; int v; X() : v(7) { if (ctorFails) throw 5; ++live; } ~X() { --live; } }; int X::live = 0;
template <typename T> struct Alloc {
    static void run() {
        AlignedAllocator<T> a, b(a); AlignedAllocator<char> c(a); AlignedAllocator<T> d(c), e(std::move(b)), f(AlignedAllocator<short>{}); SEQ_CHECK(a == d && !(a != c) && e == f, "allocators"); Sz const n = Sz(seq::choose(6)); int const before = seq::faultsFired(); T * p = nullptr; seq::armAllocFaults(1); try { p = a.allocate(n); } catch (std::bad_alloc const &) { SEQ_CHECK(seq::faultsFired() > before, "allocation of %zu elements of %zu bytes fails", n, sizeof(T)); seq::disarmAllocFaults(); return; } seq::disarmAllocFaults();
        SEQ_CHECK(aligned(p, alignof(T)), "alignment"); if (n) std::memset(static_cast<void *>(p), 3, n * sizeof(T)); d.deallocate(p, n);
        Sz const M = std::numeric_limits<Sz>::max(), big[] = { M, M / sizeof(T) + 1, M / 2 + 2, M / sizeof(T) + 2, M / 4 + 1, M / 8 + 1 }; for (Sz k : big) if (k > (Sz(1) << 40)) { bool t = false; try { a.deallocate(a.allocate(k), k); } catch (std::bad_alloc const &) { t = true; } SEQ_CHECK(t, "%zu elements of %zu bytes were allocated", k, sizeof(T)); } seq::count(1);
    }
    static void vec() {
        using V = std::vector<T, AlignedAllocator<T>>; V v, w; std::vector<int> m, k; std::list<T, AlignedAllocator<T>> l; int const faults = seq::choose(2);
        for (int s = 0; s < seq::depth(); ++s) {
            int const before = seq::faultsFired(); int const o = seq::choose(6); seq::armAllocFaults(faults); bool ok = true;
            try { switch (o) { case 0: v.push_back(val<T>(s)); break; case 1: v.resize(5, val<T>(s)); break; case 2: w = v; break; case 3: v.swap(w); break; case 4: v.clear(); v.shrink_to_fit(); break; case 5: l.push_front(val<T>(s)); break; } } catch (std::bad_alloc const &) { ok = false; SEQ_CHECK(seq::faultsFired() > before, "bad_alloc"); } seq::disarmAllocFaults();
            if (ok) switch (o) { case 0: m.push_back(s); break; case 1: m.resize(5, s); break; case 2: k = m; break; case 3: m.swap(k); break; case 4: m.clear(); break; case 5: SEQ_CHECK(l.front() == val<T>(s) && aligned(&l.front(), alignof(T)), "list"); break; }
            SEQ_CHECK(v.size() == m.size() && w.size() == k.size() && aligned(v.data(), alignof(T)) && aligned(w.data(), alignof(T)), "vector"); for (Sz i = 0; i < m.size(); ++i) SEQ_CHECK(v[i] == val<T>(m[i]), "vector element"); for (Sz i = 0; i < k.size(); ++i) SEQ_CHECK(w[i] == val<T>(k[i]), "vector element"); seq::count(1);
        }
    }
};
} // namespace
SEQ_TEST(arrays, 4, 6) { switch (seq::choose(5)) { case 0: Arr<char>::run(); break; case 1: Arr<int>::run(); break; case 2: Arr<double>::run(); break; case 3: Arr<S24>::run(); break; case 4: Arr<P3>::run(); break; } }
SEQ_TEST(aligned_storage, 0, 0) { switch (seq::choose(10)) { case 0: storage<1>(); break; case 1: storage<2>(); break; case 2: storage<4>(); break; case 3: storage<8>(); break; case 4: storage<16>(); break; case 5: storage<32>(); break; case 6: storage<64>(); break; case 7: storage<128>(); break; case 8: storage<512>(); break; case 9: storage<4096>(); break; } }
SEQ_TEST(members, 0, 0) {
    int const kind = seq::choose(4), faults = seq::choose(2), n = 1 + seq::choose(3); ctorFails = seq::choose(2); X::live = 0; int const before = seq::faultsFired(); X * p = nullptr; bool bad = false, thrown = false; seq::armAllocFaults(faults);
    try { switch (kind) { case 0: p = new X; break; case 1: p = new X[Sz(n)]; break; case 2: p = new (std::nothrow) X; break; case 3: p = new (std::nothrow) X[Sz(n)]; break; } } catch (std::bad_alloc const &) { bad = true; } catch (int) { thrown = true; } seq::disarmAllocFaults(); bool const fault = seq::faultsFired() > before;
    SEQ_CHECK(bad == (fault && kind < 2), "std::bad_alloc"); SEQ_CHECK(thrown == (!fault && ctorFails), "exception"); SEQ_CHECK(!!p == (!fault && !ctorFails), "object"); if (p) { if (kind % 2 == 0) SEQ_CHECK(aligned(p, 128), "alignment"); SEQ_CHECK(p->v == 7 && X::live == (kind % 2 ? n : 1), "object"); if (kind % 2) delete[] p; else delete p; } SEQ_CHECK(!X::live, "objects left"); ctorFails = 0; seq::count(1);
}
#define EACH(f) switch (seq::choose(8)) { case 0: Alloc<char>::f(); break; case 1: Alloc<short>::f(); break; case 2: Alloc<int>::f(); break; case 3: Alloc<double>::f(); break; case 4: Alloc<A32>::f(); break; case 5: Alloc<A64>::f(); break; case 6: Alloc<P3>::f(); break; case 7: Alloc<S24>::f(); break; }
SEQ_TEST(allocator, 0, 0) { EACH(run) }
SEQ_TEST(containers, 4, 6) { EACH(vec) }
SEQ_TEST(deleter, 0, 0) { std::unique_ptr<void, GlobalDeleter> p(::operator new(Sz(1 + seq::choose(9)))), q; if (seq::flip()) { q = std::move(p); SEQ_CHECK(!p && q, "moved"); } if (seq::flip()) q.reset(::operator new(3)); if (seq::flip()) p = std::move(q); seq::count(1); }
/* Many elements, large storage. */
template <typename T> void largeArrays() {
    using A = Arr<T>; using U = typename A::U; static Sz const ns[] = {5, 16, 63, 127, 128, 255, 256, 257, 1000, 4097, 70001}; Sz const n = ns[seq::choose(11)], k = ns[seq::choose(11)];
    U u(n), w(k); typename A::M m, o; m.v.resize(n); o.v.resize(k); A::fill(u, m, 1); A::fill(w, o, 7); A::same(u, m); A::same(w, o);
    U x(std::move(u)); A::same(x, m); A::same(u, {}); u = std::move(w); A::same(u, o); A::same(w, {}); w = std::move(x); A::same(w, m); A::same(x, {}); u = std::move(w); A::same(u, m); A::same(w, {}); auto & self = u; u = std::move(self); A::same(u, m);
}
SEQ_TEST(large_arrays, 0, 0) { switch (seq::choose(5)) { case 0: largeArrays<char>(); break; case 1: largeArrays<int>(); break; case 2: largeArrays<double>(); break; case 3: largeArrays<S24>(); break; case 4: largeArrays<P3>(); break; } }
template <Sz A> void largeStorage() {
    static Sz const ns[] = {100, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65537, 1000001}; Sz const n = ns[seq::choose(14)]; bool const nt = seq::flip(); void * p[4];
    for (auto & q : p) { q = nt ? allocateAlignedStorage<A>(n, std::nothrow) : allocateAlignedStorage<A>(n); SEQ_CHECK(q && aligned(q, A), "storage of %zu bytes at a multiple of %zu", n, A); std::memset(q, int(&q - p) + 1, n); }
    for (int i = 0; i < 4; ++i) for (Sz k = 0; k < n; ++k) SEQ_CHECK(static_cast<unsigned char *>(p[i])[k] == i + 1, "storage overlaps"); for (auto q : p) freeAlignedStorage(q); seq::count(1);
}
SEQ_TEST(large_storage, 0, 0) { switch (seq::choose(7)) { case 0: largeStorage<1>(); break; case 1: largeStorage<4>(); break; case 2: largeStorage<8>(); break; case 3: largeStorage<16>(); break; case 4: largeStorage<64>(); break; case 5: largeStorage<256>(); break; case 6: largeStorage<65536>(); break; } }
template <typename T> void largeContainers() {
    using V = std::vector<T, AlignedAllocator<T>>; static int const ns[] = {30, 128, 300, 1000}; int const n = ns[seq::choose(4)]; V v, w; std::list<T, AlignedAllocator<T>> l;
    for (int i = 0; i < n; ++i) { v.push_back(val<T>(i)); if (i % 7 == 0) { l.push_back(val<T>(i)); SEQ_CHECK(aligned(&l.back(), alignof(T)), "list"); } SEQ_CHECK(aligned(v.data(), alignof(T)), "vector"); }
    w = v; v.resize(Sz(n) / 2); v.shrink_to_fit(); v.insert(v.begin(), w.begin(), w.end()); SEQ_CHECK(aligned(v.data(), alignof(T)) && aligned(w.data(), alignof(T)), "vector"); for (int i = 0; i < n; ++i) SEQ_CHECK(v[Sz(i)] == val<T>(i) && w[Sz(i)] == val<T>(i) && (i >= n / 2 || v[Sz(n + i)] == val<T>(i)), "element %d of %d", i, n); int i = 0; for (auto const & x : l) { SEQ_CHECK(x == val<T>(i), "list"); i += 7; } seq::count(1);
    for (Sz k : {Sz(100), Sz(255), Sz(256), Sz(1000), Sz(70000)}) { AlignedAllocator<T> a; T * p = a.allocate(k), * q = a.allocate(k); SEQ_CHECK(aligned(p, alignof(T)) && aligned(q, alignof(T)), "alignment"); std::memset(static_cast<void *>(p), 1, k * sizeof(T)); std::memset(static_cast<void *>(q), 2, k * sizeof(T)); for (Sz j = 0; j < k * sizeof(T); ++j) SEQ_CHECK(reinterpret_cast<char *>(p)[j] == 1 && reinterpret_cast<char *>(q)[j] == 2, "storage overlaps"); a.deallocate(p, k); a.deallocate(q, k); }
}
SEQ_TEST(large_containers, 0, 0) { switch (seq::choose(6)) { case 0: largeContainers<char>(); break; case 1: largeContainers<int>(); break; case 2: largeContainers<A32>(); break; case 3: largeContainers<A64>(); break; case 4: largeContainers<P3>(); break; case 5: largeContainers<S24>(); break; } }
/* Arrays of overaligned classes, with and without a destructor. */
namespace {
struct alignas(64) Plain { SHAREMIND_ALIGNEDALLOCATION_MEMBERS(64) int v; };
struct alignas(64) NotPlain { SHAREMIND_ALIGNEDALLOCATION_MEMBERS(64) int v; static int live; NotPlain() { ++live; } ~NotPlain() { --live; } }; int NotPlain::live = 0;
template <typename T> void classArrays() {
    bool const nt = seq::flip(); Sz const n = 1 + Sz(seq::choose(4)); T * p[6];
    for (auto & q : p) { q = nt ? new (std::nothrow) T[n] : new T[n]; SEQ_CHECK(q && aligned(q, 64), "an array of %zu is not aligned", n); for (Sz i = 0; i < n; ++i) q[i].v = int(i); T * const s = nt ? new (std::nothrow) T : new T; SEQ_CHECK(s && aligned(s, 64), "an object is not aligned"); s->v = 5; delete s; }
    for (auto q : p) delete[] q;
    seq::count(1);
}
}
SEQ_TEST(class_arrays, 0, 0) { if (seq::flip()) classArrays<Plain>(); else classArrays<NotPlain>(); SEQ_CHECK(!NotPlain::live, "objects left"); }
