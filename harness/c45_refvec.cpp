// C45: views of memory as vectors: all sizes in bytes and all short access histories.
#include "seq.h"
#include <cstdint>
#include <cstring>
#include <iterator>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>
#include <sharemind/BitVector.h>
#include <sharemind/ReferenceVector.h>

namespace {
using namespace sharemind; using Sz = std::size_t;
struct Ref { void * pData; Sz size; }; struct CRef { void const * pData; Sz size; };
struct Wide { std::int64_t a; char b; }; bool operator==(Wide const & x, Wide const & y) { return x.a == y.a && x.b == y.b; }
template <typename T> T val(int k) { return T(k); } template <> Wide val<Wide>(int k) { return Wide{k, char(k + 1)}; } template <> bool val<bool>(int k) { return k & 1; }
/* Deterministic generator: pieces of one stream of bytes. */
struct Rng {
    std::uint32_t s = 1; Sz bytes = 0, calls = 0; void * from = nullptr;
    unsigned char next() { s = s * 1664525u + 1013904223u; return static_cast<unsigned char>(s >> 24); }
    void fillBytes(void * p, Sz n) { ++calls; bytes += n; for (Sz i = 0; i < n; ++i) static_cast<unsigned char *>(p)[i] = next(); }
    template <typename It> void fillBlock(It b, It e) { ++calls; for (; b != e; ++b) { fill(*b); } }
    template <typename T> void fill(T & t) { bytes += sizeof t; t = T(next()); } void fill(Wide & w) { bytes += sizeof w; w = Wide{next(), char(next())}; }
};
template <typename T> struct Check {
    using V = RefVec<T>; using C = CRefVec<T>;
    static void same(V & v, C const & c, std::vector<T> const & m, T const * at) {
        V const & k = v; Sz const n = m.size(); SEQ_CHECK(v.size() == n && c.size() == n && v.empty() == !n && c.empty() == !n, "size %zu, %zu instead of %zu", v.size(), c.size(), n);
        SEQ_CHECK(v.begin() == at && k.begin() == at && c.begin() == at && v.end() == at + n && k.end() == at + n && c.end() == at + n, "the range referred to");
        static_assert(std::is_same<decltype(v.begin()), T *>::value && std::is_same<decltype(k.begin()), T const *>::value && std::is_same<decltype(c.begin()), T const *>::value && std::is_same<decltype(v[0]), T &>::value && std::is_same<decltype(k[0]), T const &>::value && std::is_same<decltype(c[0]), T const &>::value, "");
        Sz i = 0; for (T const & x : c) { SEQ_CHECK(i < n && x == m[i] && &x == at + i, "element %zu", i); ++i; } SEQ_CHECK(i == n, "elements"); i = 0; for (T & x : v) { SEQ_CHECK(i < n && &x == at + i, "element %zu", i); ++i; }
        for (i = 0; i < n; ++i) SEQ_CHECK(&v[i] == at + i && &k[i] == at + i && &c[i] == at + i && v[i] == m[i], "element %zu", i); seq::count(1);
    }
    static void run() {
        Sz const bytes = Sz(seq::choose(int(4 * sizeof(T)) + 1)), n = bytes / sizeof(T); std::unique_ptr<T[]> mem(new T[n + 1]); unsigned char const tail = 0xa5; std::memset(static_cast<void *>(mem.get()), 0, (n + 1) * sizeof(T)); for (Sz i = 0; i < n; ++i) mem[i] = val<T>(int(i) + 1); std::memset(static_cast<void *>(&mem[n]), tail, sizeof(T));
        std::vector<T> m(mem.get(), mem.get() + n); Ref const r{mem.get(), bytes}; CRef const cr{mem.get(), bytes}; V v(r); V w(v); C const c(cr); C const fromRef(r); C const fromVec(v); C const copy(fromVec); same(v, c, m, mem.get());
        for (int s = 0; s < seq::depth(); ++s) {
            T const x = val<T>(20 + s);
            switch (seq::choose(4)) {
            case 0: { if (!n) return; Sz const i = Sz(seq::choose(int(n))); if (seq::flip()) v[i] = x; else *(w.begin() + std::ptrdiff_t(i)) = x; m[i] = x; } break;
            case 1: if (!n) return; mem[n - 1] = x; m[n - 1] = x; break;
            case 2: { Rng a, b; a.s = b.s = std::uint32_t(s + 3); (seq::flip() ? v : w).randomize(a); if (n) randomized(b, m); } break;
            case 3: for (T & e : w) e = x; for (Sz i = 0; i < n; ++i) m[i] = x; break;
            }
            same(v, c, m, mem.get()); same(w, fromVec, m, mem.get()); same(v, fromRef, m, mem.get()); same(w, copy, m, mem.get());
            unsigned char t[sizeof(T)]; std::memcpy(t, static_cast<void const *>(&mem[n]), sizeof(T)); for (unsigned char y : t) SEQ_CHECK(y == tail, "memory behind the last whole element was written");
            std::uint64_t h = bytes; for (T const & e : m) { h = seq::mix(h, *reinterpret_cast<unsigned char const *>(&e)); } seq::state(h);
        }
    }
    static void randomized(Rng & b, std::vector<T> & m) { for (T & e : m) b.fill(e); }
};
/* bool: the elements are what a bit vector of this size gets. */
struct Bools {
    static void run() {
        Sz const n = Sz(seq::choose(5)) * 17u + Sz(seq::choose(3)); std::unique_ptr<bool[]> mem(new bool[n + 1]); std::memset(mem.get(), 0, n + 1); unsigned char const tail = 0x5a; std::memcpy(&mem[n], &tail, 1);
        RefVec<bool> v(Ref{mem.get(), n}); CRefVec<bool> const c(v); SEQ_CHECK(v.size() == n && c.size() == n && v.empty() == !n, "size"); bool constant = n > 16;
        for (int s = 0; s < 3; ++s) {
            Rng a, b; a.s = b.s = std::uint32_t(s * 977 + 5); v.randomize(a); std::vector<unsigned char> raw(n); if (n) std::memcpy(raw.data(), mem.get(), n);
            BitVec<> bits(n); bits.randomize(b); for (Sz i = 0; i < n; ++i) { SEQ_CHECK(raw[i] <= 1, "element %zu is not a valid bool", i); SEQ_CHECK(bool(raw[i]) == bits[i], "element %zu is not random bit %zu", i, i); SEQ_CHECK(c[i] == bool(raw[i]), "element"); if (i && raw[i] != raw[0]) constant = false; }
            unsigned char t; std::memcpy(&t, &mem[n], 1); SEQ_CHECK(t == tail, "memory behind the last element was written"); seq::count(n);
            if (n) { Sz const i = Sz(seq::choose(2)) * (n - 1); v[i] = !v[i]; SEQ_CHECK(c[i] != bool(raw[i]), "write"); }
        }
        SEQ_CHECK(!constant, "all random elements are equal");
    }
};
template <typename T> void large() {
    static Sz const ns[] = { 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 70001 }; Sz const n = ns[seq::choose(17)], extra = sizeof(T) > 1 && seq::flip() ? sizeof(T) - 1 : 0; std::unique_ptr<T[]> mem(new T[n + 1]); std::vector<T> m; for (Sz i = 0; i < n; ++i) { mem[i] = val<T>(int(i % 120)); m.push_back(mem[i]); } std::memset(static_cast<void *>(&mem[n]), 0x5a, sizeof(T));
    RefVec<T> v(Ref{mem.get(), n * sizeof(T) + extra}); CRefVec<T> const c(CRef{mem.get(), n * sizeof(T) + extra}); CRefVec<T> const w(v); Check<T>::same(v, c, m, mem.get()); Check<T>::same(v, w, m, mem.get());
    Rng a, b; a.s = b.s = 99; v.randomize(a); for (T & x : m) b.fill(x); Check<T>::same(v, c, m, mem.get()); unsigned char t[sizeof(T)]; std::memcpy(t, static_cast<void const *>(&mem[n]), sizeof(T)); for (unsigned char y : t) SEQ_CHECK(y == 0x5a, "memory behind the last whole element was written"); v[n - 1] = m[n - 1] = val<T>(3); v[n / 2] = m[n / 2] = val<T>(4); Check<T>::same(v, w, m, mem.get());
}
SEQ_TEST(large_views, 0, 0) { switch (seq::choose(4)) { case 0: large<char>(); break; case 1: large<std::uint16_t>(); break; case 2: large<int>(); break; default: large<Wide>(); } }
SEQ_TEST(bytes, 3, 5) { Check<char>::run(); }
SEQ_TEST(shorts, 3, 5) { Check<std::uint16_t>::run(); }
SEQ_TEST(ints, 3, 4) { Check<int>::run(); }
SEQ_TEST(doubles, 2, 3) { Check<double>::run(); }
SEQ_TEST(structures, 2, 3) { Check<Wide>::run(); }
SEQ_TEST(booleans, 0, 0) { Bools::run(); }
} // namespace
