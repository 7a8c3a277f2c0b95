// C26: every history of two BitVecs (8, 16 and 64 bit blocks) next to reference bit sequences.
#include "seq.h"
#include <algorithm>
#include <cstdint>
#include <iterator>
#include <list>
#include <new>
#include <ostream>
#include <stdexcept>
#include <string>
#include <vector>
#include <sharemind/BitVector.h>

namespace {
using Bits = std::vector<int>; // 0, 1, or -1 where the value is unspecified
struct Msg { std::vector<std::uint64_t> w; std::size_t pos = 0, failAt = ~std::size_t(0);
    void write(std::uint64_t v) { w.push_back(v); }
    bool read(std::uint64_t & v) { if (pos >= w.size() || pos >= failAt) return false; v = w[pos++]; return true; } };
struct Rng { unsigned s = 7; void fillBytes(void * p, std::size_t n) { auto * c = static_cast<unsigned char *>(p); while (n--) { s = s * 1103515245u + 12345u; *c++ = static_cast<unsigned char>(s >> 16); } } };
template <typename V> void agree(V & v, Bits & m, char const * n) {
    V const & c = v;
    SEQ_CHECK(c.size() == m.size() && c.empty() == m.empty(), "%s has %zu bits instead of %zu", n, c.size(), m.size());
    for (std::size_t i = 0; i < m.size(); ++i) {
        bool const x = c[i]; if (m[i] < 0) m[i] = x;
        SEQ_CHECK(x == m[i], "bit %zu of %zu of %s is %d", i, m.size(), n, x);
        SEQ_CHECK(bool(v[i]) == m[i] && c.at(i) == m[i] && bool(v.at(i)) == m[i] && (~v[i]) == !m[i], "bit %zu of %s is read in different ways", i, n);
    }
    if (!m.empty()) SEQ_CHECK(c.front() == m.front() && c.back() == m.back(), "front or back of %s", n);
}
template <typename V> void range(V & v, Bits & m) {
    V const & c = v;
    for (int k = 0; k < 2; ++k) { bool t = false; try { if (k) (void) c.at(m.size()); else (void) v.at(m.size()); } catch (std::out_of_range const &) { t = true; } SEQ_CHECK(t, "at() past the end doesn't throw"); }
}
std::uint64_t pattern(int k) { static std::uint64_t const p[] = {0x0, ~0ull, 0xb2e4a1c65d937f08ull}; return p[k]; }
template <typename V> V make(int n, int pat, Bits & m) {
    std::vector<bool> src; m.clear();
    for (int i = 0; i < n; ++i) { bool const x = (pattern(pat) >> (i % 61)) & 1; src.push_back(x); m.push_back(x); }
    return V(src.begin(), src.end());
}
template <typename Block> void run(std::vector<int> const & sizes, bool const faults = false) {
    using V = sharemind::BitVec<Block>;
    int const W = int(8 * sizeof(Block));
    Bits ma, mb; V a(make<V>(sizes[seq::choose(int(sizes.size()))], 2, ma)), b(make<V>(sizes[seq::choose(int(sizes.size()))], 1 + seq::choose(2), mb));
    for (int s = 0; s < seq::depth(); ++s) {
        int const o = seq::choose(24); Bits const oa = ma, ob = mb; bool ok = true;
        if (faults) seq::armAllocFaults(1);
        auto done = [faults] { if (faults) seq::disarmAllocFaults(); };
        seq::op("op %d (%zu, %zu bits)", o, ma.size(), mb.size());
        try { switch (o) {
        case 0: a.push_back(true); done(); ma.push_back(1); break;
        case 1: a.push_back(false); done(); ma.push_back(0); break;
        case 2: if (ma.empty()) { done(); return; } a.pop_back(); done(); ma.pop_back(); break;
        case 3: a.append(b); done(); ma.insert(ma.end(), mb.begin(), mb.end()); break;
        case 4: if (ma.size() > 200) { done(); return; } a.append(a); done(); ma.insert(ma.end(), oa.begin(), oa.end()); break;
        case 5: SEQ_CHECK(&a.set() == &a, "set"); done(); std::fill(ma.begin(), ma.end(), 1); break;
        case 6: SEQ_CHECK(&a.reset() == &a, "reset"); done(); std::fill(ma.begin(), ma.end(), 0); break;
        case 7: SEQ_CHECK(&a.flip() == &a, "flip"); done(); for (auto & x : ma) x = !x; break;
        case 8: { done(); if (ma.empty()) return; std::size_t const i = seq::flip() ? ma.size() - 1 : ma.size() / 2; int const k = seq::choose(10); bool const x = k & 1;
            switch (k / 2) { case 0: a[i] = x; ma[i] = x; break; case 1: a[i] |= x; ma[i] |= x; break; case 2: a[i] &= x; ma[i] &= x; break; case 3: a[i] ^= x; ma[i] ^= x; break;
            default: if (x) { a[i].flip(); ma[i] = !ma[i]; } else { a[i] = a[0]; ma[i] = ma[0]; } } break; }
        case 9: case 10: { auto const n = ma.size() + (o == 9 ? 1 : W + 1); a.resize(n); done(); ma.resize(n, -1); break; }
        case 11: case 12: { auto const n = ma.size() - std::min(ma.size(), std::size_t(o == 11 ? 1 : W + 1)); a.resize(n); done(); ma.resize(n); break; }
        case 13: a.swap(b); done(); std::swap(ma, mb); break;
        case 14: case 15: case 16: { done(); if (ma.size() != mb.size()) return;
            for (std::size_t i = 0; i < ma.size(); ++i) ma[i] = o == 14 ? ma[i] & mb[i] : o == 15 ? ma[i] | mb[i] : ma[i] ^ mb[i];
            { V c(o == 14 ? a & b : o == 15 ? a | b : a ^ b); Bits mc = ma; agree(c, mc, "the combination"); }
            SEQ_CHECK(&(o == 14 ? a &= b : o == 15 ? a |= b : a ^= b) == &a, "combined assignment"); break; }
        case 17: a = b; done(); ma = mb; break;
        case 18: { V c(a); done(); b = std::move(c); mb = ma; { Bits left(c.size(), -1); agree(c, left, "the moved-from vector"); c.push_back(true); SEQ_CHECK(c.back(), "a bit added to a moved-from vector"); } break; }
        case 19: { done(); if (ma.size() != mb.size()) return; a.assign(b); ma = mb; break; }
        case 20: { done(); std::vector<bool> src; std::uint64_t const p = pattern(2) >> s; for (std::size_t i = 0; i < ma.size(); ++i) src.push_back((p >> (i % 50)) & 1);
            int const k = seq::choose(3); if (faults) seq::armAllocFaults(1);
            if (k == 0) a.assign(src.begin(), src.end()); else if (k == 1) { done(); std::list<int> l(src.begin(), src.end()); a.assign(l.begin(), l.end()); }
            else { done(); struct In { using iterator_category = std::input_iterator_tag; using value_type = bool; using difference_type = std::ptrdiff_t; using pointer = bool const *; using reference = bool;
                       std::vector<bool> const * v; std::size_t i; bool operator*() const { return (*v)[i]; } In & operator++() { ++i; return *this; } In operator++(int) { In r(*this); ++i; return r; } bool operator==(In const & o) const { return i == o.i; } bool operator!=(In const & o) const { return i != o.i; } };
                   a.assign(In{&src, 0}, In{&src, src.size()}); }
            done(); for (std::size_t i = 0; i < ma.size(); ++i) ma[i] = src[i]; break; }
        case 21: { std::size_t const n = ma.size() + 3; done(); bool const v = seq::flip(); a.assign(n, v); ma.assign(n, v); break; }
        case 22: if (s & 1) a.clear(); else a.clear_and_release(); done(); ma.clear(); break;
        case 23: { done(); std::size_t const n = ma.size(); bool const v = seq::flip(); a = V(n, v); ma.assign(n, v); break; }
        } } catch (std::bad_alloc const &) { ok = false; }
        done();
        if (!ok) { // nothing changes in size; contents of a failed append or copy are unspecified beyond that
            mb = ob; ma = oa;
            if (o == 3 || o == 4 || o == 17) { SEQ_CHECK(a.size() == oa.size(), "a failed operation changes the size from %zu to %zu", oa.size(), a.size()); if (o == 17) return; }
        }
        agree(a, ma, "the vector"); agree(b, mb, "the other vector");
        bool const eq = ma == mb;
        SEQ_CHECK((a == b) == eq && (a != b) == !eq, "vectors of %zu and %zu bits compare %s", ma.size(), mb.size(), eq ? "different" : "equal");
        if (s + 1 == seq::depth()) range(a, ma);
        std::uint64_t h = ma.size(); for (int x : ma) h = h * 3 + x; h = seq::mix(h, mb.size()); for (int x : mb) h = h * 3 + x; seq::state(h);
    }
}
template <typename Block> void serial() {
    using V = sharemind::BitVec<Block>;
    int const n = seq::choose(140); Bits m, mo; V v(make<V>(n, seq::choose(3), m)); V const & c = v;
    if (n && seq::flip()) { v.push_back(true); v.pop_back(); } // leaves a bit behind
    Msg msg; c.serialize(msg);
    SEQ_CHECK(msg.w.size() == 1 + (std::size_t(n) + 63) / 64 && msg.w[0] == std::uint64_t(n), "%zu words for %d bits", msg.w.size(), n);
    for (int i = 0; i < n; ++i) SEQ_CHECK(((msg.w[1 + i / 64] >> (i % 64)) & 1) == unsigned(m[i]), "serialized bit %d", i);
    V o(make<V>(n, 1, mo));
    Msg r = msg; SEQ_CHECK(o.deserialize(r) && r.pos == r.w.size(), "deserialization fails"); agree(o, m, "the deserialized vector"); SEQ_CHECK(o == v, "deserialized vector differs");
    r = msg; r.failAt = std::size_t(seq::choose(int(msg.w.size()))); SEQ_CHECK(!o.deserialize(r), "reads a truncated message"); SEQ_CHECK(o.size() == std::size_t(n), "size after failed deserialization");
    V p(make<V>(n + 1, 1, mo)); r = msg; SEQ_CHECK(!p.deserialize(r), "reads another size"); agree(p, mo, "a vector of another size");
    std::vector<Block> raw(static_cast<Block const *>(c.data()), static_cast<Block const *>(c.data()) + (n + 8 * int(sizeof(Block)) - 1) / (8 * int(sizeof(Block))));
    Bits m2; V q(make<V>(int(raw.size() * 8 * sizeof(Block)), 0, m2)); q.assignBits(raw.begin(), raw.end()); for (int i = 0; i < n; ++i) SEQ_CHECK(q[std::size_t(i)] == m[i], "assigned bit %d", i);
    Rng rng; q.randomize(rng); SEQ_CHECK(q.size() == m2.size(), "randomize");
    seq::count(n);
}
} // namespace
SEQ_TEST(bytes, 2, 3) { run<std::uint8_t>({0, 1, 5, 7, 8, 9, 16}); }
SEQ_TEST(bytes_deep, 3, 4) { run<std::uint8_t>({0, 7}); }
SEQ_TEST(shorts, 2, 3) { run<std::uint16_t>({0, 1, 15, 16, 17, 33}); }
SEQ_TEST(words, 2, 3) { run<std::uint64_t>({0, 1, 63, 64, 65, 128}); }
SEQ_TEST(failing_allocations, 2, 3) { run<std::uint8_t>({0, 7, 8}, true); }
SEQ_TEST(serialization_bytes, 0, 0) { serial<std::uint8_t>(); }
SEQ_TEST(serialization_ints, 0, 0) { serial<std::uint32_t>(); }
SEQ_TEST(serialization_words, 0, 0) { serial<std::uint64_t>(); }
/* Values which can be read only once, and allocators with a state of their own. */
namespace {
struct Once { using iterator_category = std::input_iterator_tag; using value_type = bool; using difference_type = std::ptrdiff_t; using pointer = bool const *; using reference = bool;
    std::vector<bool> const * v; std::size_t * next; // shared by all copies; null at the end
    bool atEnd() const { return !next || *next == v->size(); }
    bool operator*() const { SEQ_CHECK(!atEnd(), "read past the end of the input"); return (*v)[*next]; }
    Once & operator++() { SEQ_CHECK(!atEnd(), "moved past the end of the input"); ++*next; return *this; }
    void operator++(int) { ++*this; }
    bool operator==(Once const & o) const { return atEnd() == o.atEnd(); } bool operator!=(Once const & o) const { return atEnd() != o.atEnd(); } };
long bitBlocks[4];
template <typename T> struct BitAlloc { using value_type = T; int id; BitAlloc(): id(0) {} explicit BitAlloc(int i): id(i) {} template <typename U> BitAlloc(BitAlloc<U> const & o): id(o.id) {}
    T * allocate(std::size_t n) { ++bitBlocks[id]; return static_cast<T *>(::operator new(n * sizeof(T))); } void deallocate(T * p, std::size_t) { --bitBlocks[id]; ::operator delete(p); }
    bool operator==(BitAlloc const & o) const { return id == o.id; } bool operator!=(BitAlloc const & o) const { return id != o.id; } };
template <typename Block> void sources() {
    using V = sharemind::BitVec<Block>; int const n = seq::choose(70); std::vector<bool> src; Bits m;
    for (int i = 0; i < n; ++i) { bool const x = (pattern(2) >> (i % 61)) & 1; src.push_back(x); m.push_back(x); }
    std::size_t next = 0; Once const first{&src, &next}, last{&src, nullptr};
    { V v(first, last); SEQ_CHECK(next == src.size(), "%zu of %zu bits are read", next, src.size()); agree(v, m, "the vector read from a stream"); }
    { Bits o; V v(make<V>(n, 1, o)); next = 0; v.assign(first, last); SEQ_CHECK(next == src.size(), "%zu of %zu bits are read", next, src.size()); agree(v, m, "the vector assigned from a stream"); }
    { std::list<bool> const l(src.begin(), src.end()); V v(l.begin(), l.end()); agree(v, m, "the vector made from a list"); bool const * const p = nullptr; V e(p, p); Bits none; agree(e, none, "the vector of no bits"); }
    using A = BitAlloc<Block>; using W = sharemind::BitVec<Block, A>;
    for (long & b : bitBlocks) b = 0;
    { A const a(2); W e(a), f(std::size_t(n), true, a), g(src.begin(), src.end(), a), d; SEQ_CHECK(e.get_allocator().id == 2 && f.get_allocator().id == 2 && g.get_allocator().id == 2 && d.get_allocator().id == 0, "another allocator");
      SEQ_CHECK(bitBlocks[2] == 2 * (n > 0) && bitBlocks[0] == 0, "allocated elsewhere"); Bits ones(std::size_t(n), 1), none; agree(f, ones, "the vector of ones"); agree(g, m, "the vector with an allocator"); agree(e, none, "the empty vector");
      e.append(g); agree(e, m, "the appended vector"); e.push_back(true); W c(e); SEQ_CHECK(c.get_allocator().id == 2 && bitBlocks[0] == 0, "the allocator of a copy"); W h(std::move(c)); SEQ_CHECK(h.get_allocator().id == 2 && h.size() == std::size_t(n + 1) && c.empty(), "the allocator of a moved vector"); }
    for (long const b : bitBlocks) SEQ_CHECK(!b, "%ld blocks leaked", b);
    seq::count(6);
}
}
SEQ_TEST(sources, 0, 0) { switch (seq::choose(3)) { case 0: sources<std::uint8_t>(); break; case 1: sources<std::uint16_t>(); break; default: sources<std::uint64_t>(); } }
/* Long vectors: every operation on many blocks. */
namespace { template <typename Block> void longVectors() {
    using V = sharemind::BitVec<Block>; static int const sizes[] = {257, 1023, 1024, 2081}; int const n = sizes[seq::choose(4)], pa = seq::choose(3), pb = seq::choose(3);
    Bits ma, mb; V a(make<V>(n, pa, ma)), b(make<V>(n, pb, mb)); V const ca(a);
    for (int s = 0; s < 2; ++s) {
        switch (seq::choose(13)) {
        case 0: a &= b; for (std::size_t i = 0; i < ma.size(); ++i) ma[i] &= mb[i]; break;
        case 1: a |= b; for (std::size_t i = 0; i < ma.size(); ++i) ma[i] |= mb[i]; break;
        case 2: a ^= b; for (std::size_t i = 0; i < ma.size(); ++i) ma[i] ^= mb[i]; break;
        case 3: a.flip(); for (auto & x : ma) x = !x; break;
        case 4: a.set(); std::fill(ma.begin(), ma.end(), 1); break;
        case 5: a.reset(); std::fill(ma.begin(), ma.end(), 0); break;
        case 6: if (ma.size() != mb.size()) return; a = b; a.append(b); ma = mb; ma.insert(ma.end(), mb.begin(), mb.end()); a.resize(mb.size()); ma.resize(mb.size()); break;
        case 7: for (int i = 0; i < 300; ++i) { a.push_back(i % 7 < 3); ma.push_back(i % 7 < 3); } agree(a, ma, "the vector"); for (int i = 0; i < 300; ++i) { a.pop_back(); ma.pop_back(); } break;
        case 8: { std::vector<bool> src; for (std::size_t i = 0; i < ma.size(); ++i) src.push_back(i % 11 < 4); a.assign(src.begin(), src.end()); ma.assign(src.begin(), src.end()); break; }
        case 9: { std::list<int> src; for (std::size_t i = 0; i < ma.size(); ++i) src.push_back(i % 13 < 6); a.assign(src.begin(), src.end()); ma.assign(src.begin(), src.end()); break; }
        case 10: a.swap(b); std::swap(ma, mb); break;
        case 11: { V c(a); c.append(b); Bits mc(ma); mc.insert(mc.end(), mb.begin(), mb.end()); agree(c, mc, "the long vector"); a = std::move(c); a.resize(ma.size()); break; }
        default: { Msg m; b.serialize(m); SEQ_CHECK(a.deserialize(m), "deserialization fails"); ma = mb; break; }
        }
        agree(a, ma, "the vector"); agree(b, mb, "the other vector");
        bool const eq = ma == mb; SEQ_CHECK((a == b) == eq && (b != a) == !eq, "vectors of %d bits compare %s", n, eq ? "different" : "equal");
        if (s) for (int i : {0, n / 2, n - 1}) { V c(a); c[std::size_t(i)].flip(); SEQ_CHECK(c != a && !(a == c), "bit %d of %d isn't compared", i, n); }
    }
    { V c(ca); Bits mc; V d(make<V>(n, pa, mc)); agree(c, mc, "the copied vector"); }
    seq::count(1);
} }
SEQ_TEST(long_vectors, 0, 0) { switch (seq::choose(3)) { case 0: longVectors<std::uint8_t>(); break; case 1: longVectors<std::uint32_t>(); break; default: longVectors<std::uint64_t>(); } }
