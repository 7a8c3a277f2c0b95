// C24: every history of two UnorderedMaps next to reference maps; keys with distinct, partly colliding and equal hashes.
#include "seq.h"
#include <cstddef>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <sharemind/UnorderedMap.h>

namespace {
using seq::Tracked;
int hashMode; // 0: all equal, 1: even/odd, 2: distinct
std::size_t hashOf(int k) { return hashMode == 0 ? 5u : hashMode == 1 ? std::size_t(k & 1) * 13u : std::size_t(k) * 1000003u; }
struct K { Tracked t; K(int k): t(k) {} int v() const { t.chk("use"); return t.v; } };
bool operator==(K const & a, K const & b) { return a.v() == b.v(); }
struct Plain { std::size_t operator()(K const & k) const { return hashOf(k.v()); } };
struct Alt { int k; };
struct Transparent {
    struct transparent_key_equal {
        using is_transparent = void;
        bool operator()(K const & a, K const & b) const { return a.v() == b.v(); }
        bool operator()(K const & a, Alt const & b) const { return a.v() == b.k; }
        bool operator()(K const & a, int b) const { return a.v() == b; }
    };
    std::size_t operator()(K const & k) const { return hashOf(k.v()); }
    std::size_t operator()(Alt const & k) const { return hashOf(k.k); }
};
struct Pred { int k; std::size_t hash() const { return hashOf(k); } bool operator()(K const & o) const { return o.v() == k; } };
using M1 = sharemind::UnorderedMap<K, Tracked, Plain>;
using M2 = sharemind::UnorderedMap<K, Tracked, Transparent>;
using Model = std::map<int, int>;

template <typename M> void transparent(M &, M const &, int, int) {}
void transparent(M2 & m, M2 const & c, int k, int expected) {
    auto is = [&](M2::const_iterator it, char const * n) {
        int const v = it == c.end() ? -1 : it->second.v;
        SEQ_CHECK(v == expected, "%s of key %d gives %d instead of %d", n, k, v, expected); };
    is(m.find(Alt{k}), "find(equivalent key)"); is(c.find(Alt{k}), "find(equivalent key) const");
    SEQ_CHECK(c.contains(Alt{k}) == (expected >= 0) && c.count(Alt{k}) == std::size_t(expected >= 0), "contains/count(equivalent key %d)", k);
}
template <typename M> void agree(M & m, Model const & r, int keys, char const * which) {
    M const & c = m;
    SEQ_CHECK(c.size() == r.size() && c.empty() == r.empty(), "%s has size %zu instead of %zu", which, c.size(), r.size());
    std::set<int> seen;
    for (auto const & e : c) {
        auto it = r.find(e.first.v());
        SEQ_CHECK(it != r.end(), "%s: key %d is iterated over, but not in the map", which, e.first.v());
        SEQ_CHECK(seen.insert(e.first.v()).second, "%s: key %d is iterated over twice", which, e.first.v());
        e.second.chk("iteration");
        SEQ_CHECK(e.second.v == it->second, "%s: key %d has value %d instead of %d", which, it->first, e.second.v, it->second);
    }
    SEQ_CHECK(seen.size() == r.size(), "%s: %zu of %zu entries are iterated over", which, seen.size(), r.size());
    std::size_t n = 0;
    for (std::size_t b = 0; b < c.bucket_count(); ++b) {
        std::size_t inB = 0; for (auto it = c.begin(b); it != c.end(b); ++it) { ++n; ++inB; SEQ_CHECK(c.bucket(it->first) == b, "bucket of a key"); }
        SEQ_CHECK(c.bucket_size(b) == inB, "bucket size");
    }
    SEQ_CHECK(n == r.size(), "%s: the buckets have %zu entries instead of %zu", which, n, r.size());
    for (int k = 0; k < keys; ++k) {
        K const key(k); auto const ri = r.find(k); int const expected = ri == r.end() ? -1 : ri->second;
        auto is = [&](typename M::const_iterator it, char const * n) {
            int const v = it == c.end() ? -1 : it->second.v; int const kk = it == c.end() ? k : it->first.v();
            SEQ_CHECK(v == expected && kk == k, "%s: %s of key %d gives key %d, value %d instead of %d", which, n, k, kk, v, expected); };
        auto const h = hashOf(k);
        auto p1 = [k](K const & o) { return o.v() == k; };
        auto p2 = [](K const & o, Alt const & a) { return o.v() == a.k; };
        is(m.find(key), "find"); is(c.find(key), "find const");
        is(m.find(h, p1), "find(hash, predicate)"); is(c.find(h, p1), "find(hash, predicate) const");
        is(m.find(Pred{k}), "find(table predicate)"); is(c.find(Pred{k}), "find(table predicate) const");
        is(m.find(h, p2, Alt{k}), "find(hash, predicate, key)"); is(c.find(h, p2, Alt{k}), "find(hash, predicate, key) const");
        is(m.find(h, key), "find(hash, key)"); is(c.find(h, key), "find(hash, key) const");
        bool const has = expected >= 0;
        SEQ_CHECK(c.contains(key) == has && c.contains(h, p1) == has && c.contains(Pred{k}) == has && c.contains(h, p2, Alt{k}) == has, "%s: contains(%d)", which, k);
        SEQ_CHECK(c.count(key) == has && c.count(h, p1) == has && c.count(Pred{k}) == has && c.count(h, p2, Alt{k}) == has, "%s: count(%d)", which, k);
        auto er = m.equal_range(key); auto cer = c.equal_range(key);
        SEQ_CHECK(std::distance(er.first, er.second) == has && std::distance(cer.first, cer.second) == has, "%s: equal_range(%d)", which, k);
        if (has) { is(er.first, "equal_range"); is(cer.first, "equal_range const"); SEQ_CHECK(m.at(key).v == expected && c.at(key).v == expected, "%s: at(%d)", which, k); }
        else for (int i = k & 1; i <= (k & 1); ++i) { bool thrown = false; try { (void) (i ? c.at(key) : m.at(key)); } catch (std::out_of_range const &) { thrown = true; } SEQ_CHECK(thrown, "%s: at(%d) of a missing key doesn't throw", which, k); }
        transparent(m, c, k, expected);
    }
}
template <typename M> void run(int const keys, bool const faults, int const ops) {
    hashMode = seq::choose(3);
    long const base = Tracked::live;
    {
    M a(seq::flip() ? 1 : 7), b; Model ra, rb; int next = 0;
    using VT = typename M::value_type;
    for (int s = 0; s < seq::depth(); ++s) {
        int const o = seq::choose(ops); int v = next++;
        int k = 0; if (o < 9) k = seq::choose(keys);
        Model na = ra, nb = rb; // states after success
        bool ok = true;
        std::pair<typename M::iterator, bool> r(a.end(), false); bool checkR = false, had = ra.count(k);
        K key(k); VT pair(k, v);
        std::vector<VT> list; if (o == 13) { list.emplace_back(0, v); list.emplace_back(1, v); list.emplace_back(0, v + 100); }
        auto arm = [faults] { if (faults) seq::armAllocFaults(1); };
        auto disarm = [faults] { if (faults) seq::disarmAllocFaults(); };
        try {
            switch (o) {
            case 0: arm(); switch (v % 4) { // keep an existing entry
                case 0: r = a.emplace(key, Tracked(v)); break;
                case 1: r = a.insert(static_cast<VT const &>(pair)); break;
                case 2: r = a.insert(std::move(pair)); break;
                default: r = a.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(v)); }
                disarm(); checkR = true; na.emplace(k, v); break;
            case 1: arm(); switch (v % 4) { // replace it
                case 0: r = a.insert_or_assign(key, Tracked(v)); break;
                case 1: r = a.insert_or_assign(K(k), Tracked(v)); break;
                case 2: r.first = a.insert_or_assign(a.cend(), key, Tracked(v)); r.second = !had; break;
                default: r.first = a.insert_or_assign(a.cbegin(), K(k), Tracked(v)); r.second = !had; }
                disarm(); checkR = true; na[k] = v; break;
            case 2: { arm(); auto & x = (v & 1) ? a[key] : a[K(k)]; disarm(); SEQ_CHECK(x.v == (had ? ra[k] : 0), "operator[] of key %d gives %d", k, x.v); x = Tracked(v); na[k] = v; break; }
            case 3: { auto n = a.erase(key); na.erase(k); SEQ_CHECK(n == had, "erase(%d) erases %zu", k, n); break; }
            case 4: { auto it = a.find(key); if (it == a.end()) return;
                std::set<int> rest; for (auto j = std::next(it); j != a.end(); ++j) rest.insert(j->first.v());
                auto e = a.erase(it); for (; e != a.end(); ++e) SEQ_CHECK(rest.erase(e->first.v()) == 1, "erase(iterator) returns a wrong position");
                SEQ_CHECK(rest.empty(), "erase(iterator) returns a wrong position"); na.erase(k); break; }
            case 5: { auto it = a.find(key); if (it == a.end()) return; it->second = Tracked(v); na[k] = v; break; }
            case 6: arm(); r.first = a.emplace_hint(a.cend(), key, Tracked(v)); disarm(); r.second = !had; checkR = true; na.emplace(k, v); break;
            case 7: arm(); r.first = (v & 1) ? a.insert(a.cend(), static_cast<VT const &>(pair)) : a.insert(a.cend(), std::move(pair)); disarm(); r.second = !had; checkR = true; na.emplace(k, v); break;
            case 8: { auto it = a.find(key); // erase everything from the entry on
                if (it == a.end()) return;
                for (auto j = it; j != a.end(); ++j) na.erase(j->first.v()); auto e = a.erase(it, a.cend()); SEQ_CHECK(e == a.end(), "erase(range)"); break; }
            case 9: a.clear(); na.clear(); break;
            case 10: if (v & 1) { arm(); M c(a); disarm(); agree(c, ra, keys, "copy"); nb = ra; b = std::move(c); } else { arm(); b = a; disarm(); nb = ra; } break;
            case 11: if (v & 1) { M c(std::move(a)); b = std::move(c); } else b = std::move(a); a.clear(); nb = ra; na.clear(); break;
            case 12: a.swap(b); std::swap(na, nb); break;
            case 13: { na = {{0, v}, {1, v}};
                arm(); switch (v % 3) { case 0: a = M(list.begin(), list.end(), 3); break; case 1: a = {list[0], list[1], list[2]}; break; default: a = M({list[0], list[1], list[2]}, 2); } disarm(); break; }
            case 14: arm(); a.rehash(v & 1 ? 1 : 29); break;
            case 15: arm(); a.reserve(10); break;
            case 16: { bool const same = ra == rb; SEQ_CHECK((a == b) == same && (a != b) != same, "comparison of maps"); break; }
            case 17: { arm(); M c(a, a.get_allocator()); disarm(); agree(c, ra, keys, "allocator-extended copy"); for (auto & x : c) x.second = Tracked(77); nb = rb; break; }
            case 18: { M & self = a; a = self; break; }
            }
            seq::op("op %d, key %d, value %d", o, k, v);
        } catch (std::bad_alloc const &) { ok = false; }
        if (faults) seq::disarmAllocFaults();
        if (ok && checkR) SEQ_CHECK(r.first != a.end() && r.second == !had && r.first->first.v() == k && r.first->second.v == na[k], "op %d of key %d returns key %d, value %d, %d", o, k, r.first->first.v(), r.first->second.v, r.second);
        if (ok) { ra = na; rb = nb; }
        else { seq::op("op %d failed", o);
            if (o == 2) { if (a.contains(key) && !ra.count(k)) ra[k] = a.at(key).v; } }
        SEQ_CHECK(a.size() == ra.size() && b.size() == rb.size(), "sizes %zu, %zu instead of %zu, %zu", a.size(), b.size(), ra.size(), rb.size());
        if (s + 1 == seq::depth()) { agree(a, ra, keys, "the map"); agree(b, rb, keys, "the other map"); } // (one operation compares only)
        std::uint64_t h = hashMode; for (auto & e : ra) h = seq::mix(h, e.first); h = seq::mix(h, 99); for (auto & e : rb) h = seq::mix(h, e.first); seq::state(h);
    }
    SEQ_CHECK(Tracked::live == base + long(2 * (ra.size() + rb.size())), "%ld objects are alive for %zu entries", Tracked::live - base, ra.size() + rb.size());
    }
    SEQ_CHECK(Tracked::live == base, "%ld objects survive the maps", Tracked::live - base);
}
} // namespace
SEQ_TEST(histories, 3, 4) { run<M1>(3, false, 19); }
SEQ_TEST(histories_transparent, 3, 4) { run<M2>(3, false, 19); }
SEQ_TEST(long_histories, 5, 6) { run<M2>(2, false, 6); }
SEQ_TEST(failing_allocations, 3, 3) { run<M1>(2, true, 19); }
SEQ_TEST(transparent_erase, 0, 0) {
    hashMode = seq::choose(3); M2 m; Model r;
    for (int k = 0; k < 4; ++k) if (seq::flip()) { m.emplace(k, k + 10); r[k] = k + 10; }
    int const k = seq::choose(5);
    auto const n = seq::flip() ? m.erase(Alt{k}) : m.erase(K(k));
    SEQ_CHECK(n == r.erase(k), "erase(equivalent key %d) removes %zu", k, std::size_t(n));
    agree(m, r, 5, "the map");
}
/* Hash functions, equalities and allocators with a state of their own: every constructor takes what it is given, and copies, moves, assignments and swaps pass it on with the entries. */
namespace {
struct SaltedHash { int id = 0; SaltedHash() {} explicit SaltedHash(int i): id(i) {} std::size_t operator()(int k) const { return std::size_t(k % 3 + id * 5); } };
struct SaltedEqual { int id = 0; SaltedEqual() {} explicit SaltedEqual(int i): id(i) {} bool operator()(int a, int b) const { return a == b; } };
long allocated[16];
template <bool Propagate, typename T> struct CountingAllocator {
    using value_type = T; using pointer = T *; using const_pointer = T const *; using reference = T &; using const_reference = T const &;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, Propagate>; using propagate_on_container_move_assignment = std::integral_constant<bool, Propagate>; using propagate_on_container_swap = std::integral_constant<bool, Propagate>;
    template <typename U> struct rebind { using other = CountingAllocator<Propagate, U>; };
    int id = 0;
    CountingAllocator() {}
    explicit CountingAllocator(int i): id(i) {}
    template <typename U> CountingAllocator(CountingAllocator<Propagate, U> const & o): id(o.id) {}
    T * allocate(std::size_t n) { ++allocated[id]; return static_cast<T *>(::operator new(n * sizeof(T))); }
    void deallocate(T * p, std::size_t) { --allocated[id]; ::operator delete(p); }
    CountingAllocator select_on_container_copy_construction() const { return CountingAllocator(Propagate ? id : id + 8); }
    bool operator==(CountingAllocator const & o) const { return id == o.id; }
    bool operator!=(CountingAllocator const & o) const { return id != o.id; }
};
struct State { int hash, equal, alloc; std::map<int, int> entries; };
template <typename M> void sameState(M & m, State const & s, char const * n) {
    M const & c = m;
    SEQ_CHECK(c.hash_function().id == s.hash && c.key_eq().id == s.equal && c.get_allocator().id == s.alloc, "%s: hash %d, equality %d, allocator %d instead of %d, %d, %d", n, c.hash_function().id, c.key_eq().id, c.get_allocator().id, s.hash, s.equal, s.alloc);
    SEQ_CHECK(c.size() == s.entries.size(), "%s: %zu entries instead of %zu", n, c.size(), s.entries.size());
    std::set<int> inBuckets;
    for (std::size_t b = 0; b < c.bucket_count(); ++b) {
        auto j = m.begin(b); auto l = c.cbegin(b);
        for (auto i = c.begin(b); i != c.end(b); ++i, ++j, ++l) { SEQ_CHECK(j != m.end(b) && l != c.cend(b) && &*i == &*j && &*i == &*l, "%s: iterations over bucket %zu differ", n, b); SEQ_CHECK(inBuckets.insert(i->first).second, "%s: key %d is in two buckets", n, i->first); }
        SEQ_CHECK(j == m.end(b) && l == c.cend(b), "%s: iterations over bucket %zu differ", n, b);
    }
    SEQ_CHECK(inBuckets.size() == s.entries.size(), "%s: buckets have %zu entries", n, inBuckets.size());
    for (auto const & e : s.entries) {
        auto const it = c.find(e.first); SEQ_CHECK(it != c.end() && it->second == e.second, "%s: key %d is not found", n, e.first);
        std::size_t const b = c.bucket(e.first); bool in = false; for (auto i = c.begin(b); i != c.end(b); ++i) in = in || i->first == e.first;
        SEQ_CHECK(in && c.bucket(it) == b && c.hash_bucket(SaltedHash(s.hash)(e.first)) == b, "%s: key %d is not in its bucket", n, e.first);
    }
    SEQ_CHECK(c.find(99) == c.end(), "%s: key 99 is found", n);
    float const lf = c.load_factor(); SEQ_CHECK(lf * float(c.bucket_count()) > float(c.size()) - .01f && lf * float(c.bucket_count()) < float(c.size()) + .01f && lf <= c.max_load_factor() + .001f, "%s: load factor %f", n, lf);
    seq::count(5);
}
template <bool P> void stateful() {
    using A = CountingAllocator<P, std::pair<int const, int>>; using M = sharemind::UnorderedMap<int, int, SaltedHash, SaltedEqual, A>;
    for (long & a : allocated) a = 0;
    std::vector<std::pair<int const, int>> const values{{1, 10}, {4, 40}, {1, 11}, {2, 20}}; std::map<int, int> const entries{{1, 10}, {4, 40}, {2, 20}}, none;
    auto construct = [&](int how, int base) -> std::pair<std::unique_ptr<M>, State> {
        SaltedHash const h(base); SaltedEqual const q(base + 1); A const a(base + 2);
        auto const f = values.begin(), l = values.end(); std::initializer_list<std::pair<int const, int>> const il{{1, 10}, {4, 40}, {1, 11}, {2, 20}};
        switch (how) {
        case 0: return {std::unique_ptr<M>(new M), State{0, 0, 0, none}};
        case 1: return {std::unique_ptr<M>(new M(5)), State{0, 0, 0, none}};
        case 2: return {std::unique_ptr<M>(new M(5, h)), State{base, 0, 0, none}};
        case 3: return {std::unique_ptr<M>(new M(5, h, q)), State{base, base + 1, 0, none}};
        case 4: return {std::unique_ptr<M>(new M(5, h, q, a)), State{base, base + 1, base + 2, none}};
        case 5: return {std::unique_ptr<M>(new M(5, a)), State{0, 0, base + 2, none}};
        case 6: return {std::unique_ptr<M>(new M(5, h, a)), State{base, 0, base + 2, none}};
        case 7: return {std::unique_ptr<M>(new M(a)), State{0, 0, base + 2, none}};
        case 8: return {std::unique_ptr<M>(new M(f, l)), State{0, 0, 0, entries}};
        case 9: return {std::unique_ptr<M>(new M(f, l, 5, h, q, a)), State{base, base + 1, base + 2, entries}};
        case 10: return {std::unique_ptr<M>(new M(f, l, 5, a)), State{0, 0, base + 2, entries}};
        case 11: return {std::unique_ptr<M>(new M(f, l, 5, h, a)), State{base, 0, base + 2, entries}};
        case 12: return {std::unique_ptr<M>(new M(il)), State{0, 0, 0, entries}};
        case 13: return {std::unique_ptr<M>(new M(il, 5, h, q, a)), State{base, base + 1, base + 2, entries}};
        case 14: return {std::unique_ptr<M>(new M(il, 5, a)), State{0, 0, base + 2, entries}};
        default: return {std::unique_ptr<M>(new M(il, 5, h, a)), State{base, 0, base + 2, entries}};
        }
    };
    {
        int const how = seq::choose(16); auto x = construct(how, 1); sameState(*x.first, x.second, "constructed map");
        if (how && how != 7 && how != 8 && how != 12) SEQ_CHECK(x.first->bucket_count() >= 5, "constructor %d makes %zu buckets", how, x.first->bucket_count());
        auto y = construct(seq::choose(3) * 4 + 1, 4); M & m = *x.first; M & n = *y.first; State & s = x.second; State & t = y.second;
        switch (seq::choose(11)) {
        case 0: { M c(m); State u = s; u.alloc = P ? s.alloc : s.alloc + 8; sameState(c, u, "copy"); long const before = allocated[u.alloc]; c.emplace(50, 1); SEQ_CHECK(allocated[u.alloc] == before + 1, "allocated elsewhere"); break; }
        case 1: { M c(m, A(7)); State u = s; u.alloc = 7; sameState(c, u, "copy with another allocator"); SEQ_CHECK(allocated[7] == long(u.entries.size()), "copied elsewhere"); break; }
        case 2: { State const u = s; { M c(std::move(m)); sameState(c, u, "moved map"); m = std::move(c); } if (!P) s.alloc = m.get_allocator().id; break; }
        case 3: { State u = s; u.alloc = 7; M c(std::move(m), A(7)); sameState(c, u, "moved map with another allocator"); x.first.reset(); break; }
        case 4: { m = n; int const a = s.alloc; s = t; if (!P) s.alloc = a; long const before = allocated[s.alloc]; m.emplace(50, 1); SEQ_CHECK(allocated[s.alloc] == before + 1, "allocated elsewhere"); s.entries[50] = 1; break; }
        case 5: { m = std::move(n); int const a = s.alloc; s = t; if (!P) s.alloc = a; y.first.reset(); break; }
        case 6: { m.swap(n); std::swap(s, t); if (!P) std::swap(s.alloc, t.alloc); break; }
        case 7: { m = {{2, 21}, {5, 50}}; s.entries = {{2, 21}, {5, 50}}; break; }
        case 8: { m.max_load_factor(4.0f); SEQ_CHECK(m.max_load_factor() == 4.0f, "max_load_factor"); m.rehash(1); for (int i = 10; i < 30; ++i) { m.emplace(i, i); s.entries[i] = i; } M c(m); SEQ_CHECK(c.max_load_factor() == 4.0f, "max_load_factor of a copy"); m.max_load_factor(.25f); m.rehash(0); SEQ_CHECK(m.load_factor() <= .25f, "load factor %f", m.load_factor()); break; }
        case 9: { m.rehash(100); SEQ_CHECK(m.bucket_count() >= 100 && m.bucket_count() <= m.max_bucket_count(), "rehash"); m.reserve(500); std::size_t const b = m.bucket_count(); SEQ_CHECK(float(b) * m.max_load_factor() >= 500, "reserve"); for (int i = 10; i < 30; ++i) { m.emplace(i, i); s.entries[i] = i; } SEQ_CHECK(m.bucket_count() == b, "rehashed although reserved"); break; }
        default: { long const before = allocated[s.alloc]; m.emplace(50, 1); m[51] = 2; m.insert(std::make_pair(52, 3)); m.insert_or_assign(53, 4); SEQ_CHECK(allocated[s.alloc] == before + 4, "allocated elsewhere"); s.entries[50] = 1; s.entries[51] = 2; s.entries[52] = 3; s.entries[53] = 4; m.erase(50); s.entries.erase(50); break; }
        }
        if (x.first) sameState(m, s, "map");
        if (y.first) sameState(n, t, "other map");
    }
    for (long a : allocated) SEQ_CHECK(!a, "%ld entries are not given back to their allocator", a);
}
} // namespace
SEQ_TEST(stateful_parts, 0, 0) { if (seq::flip()) stateful<true>(); else stateful<false>(); }
/* Functions which throw when they are copied. */
namespace {
struct CopyFails {};
int copiesLeft = -1;
struct CopiedHash { CopiedHash() {} CopiedHash(CopiedHash const &) { if (copiesLeft >= 0 && !copiesLeft--) throw CopyFails(); } CopiedHash & operator=(CopiedHash const &) { if (copiesLeft >= 0 && !copiesLeft--) throw CopyFails(); return *this; } std::size_t operator()(int k) const { return std::size_t(k % 2); } };
struct CopiedEqual { CopiedEqual() {} CopiedEqual(CopiedEqual const &) { if (copiesLeft >= 0 && !copiesLeft--) throw CopyFails(); } CopiedEqual & operator=(CopiedEqual const &) { if (copiesLeft >= 0 && !copiesLeft--) throw CopyFails(); return *this; } bool operator()(int a, int b) const { return a == b; } };
}
SEQ_TEST(failing_copies_of_functions, 0, 0) {
    using M = sharemind::UnorderedMap<int, int, CopiedHash, CopiedEqual>;
    copiesLeft = -1;
    M m, n; for (int i = 0; i < 3; ++i) m.emplace(i, i); n.emplace(7, 7); M const & c = m;
    int const o = seq::choose(5); int const left = seq::choose(3); bool failed = false;
    copiesLeft = left;
    try {
        switch (o) {
        case 0: c.hash_function(); break;
        case 1: c.key_eq(); break;
        case 2: { M x(c); copiesLeft = -1; SEQ_CHECK(x.size() == 3 && x.find(1)->second == 1, "copy"); break; }
        case 3: n = c; copiesLeft = -1; SEQ_CHECK(n.size() == 3 && n.find(1)->second == 1, "copy assignment"); break;
        default: { M x{{4, 4}, {5, 5}}; copiesLeft = -1; SEQ_CHECK(x.size() == 2, "list"); break; }
        }
    } catch (CopyFails const &) { failed = true; }
    copiesLeft = -1;
    SEQ_CHECK(m.size() == 3 && m.find(0)->second == 0 && m.find(2)->second == 2, "the copied map changed");
    if (failed && o == 3) SEQ_CHECK(n.size() == 1 && n.find(7) != n.end(), "a failed assignment changed the map");
    SEQ_CHECK(!(o < 2 && left == 0) || failed, "the exception is lost");
}
/* Every pair of small maps, made in every order of insertion and with different numbers of buckets, compares as the sets of their entries do. */
SEQ_TEST(comparison, 0, 0) {
    hashMode = seq::choose(3); static int const orders[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    M1 a(seq::flip() ? 1 : 16), b; Model ra, rb; int const * const order = orders[seq::choose(6)];
    for (int k = 0; k < 3; ++k) if (int const v = seq::choose(3)) { a.emplace(K(k), Tracked(v)); ra.emplace(k, v); }
    int vb[3]; for (int k = 0; k < 3; ++k) vb[k] = seq::choose(3);
    for (int i = 0; i < 3; ++i) if (int const v = vb[order[i]]) { b.emplace(K(order[i]), Tracked(v)); rb.emplace(order[i], v); }
    bool const same = ra == rb; M1 const & ca = a; M1 const & cb = b;
    SEQ_CHECK((ca == cb) == same && (cb == ca) == same && (ca != cb) == !same && (cb != ca) == !same, "maps of %zu and %zu entries compare %s", ra.size(), rb.size(), same ? "different" : "equal");
    SEQ_CHECK(ca == ca && !(cb != cb), "a map differs from itself");
    seq::count(1);
}
/* Many entries: everything above with hundreds of entries in few or many chains. */
namespace {
template <typename M> void many() {
    hashMode = seq::choose(3); static int const sizes[3][2] = {{17, 45}, {17, 90}, {17, 300}}; int const n = sizes[hashMode][seq::choose(2)]; int const way = seq::choose(6); long const base = Tracked::live;
    {
    M a(seq::flip() ? 1 : 128); Model r;
    auto add = [&](int k, int v) { K const key(k); std::pair<typename M::iterator, bool> x(a.end(), false); bool const had = r.count(k); bool assigned = false;
        switch (way) {
        case 0: x = a.emplace(key, Tracked(v)); break; case 1: x = a.insert(typename M::value_type(k, v)); break; case 2: x = a.insert_or_assign(key, Tracked(v)); assigned = true; break; case 3: x = a.insert_or_assign(K(k), Tracked(v)); assigned = true; break;
        case 4: a[key] = Tracked(v); x.first = a.find(key); x.second = !had; assigned = true; break; default: x.first = a.emplace_hint(a.cend(), key, Tracked(v)); x.second = !had; break; }
        if (assigned) r[k] = v; else r.emplace(k, v);
        SEQ_CHECK(x.second == !had && x.first != a.end() && x.first->first.v() == k && x.first->second.v == r[k] && a.size() == r.size(), "way %d: adding key %d as number %zu gives key %d, value %d, %d", way, k, r.size(), x.first->first.v(), x.first->second.v, x.second); };
    for (int k = 0; k < n; ++k) add(k, k + 1);
    agree(a, r, n + 2, "the map");
    for (int k = n; k-- > 0;) add(k, 1000 + k); // again
    agree(a, r, n + 2, "the map");
    M b(a), c; c = a; SEQ_CHECK(b == a && !(b != a) && c == a, "copies differ"); agree(b, r, n + 1, "the copy"); agree(c, r, n + 1, "the assigned map");
    for (int k : {0, n / 2, n - 1}) { auto it = b.find(K(k)); int const v = it->second.v; it->second = Tracked(-5); SEQ_CHECK(b != a && !(a == b), "the value of key %d is not compared", k); it->second = Tracked(v); SEQ_CHECK(a == b, "maps of %d entries differ", n); }
    b.erase(K(n - 1)); SEQ_CHECK(b != a, "sizes are not compared"); b.emplace(K(n + 1), Tracked(1)); SEQ_CHECK(b.size() == a.size() && b != a && !(a == b), "keys are not compared");
    Model const all = r;
    switch (seq::choose(5)) {
    case 0: for (int k = 0; k < n; k += 2) { SEQ_CHECK(a.erase(K(k)) == 1 && a.erase(K(k)) == 0, "erase(%d)", k); r.erase(k); } break;
    case 1: for (int k = n; k-- > 0;) if (k % 3) { auto const it = a.find(K(k)); SEQ_CHECK(it != a.end(), "key %d is lost", k); a.erase(it); r.erase(k); } break;
    case 2: for (auto it = a.cbegin(); it != a.cend();) { int const k = it->first.v(); if (k % 5 == 2) { ++it; continue; } r.erase(k); it = a.erase(it); } break;
    case 3: { auto f = std::next(a.cbegin(), n / 3), l = std::next(a.cbegin(), n - 2); for (auto i = f; i != l; ++i) r.erase(i->first.v()); a.erase(f, l); break; }
    default: a.swap(c); c.clear(); SEQ_CHECK(c.empty() && c.begin() == c.end(), "clear"); break;
    }
    agree(a, r, n + 2, "the map"); a.rehash(0); agree(a, r, n + 2, "the rehashed map");
    for (int k = 0; k < n; ++k) add(k, 2000 + k);
    agree(a, r, n + 2, "the map"); SEQ_CHECK(r.size() == all.size(), "model");
    }
    SEQ_CHECK(Tracked::live == base, "%ld objects survive the map", Tracked::live - base);
    seq::count(1);
}
}
SEQ_TEST(many_entries, 0, 0) { if (seq::flip()) many<M1>(); else many<M2>(); }
/* Keys and values which can only be moved, and which are moved once only; and values whose assignments are told apart. */
namespace {
struct Sole { int v; bool gone = false; explicit Sole(int i = 0): v(i) {} Sole(Sole && o) noexcept: v(o.v), gone(o.gone) { o.gone = true; } Sole & operator=(Sole && o) noexcept { v = o.v; gone = o.gone; o.gone = true; return *this; }
    Sole(Sole const &) = delete; Sole & operator=(Sole const &) = delete; bool operator==(Sole const & o) const { return v == o.v && !gone && !o.gone; } };
struct SoleHash { std::size_t operator()(Sole const & s) const { return hashOf(s.v); } std::size_t operator()(int k) const { return hashOf(k); } };
struct Counting { static int copies, moves, assigns; int v; Counting(int i = 0): v(i) {} Counting(Counting const & o): v(o.v) { ++copies; } Counting(Counting && o) noexcept: v(o.v) { ++moves; } Counting & operator=(Counting const & o) { v = o.v; ++assigns; return *this; } Counting & operator=(int i) { v = i; assigns += 100; return *this; } };
int Counting::copies, Counting::moves, Counting::assigns;
}
SEQ_TEST(moved_only, 0, 0) {
    hashMode = seq::choose(3); int const k = seq::choose(3), had = seq::choose(2);
    { using M = sharemind::UnorderedMap<int, Sole, SoleHash>; M m; if (had) m.emplace(k, Sole(1)); m.emplace(3, Sole(3)); int const ck = k; Sole s(2); int expected = had ? 1 : 2; bool consumed = !had; M::iterator it = m.end();
      int const o = seq::choose(8);
      switch (o) {
      case 0: it = m.insert_or_assign(ck, std::move(s)).first; consumed = true; break;
      case 1: it = m.insert_or_assign(int(k), std::move(s)).first; consumed = true; break;
      case 2: it = m.insert_or_assign(m.cend(), ck, std::move(s)); consumed = true; break;
      case 3: it = m.insert_or_assign(m.cend(), int(k), std::move(s)); consumed = true; break;
      case 4: it = m.emplace(ck, std::move(s)).first; consumed = true; break; // as the standard's maps may, the element may be made first
      case 5: it = m.emplace_hint(m.cend(), ck, std::move(s)); consumed = true; break;
      case 6: it = m.insert(std::make_pair(k, std::move(s))).first; consumed = true; break;
      default: m[ck] = std::move(s); it = m.find(k); consumed = true; break; }
      if (o < 4 || o == 7) expected = 2;
      SEQ_CHECK(it != m.end() && it->first == k && !it->second.gone && it->second.v == expected && (s.gone == consumed || (had && (o == 4 || o == 5))), "operation %d stores %d instead of %d", o, it->second.v, expected);
      M n(std::move(m)); SEQ_CHECK(n.size() == 2 && n.at(k).v == expected && !n.at(k).gone && n.at(3).v == 3, "moved map"); M p; p.emplace(9, Sole(9)); p = std::move(n); SEQ_CHECK(p.size() == 2 && !p.contains(9) && p.at(k).v == expected, "move-assigned map"); p.swap(n); SEQ_CHECK(n.size() == 2 && n.at(3).v == 3, "swapped map"); n.erase(k); SEQ_CHECK(n.size() == 1 && !n.contains(k), "erase"); }
    { using M = sharemind::UnorderedMap<Sole, int, SoleHash>; M m; if (had) m.emplace(Sole(k), 1); m.emplace(Sole(3), 3); Sole s(k); int const o = seq::choose(7), keeps = had ? 1 : 2; int expected = 2; M::iterator it = m.end();
      switch (o) {
      case 0: it = m.insert_or_assign(std::move(s), 2).first; break;
      case 1: it = m.insert_or_assign(m.cend(), std::move(s), 2); break;
      case 2: m[std::move(s)] = 2; it = m.find(Sole(k)); break;
      case 3: it = m.emplace(std::move(s), 2).first; expected = keeps; break;
      case 4: it = m.insert(std::make_pair(std::move(s), 2)).first; expected = keeps; break;
      case 5: it = m.emplace_hint(m.cend(), std::move(s), 2); expected = keeps; break;
      default: it = m.emplace(std::piecewise_construct, std::forward_as_tuple(std::move(s)), std::forward_as_tuple(2)).first; expected = keeps; break; }
      SEQ_CHECK(it != m.end() && it->first.v == k && !it->first.gone && it->second == expected && m.size() == 2 && m.find(Sole(3))->second == 3, "operation %d stores %d instead of %d", o, it->second, expected);
      M n(std::move(m)); SEQ_CHECK(n.size() == 2 && n.at(Sole(k)) == expected, "moved map"); }
    { using M = sharemind::UnorderedMap<int, Counting, SoleHash>; M m; m.emplace(k, 1); Counting::copies = Counting::moves = Counting::assigns = 0; auto const p = &m.at(k); Counting const c(7);
      switch (seq::choose(3)) { case 0: m.insert_or_assign(k, c); SEQ_CHECK(Counting::assigns == 1 && Counting::copies == 0, "insert_or_assign of an existing key makes %d copies and %d assignments", Counting::copies, Counting::assigns); break;
      case 1: m.insert_or_assign(k, 7); SEQ_CHECK(Counting::assigns == 100 && Counting::copies == 0, "insert_or_assign doesn't assign what it is given"); break;
      default: m.insert_or_assign(k + 4, c); SEQ_CHECK(Counting::assigns == 0 && Counting::copies == 1, "insert_or_assign of a new key makes %d copies", Counting::copies); m.insert_or_assign(k, 7); break; }
      SEQ_CHECK(m.at(k).v == 7 && p == &m.at(k), "the assigned value is elsewhere"); }
    seq::count(3);
}
