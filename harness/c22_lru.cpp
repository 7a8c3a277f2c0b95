// C22: every history of an LRU cache next to a reference model, with and without failing allocations.
#include "seq.h"
#include <memory>
#include <new>
#include <string>
#include <vector>
#include <sharemind/LRU.h>

namespace {
using seq::Tracked;
using P = std::shared_ptr<Tracked>;

struct Entry { int k; int v; bool strong; };
template <typename KeyOf> void run(bool faults) {
    int const limit = 1 + seq::choose(3);
    int const keys = limit + 1 > 3 ? 4 : 3;
    {
    sharemind::LRU<decltype(KeyOf::key(0)), Tracked> lru(static_cast<std::size_t>(limit));
    std::vector<Entry> m; // most recently used first
    P held[2]; int next = 1;
    auto alive = [&](int v) {
        for (auto const & e : m) if (e.strong && e.v == v) return true;
        return (held[0] && held[0]->v == v) || (held[1] && held[1]->v == v); };
    auto hold = [&](P p) { held[1] = std::move(held[0]); held[0] = std::move(p); };
    auto trim = [&] { int n = 0; for (auto & e : m) if (e.strong && ++n > limit) e.strong = false; };
    auto find = [&](int k) { for (std::size_t i = 0; i < m.size(); ++i) if (m[i].k == k) return int(i); return -1; };
    auto front = [&](Entry e) { e.strong = true; m.insert(m.begin(), e); trim(); };
    for (int s = 0; s < seq::depth(); ++s) {
        int const nOps = 2 + 3 * keys;
        int o = seq::choose(nOps + 1);
        if (o < keys) { // insert a fresh value
            int const v = next++;
            P p;
            if (seq::flip()) p = std::make_shared<Tracked>(v); else p.reset(new Tracked(v));
            seq::op("insert(%d, value %d)", o, v);
            bool ok = true;
            if (faults) { auto const key = KeyOf::key(o); seq::armAllocFaults(1);
                try { lru.insert(std::move(key), std::move(p)); } catch (std::bad_alloc const &) { ok = false; }
                seq::disarmAllocFaults(); p.reset(); }
            else lru.insert(KeyOf::key(o), std::move(p));
            if (ok) { int i = find(o); if (i >= 0) m.erase(m.begin() + i); front({o, v, true}); }
        } else if (o < 3 * keys) {
            bool const keep = o < 2 * keys; int const k = o % keys;
            int const i = find(k);
            P r = lru.get(KeyOf::key(k));
            seq::op("get(%d)%s -> %d", k, keep ? ", kept" : "", r ? r->v : -1);
            bool const expect = i >= 0 && (m[i].strong || alive(m[i].v));
            SEQ_CHECK(bool(r) == expect, "get(%d) finds %s although the entry is %s", k, r ? "a value" : "nothing", expect ? "in use" : "gone");
            if (r) { SEQ_CHECK(r->v == m[i].v, "get(%d) gives value %d instead of the last one stored, %d", k, r->v, m[i].v);
                Entry e = m[i]; if (keep) hold(r); m.erase(m.begin() + i); front(e); }
            else if (i >= 0) m.erase(m.begin() + i);
        } else if (o == 3 * keys) { seq::op("drop a held value"); if (held[1]) held[1].reset(); else held[0].reset(); }
        else if (o == 3 * keys + 1) { seq::op("clear()"); lru.clear(); m.clear(); }
        else { // store a value the user also holds, under some key
            if (!held[0]) return; // nothing held: the same as a shorter history
            int const k = held[0]->v % keys; seq::op("insert(%d, held value %d)", k, held[0]->v);
            int const v = held[0]->v;
            lru.insert(KeyOf::key(k), held[0]);
            int i = find(k); if (i >= 0) m.erase(m.begin() + i); front({k, v, true});
        }
        // what lives is exactly what is retained or held
        std::vector<int> vs; auto add = [&](int v) { for (int x : vs) if (x == v) return; vs.push_back(v); };
        for (auto const & e : m) if (e.strong) add(e.v);
        for (auto const & h : held) if (h) add(h->v);
        SEQ_CHECK(Tracked::live == long(vs.size()), "%ld values are alive instead of %zu", Tracked::live, vs.size());
        std::uint64_t h = limit; for (auto const & e : m) h = seq::mix(h, e.k * 2 + e.strong);
        h = seq::mix(h, bool(held[0]) + 2 * bool(held[1])); seq::state(h);
    }
    // Observe all what is left:
    for (int k = 0; k < keys; ++k) {
        int const i = find(k); bool const expect = i >= 0 && (m[i].strong || alive(m[i].v));
        P r = lru.get(KeyOf::key(k));
        SEQ_CHECK(bool(r) == expect && (!r || r->v == m[i].v), "at the end: get(%d) gives %d, expected %d", k, r ? r->v : -1, expect ? m[i].v : -1);
        if (r) { Entry e = m[i]; m.erase(m.begin() + i); front(e); }
    }
    }
    SEQ_CHECK(Tracked::live == 0, "%ld values survive the cache", Tracked::live);
}
struct IntKey { static int key(int k) { return k * 7; } };
struct StrKey { static std::string key(int k) { return std::string("a key too long to be stored inline") + char('a' + k); } };
} // namespace

/* Longer histories of few operations: values are held from their insertion until dropped. */
namespace {
void narrow() {
    int const limit = 1 + seq::choose(2);
    {
    sharemind::LRU<int, Tracked> lru(static_cast<std::size_t>(limit)); std::vector<Entry> m; P held; int next = 1;
    auto find = [&](int k) { for (std::size_t i = 0; i < m.size(); ++i) if (m[i].k == k) return int(i); return -1; };
    auto front = [&](Entry e) { e.strong = true; m.insert(m.begin(), e); int n = 0; for (auto & x : m) if (x.strong && ++n > limit) x.strong = false; };
    auto alive = [&](int v) { for (auto const & e : m) if (e.strong && e.v == v) return true; return held && held->v == v; };
    auto get = [&](int k, char const * when) { int const i = find(k); bool const expect = i >= 0 && alive(m[i].v); P r = lru.get(k);
        SEQ_CHECK(bool(r) == expect && (!r || r->v == m[i].v), "%sget(%d) gives %d, expected %d", when, k, r ? r->v : -1, expect ? m[i].v : -1);
        if (i >= 0) { Entry e = m[i]; m.erase(m.begin() + i); if (r) front(e); } };
    int const keys = limit + 1;
    for (int s = 0; s < seq::depth(); ++s) {
        int const o = seq::choose(3 * keys + 2);
        if (o == 3 * keys + 1) { seq::op("clear()"); lru.clear(); m.clear(); }
        else if (o < 2 * keys) { int const k = o % keys, v = next++; auto p = std::make_shared<Tracked>(v); if (o < keys) held = p; seq::op("insert(%d, value %d)%s", k, v, o < keys ? ", held" : ""); lru.insert(k, std::move(p)); int const i = find(k); if (i >= 0) m.erase(m.begin() + i); front({k, v, true}); }
        else if (o < 3 * keys) { seq::op("get(%d)", o % keys); get(o % keys, ""); }
        else { if (!held) return; seq::op("drop the held value"); held.reset(); }
    }
    for (int k = 0; k < keys; ++k) get(k, "at the end: ");
    }
    SEQ_CHECK(Tracked::live == 0, "%ld values survive the cache", Tracked::live);
}
} // namespace
/* What remains of entries whose values are gone does not pile up. */
namespace {
struct CountedKey { static long live; int k; CountedKey(int v) : k(v) { ++live; } CountedKey(CountedKey const & o) noexcept : k(o.k) { ++live; } ~CountedKey() { --live; } bool operator==(CountedKey const & o) const { return k == o.k; } };
long CountedKey::live = 0;
}
namespace std { template <> struct hash<CountedKey> { size_t operator()(CountedKey const & k) const { return size_t(k.k); } }; }
SEQ_TEST(no_piling_up, 5, 7) {
    int const limit = 1 + seq::choose(2);
    {
    sharemind::LRU<CountedKey, Tracked> lru(static_cast<std::size_t>(limit)); int next = 0, ops[8]; P held;
    for (int i = 0; i < seq::depth(); ++i) ops[i] = seq::choose(3);
    for (int round = 0; round < 12; ++round)
        for (int i = 0; i < seq::depth(); ++i) {
            auto p = std::make_shared<Tracked>(next);
            if (ops[i] == 0) lru.insert(CountedKey(next), std::move(p));
            else if (ops[i] == 1) { held = p; lru.insert(CountedKey(next), std::move(p)); }
            else { lru.insert(CountedKey(next), std::move(p)); if (next) lru.get(CountedKey(next - 1)); }
            ++next;
        }
    // each entry keeps its key at most a few times; at most limit + 1 values are in use, and a few may have been let go just now
    SEQ_CHECK(CountedKey::live <= 4 * (limit + 4), "%ld keys are kept for %d values in use", CountedKey::live, limit + 1);
    }
    SEQ_CHECK(CountedKey::live == 0, "keys survive the cache");
}
SEQ_TEST(narrow, 6, 8) { narrow(); }

/* Larger caches: histories of operations on many keys at once, everything observed against the reference model. */
SEQ_TEST(many_keys, 3, 4) {
    static int const limits[] = {1, 5, 9, 40}; int const limit = limits[seq::choose(4)], keys = 2 * limit + 12;
    {
    sharemind::LRU<int, Tracked> lru(static_cast<std::size_t>(limit)); std::vector<Entry> m; std::vector<P> held(keys); int next = 1;
    auto find = [&](int k) { for (std::size_t i = 0; i < m.size(); ++i) if (m[i].k == k) return int(i); return -1; };
    auto front = [&](Entry e) { e.strong = true; m.insert(m.begin(), e); int n = 0; for (auto & x : m) if (x.strong && ++n > limit) x.strong = false; };
    auto alive = [&](int v) { for (auto const & e : m) if (e.strong && e.v == v) return true; for (auto const & h : held) if (h && h->v == v) return true; return false; };
    auto get = [&](int k, char const * when) { int const i = find(k); bool const expect = i >= 0 && alive(m[i].v); P r = lru.get(k);
        SEQ_CHECK(bool(r) == expect && (!r || r->v == m[i].v), "limit %d: %sget(%d) gives %d, expected %d", limit, when, k, r ? r->v : -1, expect ? m[i].v : -1);
        if (i >= 0) { Entry e = m[i]; m.erase(m.begin() + i); if (r) front(e); } };
    auto insert = [&](int k, bool hold) { int const v = next++; auto p = std::make_shared<Tracked>(v); if (hold) held[k] = p;
        lru.insert(k, std::move(p)); int const i = find(k); if (i >= 0) m.erase(m.begin() + i); front({k, v, true}); };
    for (int s = 0; s < seq::depth(); ++s) {
        int const o = seq::choose(9);
        switch (o) {
        case 0: seq::op("insert every key, values held"); for (int k = 0; k < keys; ++k) insert(k, true); break;
        case 1: seq::op("insert every key, backwards"); for (int k = keys; k-- > 0;) insert(k, false); break;
        case 2: seq::op("insert every key, every other held"); for (int k = 0; k < keys; ++k) insert(k, k % 2); break;
        case 3: seq::op("get every key"); for (int k = 0; k < keys; ++k) get(k, ""); break;
        case 4: seq::op("get every third key, backwards"); for (int k = keys; k-- > 0;) if (k % 3 == 0) get(k, ""); break;
        case 5: seq::op("let go of all the values"); for (auto & h : held) h.reset(); break;
        case 6: seq::op("let go of the second half of the values"); for (int k = keys / 2; k < keys; ++k) held[k].reset(); break;
        case 7: seq::op("insert the last key, held"); insert(keys - 1, true); break;
        default: seq::op("clear()"); lru.clear(); m.clear(); break;
        }
        std::size_t n = 0; std::vector<bool> seen(next);
        auto add = [&](int v) { if (!seen[v]) { seen[v] = true; ++n; } };
        for (auto const & e : m) if (e.strong) add(e.v);
        for (auto const & h : held) if (h) add(h->v);
        SEQ_CHECK(Tracked::live == long(n), "limit %d: %ld values are alive instead of %zu", limit, Tracked::live, n);
        seq::state(seq::mix(seq::mix(limit, n), o));
    }
    for (int k = 0; k < keys; ++k) get(k, "at the end: ");
    held.clear();
    }
    SEQ_CHECK(Tracked::live == 0, "%ld values survive the cache", Tracked::live);
}

SEQ_TEST(int_keys, 5, 7) { run<IntKey>(false); }
SEQ_TEST(string_keys, 4, 5) { run<StrKey>(false); }
SEQ_TEST(failing_allocations, 3, 4) { run<StrKey>(true); }
