// C23: every history of an IntrusiveUnorderedSharedItemSet over a few items, some equal.
#include "seq.h"
#include <functional>
#include <memory>
#include <new>
#include <set>
#include <vector>
#include <sharemind/IntrusiveUnorderedSharedItemSet.h>

namespace {
struct Item: sharemind::IntrusiveUnorderedSharedItemSetItemBase<Item> {
    int const key; int const id; seq::Tracked t;
    Item(int k, int i) : key(k), id(i), t(i) {}
};
bool operator==(Item const & a, Item const & b) noexcept { (void) (a.t == b.t); return a.key == b.key; }
std::size_t hash_value(Item const & i) noexcept { i.t.chk("hash"); return std::size_t(i.key) * 3u; }
using Set = sharemind::IntrusiveUnorderedSharedItemSet<Item>;

void run(int nItems) {
    static std::size_t const buckets[] = {1, 2, 200};
    {
    auto const nb = buckets[seq::choose(3)];
    auto set = std::make_unique<Set>(nb);
    std::vector<std::shared_ptr<Item>> user(nItems);
    std::vector<std::weak_ptr<Item>> weak(nItems);
    std::vector<int> inSet(nItems, 0);
    auto keyOf = [](int i) { return i / 2; }; // items 0 and 1 are equal, 2 and 3 are
    auto holder = [&](int key) { for (int i = 0; i < nItems; ++i) if (inSet[i] && keyOf(i) == key) return i; return -1; };
    auto hasher = [](int k) { return std::size_t(k) * 3u; };
    auto eq = [](int k, Item const & i) { return k == i.key; };
    struct Eq { bool operator()(int k, Item const & i) const { return k == i.key; } bool operator()(Item const & i, int k) const { return k == i.key; } } eqBoth; (void) eq;
    for (int s = 0; s < seq::depth(); ++s) {
        int const i = seq::choose(nItems); int const k = keyOf(i);
        switch (seq::choose(7)) {
        case 0: { // insert
            if (!user[i] && weak[i].lock()) user[i] = weak[i].lock();
            if (!user[i]) { user[i] = std::make_shared<Item>(k, i); weak[i] = user[i]; }
            int const h = holder(k);
            auto const r = set->insert(user[i]);
            seq::op("insert item %d -> %s", i, r.second ? "inserted" : "refused");
            SEQ_CHECK(r.second == (h < 0), "item %d was %s", i, r.second ? "inserted twice" : "refused without a duplicate");
            SEQ_CHECK(r.first->id == (h < 0 ? i : h), "insertion of %d refers to item %d", i, r.first->id);
            if (r.second) inSet[i] = 1;
            break; }
        case 1: seq::op("drop the reference to item %d", i); user[i].reset(); break;
        case 2: { // erase by iterator
            Set const & cs = *set;
            Item * const f = set->find(k, hasher, eqBoth); Item const * const cf = cs.find(k, hasher, eqBoth);
            int const h = holder(k);
            SEQ_CHECK(f == cf && (f ? f->id : -1) == h, "find(%d) gives item %d instead of %d", k, f ? f->id : -1, h);
            if (!f) return;
            seq::op("erase the item of key %d by iterator", k);
            set->erase(set->iteratorTo(*f)); inSet[h] = 0; break; }
        case 3: { // erase by reference
            if (!user[i]) return;
            int const h = holder(k);
            auto const n = set->erase(*user[i]); seq::op("erase by reference to item %d -> %zu", i, n);
            SEQ_CHECK(n == (h >= 0), "erased %zu items", n);
            if (h >= 0) inSet[h] = 0;
            break; }
        case 4: { // take by reference
            Item * const f = set->find(k, hasher, eqBoth); if (!f) return;
            int const h = holder(k);
            auto p = set->take(*f); seq::op("take item %d by reference", h);
            SEQ_CHECK(p.get() == f && f->id == h, "took another item");
            inSet[h] = 0; if (seq::flip()) user[h] = p; break; }
        case 5: { // take by iterator
            if (inSet[i] == 0) return;
            auto it = set->begin(); while (it != set->end() && it->id != i) ++it;
            SEQ_CHECK(it != set->end(), "item %d is not iterated over", i);
            SEQ_CHECK(Set::retrieveSharedPtr(it).get() == &*it && Set::retrieveSharedPtr(*it).get() == &*it, "wrong shared pointer of item %d", i);
            auto p = set->take(it); seq::op("take item %d by iterator", i);
            SEQ_CHECK(p && p->id == i, "took another item"); inSet[i] = 0; break; }
        case 6: seq::op("destroy the set"); set.reset(); set = std::make_unique<Set>(nb); inSet.assign(nItems, 0); break;
        }
        // agreement
        std::set<int> ids; for (auto const & x : *set) { x.t.chk("iteration"); SEQ_CHECK(ids.insert(x.id).second, "item %d is iterated over twice", x.id); }
        Set const & cset = *set; auto ci = cset.begin(); auto cci = set->cbegin(); std::size_t seen = 0;
        for (auto it = set->begin(); it != set->end(); ++it, ++ci, ++cci, ++seen) SEQ_CHECK(ci != cset.end() && &*ci == &*it && cci != set->cend() && &*cci == &*it && &*cset.iteratorTo(*it) == &*it, "iteration over the constant set differs");
        SEQ_CHECK(ci == cset.end() && cci == set->cend() && seen == ids.size(), "iteration over the constant set goes on");
        std::size_t n = 0;
        for (int j = 0; j < nItems; ++j) {
            n += inSet[j];
            SEQ_CHECK(ids.count(j) == std::size_t(inSet[j]), "item %d is %s the set", j, inSet[j] ? "missing from" : "still in");
            bool const live = !weak[j].expired();
            SEQ_CHECK(live == (inSet[j] || user[j]), "item %d is %s", j, live ? "kept alive by nothing" : "gone although in use");
            long const refs = live ? weak[j].use_count() : 0;
            SEQ_CHECK(refs == inSet[j] + bool(user[j]), "item %d has %ld references", j, refs);
        }
        SEQ_CHECK(set->size() == n && set->empty() == (n == 0), "size %zu, expected %zu", set->size(), n);
        std::uint64_t h = nb; for (int j = 0; j < nItems; ++j) h = seq::mix(h, inSet[j] * 2 + bool(user[j])); seq::state(h);
    }
    }
    SEQ_CHECK(seq::Tracked::live == 0, "%ld items survive", seq::Tracked::live);
}
} // namespace
SEQ_TEST(two_pairs, 4, 5) { run(4); }
SEQ_TEST(one_pair, 6, 7) { run(2); }
SEQ_TEST(pair_and_single, 5, 6) { run(3); }
/* Many items, few or many buckets: each kept once, found, iterated over, handed back. */
SEQ_TEST(large, 0, 0) {
    static std::size_t const buckets[] = {1, 2, 7, 64, 200, 1000}; static int const counts[] = {60, 201, 700};
    auto const nb = seq::choose(7); int const n = counts[seq::choose(3)], order = seq::choose(3), how = seq::choose(4);
    {
    std::unique_ptr<Set> set = nb == 6 ? std::make_unique<Set>() : std::make_unique<Set>(buckets[nb]);
    auto hasher = [](int k) { return std::size_t(k) * 3u; }; struct Eq { bool operator()(int k, Item const & i) const { return k == i.key; } bool operator()(Item const & i, int k) const { return k == i.key; } } eq;
    auto at = [&](int i) { return order == 0 ? i : order == 1 ? n - 1 - i : int((std::int64_t(i) * 37 + 5) % n); };
    std::vector<std::weak_ptr<Item>> w(n); std::vector<bool> in(n, true);
    for (int i = 0; i < n; ++i) { int const k = at(i); if (in[k] && !w[k].expired()) continue; auto p = std::make_shared<Item>(k, k); w[k] = p; auto const r = set->insert(std::move(p)); SEQ_CHECK(r.second && r.first->id == k, "item %d refused", k); }
    std::size_t left = 0; for (int k = 0; k < n; ++k) { in[k] = !w[k].expired(); left += in[k]; if (!in[k]) continue; auto dup = std::make_shared<Item>(k, n + k); auto const r = set->insert(dup); SEQ_CHECK(!r.second && r.first->id == k && dup.use_count() == 1, "duplicate of item %d kept", k); }
    SEQ_CHECK(left == std::size_t(n), "%zu of %d items", left, n);
    seq::op("%d items in the set", n);
    auto all = [&] {
        Set const & c = *set; SEQ_CHECK(c.size() == left && c.empty() == !left, "size %zu, expected %zu", c.size(), left); std::vector<int> seen(n, 0); for (auto const & x : c) { SEQ_CHECK(x.id >= 0 && x.id < n && !seen[x.id]++, "item iterated over twice"); x.t.chk("iteration"); }
        for (int k = 0; k < n; ++k) { SEQ_CHECK(seen[k] == int(in[k]) && w[k].expired() == !in[k], "item %d is %s the set", k, in[k] ? "missing from" : "still in"); if (in[k]) SEQ_CHECK(w[k].use_count() == 1, "item %d has %ld references", k, w[k].use_count()); Item const * f = c.find(k, hasher, eq); SEQ_CHECK((f ? f->id : -1) == (in[k] ? k : -1), "find(%d)", k); }
        SEQ_CHECK(!c.find(n, hasher, eq) && !c.find(-1, hasher, eq), "found what is not there"); seq::count(1);
    };
    all();
    for (int i = 0; i < n; i += 2 + i % 3) {
        int const k = at(i); if (!in[k]) continue; Item * f = set->find(k, hasher, eq); SEQ_CHECK(f, "item %d not found", k);
        switch (how) { case 0: set->erase(set->iteratorTo(*f)); break; case 1: { Item probe(k, -2); SEQ_CHECK(set->erase(probe) == 1 && set->erase(probe) == 0, "erase"); break; } case 2: { auto p = set->take(*f); SEQ_CHECK(p.get() == f && p.use_count() == 1 && p->id == k, "take"); break; } case 3: { auto p = set->take(set->iteratorTo(*f)); SEQ_CHECK(p.get() == f && p.use_count() == 1 && p->id == k, "take"); break; } }
        in[k] = false; --left;
    }
    all();
    for (int k = 0; k < n; k += 5) if (!in[k]) { auto p = std::make_shared<Item>(k, k); w[k] = p; SEQ_CHECK(set->insert(std::move(p)).second, "item %d refused", k); in[k] = true; ++left; }
    all(); seq::state(seq::mix(n, nb * 16 + order * 4 + how));
    }
    SEQ_CHECK(seq::Tracked::live == 0, "%ld items survive", seq::Tracked::live);
}
