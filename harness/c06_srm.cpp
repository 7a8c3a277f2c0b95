// C06: SharedResourceMap under every interleaving, and in every history.
#include "mc.h"
#include <memory>
#include <new>
#include <thread>
#include <vector>
#include <sharemind/SharedResourceMap.h>

namespace {
struct Res {
    int key; int token; 
    explicit Res(int k = 0) : key(k), token(4711) {
        long const n = mc::ghostAdd(k, 1);
        MC_CHECK(n == 1, "%ld live resources for key %d", n, k);
        mc::ghostAdd(10 + k, 1);
    }
    ~Res() { MC_CHECK(token == 4711, "resource destroyed twice"); token = 0; mc::ghostAdd(key, -1); }
    void use(int k) const { MC_CHECK(token == 4711 && key == k, "handle to a dead or wrong resource"); }
};
using Map = sharemind::SharedResourceMap<int, Res>;
auto const mk = [](int k) { return std::make_shared<Res>(k); };
struct CtorErr {};
void endCheck() { for (int k = 0; k < 4; ++k) MC_CHECK(mc::ghostGet(k) == 0, "resource of key %d leaked", k); }
void getUse(Map & m, int k) { auto p = m.getResource(k, mk); p->use(k); }
} // namespace

MC_SCENARIO(two_threads, 5, 8, 0) {
    {
        Map m;
        std::thread a([&] { getUse(m, 1); getUse(m, 1); });
        getUse(m, 1); getUse(m, 1);
        a.join();
        MC_CHECK(m.empty() && m.size() == 0, "not empty: %zu", m.size());
    }
    endCheck();
}
MC_SCENARIO(three_threads, 4, 7, 0) {
    {
        Map m;
        std::thread a([&] { getUse(m, 1); });
        std::thread b([&] { getUse(m, 1); });
        getUse(m, 1); getUse(m, 1);
        a.join(); b.join();
        MC_CHECK(m.empty() && m.size() == 0, "not empty: %zu", m.size());
    }
    endCheck();
}
MC_SCENARIO(same_resource, 5, 8, 0) {
    {
        Map m;
        auto p = m.getResource(1, mk);
        std::thread a([&] { auto q = m.getResource(1, mk); MC_CHECK(q == p, "different resources for one key"); });
        auto q = m.getResource(1, mk); MC_CHECK(q == p, "different resources for one key");
        a.join();
        MC_CHECK(m.size() == 1, "size %zu", m.size());
        MC_CHECK(mc::ghostGet(11) == 1, "constructed %ld times", mc::ghostGet(11));
        q.reset(); p.reset();
        MC_CHECK(m.empty(), "not empty");
        getUse(m, 1);
        MC_CHECK(mc::ghostGet(11) == 2, "not recreated");
    }
    endCheck();
}
MC_SCENARIO(two_keys, 4, 6, 0) {
    {
        Map m;
        std::thread a([&] { auto p = m.getResource(1, mk); auto q = m.getResource(2, mk); p->use(1); q->use(2); });
        { auto q = m.getResource(2, mk); auto p = m.getResource(1, mk); p->use(1); q->use(2); }
        a.join();
        MC_CHECK(m.empty(), "not empty");
    }
    endCheck();
}
/* Handles given to another thread, which drops them. */
MC_SCENARIO(cross_release, 5, 8, 0) {
    {
        Map m;
        auto p = m.getResource(1, mk);
        std::thread a([q = p]() mutable { q->use(1); q.reset(); });
        p.reset();
        getUse(m, 1);
        a.join();
        MC_CHECK(m.empty(), "not empty");
    }
    endCheck();
}
/* The map goes away before the last handle. */
MC_SCENARIO(map_dies_first, 5, 8, 0) {
    {
        std::unique_ptr<Map> m(new Map);
        auto p = m->getResource(1, mk);
        auto r = m->getResource(2, mk);
        std::thread a([q = std::move(p)]() mutable { q->use(1); q.reset(); });
        m.reset();
        r->use(2);
        r.reset();
        a.join();
    }
    endCheck();
}
/* Visiting while handles are released and acquired. */
MC_SCENARIO(visit, 5, 8, 0) {
    {
        Map m;
        auto p = m.getResource(1, mk);
        std::thread a([&] { p->use(1); p.reset(); });
        int n = 0;
        m.forEach([&](int k, std::shared_ptr<Res> r) { ++n; MC_CHECK(k == 1, "key"); r->use(1); });
        MC_CHECK(n <= 1, "visited %d entries", n);
        a.join();
        MC_CHECK(m.empty(), "not empty");
        m.forEach([&](int, std::shared_ptr<Res>) { mc::fail("visited an entry of an empty map"); });
    }
    endCheck();
}
/* The entries are counted while they come and go. */
MC_SCENARIO(counted, 4, 7, 0) {
    {
        Map m;
        auto p = m.getResource(1, mk);
        std::thread a([&] { auto q = m.getResource(2, mk); q->use(2); q.reset(); });
        std::size_t const n = m.size(); MC_CHECK(n == 1 || n == 2, "size %zu", n);
        MC_CHECK(!m.empty(), "empty while an entry is held");
        m.forEach([&](int k, std::shared_ptr<Res> r) { r->use(k); });
        a.join();
        MC_CHECK(m.size() == 1, "size %zu", m.size());
    }
    endCheck();
}
MC_SCENARIO(counted_empty, 5, 8, 0) {
    {
        Map m;
        std::thread a([&] { getUse(m, 1); });
        bool const e = m.empty(); std::size_t const n = m.size(); MC_CHECK(n <= 1, "size %zu", n);
        mc::outcome(e * 2 + n);
        a.join();
        MC_CHECK(m.empty() && m.size() == 0, "not empty");
    }
    endCheck();
}
MC_SCENARIO(visit_two, 4, 6, 0) {
    {
        Map m;
        auto p = m.getResource(1, mk);
        auto q = m.getResource(2, mk);
        std::thread a([&] { p.reset(); });
        int mask = 0; std::shared_ptr<Res> keep;
        m.forEach([&](int k, std::shared_ptr<Res> r) { MC_CHECK(!(mask & 1 << k), "visited twice"); mask |= 1 << k; r->use(k); if (k == 1) keep = std::move(r); });
        MC_CHECK(mask & 4, "held entry not visited");
        if (keep) keep->use(1);
        keep.reset();
        a.join();
        MC_CHECK(m.size() == 1, "size");
        q.reset();
        MC_CHECK(m.empty(), "not empty");
    }
    endCheck();
}
MC_SCENARIO(wait_for_empty, 5, 8, mc::SPURIOUS) {
    {
        Map m;
        auto p = m.getResource(1, mk);
        auto q = m.getResource(2, mk);
        std::thread a([&] { p.reset(); });
        std::thread b([&] { q.reset(); });
        m.waitForEmpty();
        MC_CHECK(m.empty(), "not empty after waitForEmpty");
        MC_CHECK(mc::ghostGet(1) == 0 && mc::ghostGet(2) == 0, "resource alive after waitForEmpty");
        a.join(); b.join();
    }
    endCheck();
}
/* All of the threads which wait are woken up. */
MC_SCENARIO(two_wait_for_empty, 3, 5, 0) {
    {
        Map m;
        auto p = m.getResource(1, mk);
        std::thread a([&] { m.waitForEmpty(); });
        std::thread b([&] { m.waitForEmpty(); });
        p.reset();
        a.join(); b.join();
        MC_CHECK(m.empty(), "not empty after waitForEmpty");
    }
    endCheck();
}
MC_SCENARIO(failing_constructor, 5, 8, 0) {
    {
        Map m;
        auto failing = [](int) -> std::shared_ptr<Res> { throw CtorErr(); };
        std::thread a([&] { getUse(m, 1); });
        bool thrown = false;
        try { auto p = m.getResource(1, failing); p->use(1); } catch (CtorErr const &) { thrown = true; }
        a.join();
        mc::outcome(thrown);
        MC_CHECK(m.empty(), "entry left behind");
        getUse(m, 1);
        MC_CHECK(m.empty(), "entry left behind");
    }
    endCheck();
}
/* The waiting is not disturbed by a failing construction either. */
MC_SCENARIO(failing_constructor_wait, 4, 7, 0) {
    Map m;
    std::thread a([&] { try { m.getResource(1, [](int) -> std::shared_ptr<Res> { throw CtorErr(); }); } catch (CtorErr const &) {} });
    m.waitForEmpty();
    a.join();
    m.waitForEmpty();
}
/* One thread; allocations may fail. */
MC_SCENARIO(out_of_memory, 3, 4, 0) {
    {
        Map m;
        mc::armAllocFaults(true);
        for (int i = 0; i < 2; ++i) {
            try { auto p = m.getResource(1, mk); p->use(1); auto q = m.getResource(1, mk); q->use(1); MC_CHECK(p == q, "different"); }
            catch (std::bad_alloc const &) { mc::outcome(1); }
        }
        mc::armAllocFaults(false);
        MC_CHECK(m.empty(), "entry left behind");
        getUse(m, 1);
        MC_CHECK(m.empty(), "entry left behind");
    }
    endCheck();
}
MC_SCENARIO(out_of_memory_concurrent, 3, 5, 0) {
    {
        Map m;
        std::thread a([&] { try { getUse(m, 1); } catch (std::bad_alloc const &) { mc::outcome(2); } });
        mc::armAllocFaults(true);
        try { auto p = m.getResource(1, mk); p->use(1); } catch (std::bad_alloc const &) { mc::outcome(1); }
        mc::armAllocFaults(false);
        a.join();
        MC_CHECK(m.empty(), "entry left behind");
    }
    endCheck();
}
/* Default construction and extra constructor arguments. */
namespace { struct Def { int v; Def() : v(9) {} }; }
MC_SCENARIO(arguments, 2, 3, 0) {
    sharemind::SharedResourceMap<int, Def> d;
    { auto p = d.getResource(3); MC_CHECK(p->v == 9 && d.size() == 1, "default"); }
    MC_CHECK(d.empty(), "empty");
    Map m;
    { auto p = m.getResource(2, [](int k, int a, int b) { MC_CHECK(k == 2 && a == 5 && b == 6, "args"); return std::unique_ptr<Res>(new Res(k)); }, 5, 6); p->use(2); }
    MC_CHECK(m.empty(), "empty");
}
/* Hundreds of keys of one thread. */
namespace { int liveMany; struct Num { int k; explicit Num(int x) : k(x) { ++liveMany; } ~Num() { --liveMany; k = -1; } }; }
MC_SCENARIO(many_keys, 0, 0, 0) {
    liveMany = 0; int const n = mc::choose(2) ? 40 : 90, step = 1 + mc::choose(3);
    {
        sharemind::SharedResourceMap<int, Num> m; auto const make = [](int k) { return std::make_shared<Num>(k); };
        std::vector<std::shared_ptr<Num>> v(n); int live = 0;
        for (int i = 0; i < n; ++i) { int const k = (i * 37 + 5) % n; MC_CHECK(!v[k], "keys"); v[k] = m.getResource(k, make); ++live; MC_CHECK(v[k] && v[k]->k == k && m.getResource(k, make) == v[k] && m.size() == std::size_t(live) && liveMany == live, "key %d", k); }
        for (int i = 0; i < n; i += step) { v[i].reset(); --live; MC_CHECK(m.size() == std::size_t(live) && liveMany == live && !m.empty() == !!live, "%zu keys, %d resources, expected %d", m.size(), liveMany, live); }
        int seen = 0, last = -1; m.forEach([&](int k, std::shared_ptr<Num> p) { ++seen; MC_CHECK(k != last && p == v[k], "visited %d", k); last = k; }); MC_CHECK(seen == live, "visited %d of %d", seen, live);
        for (int i = 0; i < n; ++i) { auto p = m.getResource(i, make); MC_CHECK(p->k == i && (!v[i] || p == v[i]), "key %d", i); if (!v[i]) ++live; v[i] = p; MC_CHECK(m.size() == std::size_t(live) && liveMany == live, "key %d", i); }
        v.clear(); MC_CHECK(m.empty() && liveMany == 0, "not empty"); m.waitForEmpty();
    }
    MC_CHECK(liveMany == 0, "%d resources leaked", liveMany);
}
