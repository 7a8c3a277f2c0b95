// C07: IdentifierPool under every interleaving.
#include "mc.h"
#include <cstdint>
#include <memory>
#include <new>
#include <thread>
#include <utility>
#include <vector>
#include <sharemind/IdentifierPool.h>

namespace {
using Pool = sharemind::IdentifierPool<std::uint8_t>;
using Holder = Pool::IdHolder;
using Tag = sharemind::StrongType<std::uint8_t, struct MyTag, sharemind::StrongTypeEqualityComparable>;
using SPool = sharemind::IdentifierPool<Tag>;

/* ghost i: whether somebody holds id i % 64 (ids in use are close together). */
void took(unsigned id) { long const n = mc::ghostAdd(id % 48, 1); MC_CHECK(n == 1, "identifier %u reserved while in use", id); }
void giving(unsigned id) { mc::ghostAdd(id % 48, -1); }
} // namespace

MC_SCENARIO(reserve_release, 5, 9, 0) {
    Pool p;
    auto body = [&] {
        for (int i = 0; i < 2; ++i) {
            auto h = p.reserve();
            MC_CHECK(h.valid() && h, "invalid");
            took(h.id());
            giving(h.id());
        }
    };
    std::thread a(body), b(body);
    body();
    a.join(); b.join();
}
MC_SCENARIO(hold_several, 5, 9, 0) {
    Pool p;
    auto body = [&] {
        auto h = p.reserve(); took(h.id());
        auto g = p.reserve(); took(g.id());
        MC_CHECK(h.id() != g.id(), "same id");
        giving(h.id()); h.release(); MC_CHECK(!h.valid(), "valid after release");
        h = p.reserve(); took(h.id());
        giving(g.id());
        g = std::move(h); MC_CHECK(!h && g, "move");
        giving(g.id());
    };
    std::thread a(body);
    body();
    a.join();
}
/* Identifiers passed to and released by other threads. */
MC_SCENARIO(release_elsewhere, 5, 9, 0) {
    Pool p;
    auto h = p.reserve(); took(h.id());
    auto g = p.reserve(); took(g.id());
    std::thread a([&, h = std::move(h)]() mutable { giving(h.id()); h.release(); auto k = p.reserve(); took(k.id()); giving(k.id()); });
    std::thread b([&, g = std::move(g)]() mutable { giving(g.id()); auto x(std::move(g)); });
    auto k = p.reserve(); took(k.id());
    giving(k.id());
    a.join(); b.join();
}
/* Almost everything is reserved, so that searches wrap around and fail. */
MC_SCENARIO(nearly_exhausted, 3, 5, 0) {
    Pool p;
    std::vector<Holder> hs;
    { mc::Quiet q; hs.reserve(256); for (int i = 0; i < 254; ++i) hs.emplace_back(p.reserve()); }
    auto body = [&] {
        try {
            auto h = p.reserve();
            long const n = mc::ghostAdd(h.id() == 254 ? 1 : h.id() == 255 ? 2 : h.id() == 7 ? 3 : 4, 1);
            MC_CHECK(n == 1 && (h.id() >= 254 || h.id() == 7), "identifier %u reserved twice", h.id());
            mc::ghostAdd(h.id() == 254 ? 1 : h.id() == 255 ? 2 : 3, -1);
        } catch (Pool::ReserveException const &) { mc::ghostAdd(5, 1); }
    };
    std::thread a(body), b(body);
    body();
    a.join(); b.join();
    /* three requesters, two free ids */
    MC_CHECK(mc::ghostGet(5) <= 1, "%ld requests refused with two identifiers free", mc::ghostGet(5));
    mc::outcome(mc::ghostGet(5));
    mc::Quiet q; std::vector<Holder>().swap(hs);
}
MC_SCENARIO(exhausted_release, 3, 5, 0) {
    Pool p;
    std::vector<Holder> hs;
    { mc::Quiet q; hs.reserve(256); for (int i = 0; i < 256; ++i) hs.emplace_back(p.reserve()); }
    std::thread a([&] { hs[7].release(); mc::ghostSet(8, 1); });
    bool const before = mc::ghostGet(8);
    try { auto h = p.reserve(); MC_CHECK(h.id() == 7, "id %u", h.id()); mc::outcome(1); }
    catch (Pool::ReserveException const &) { MC_CHECK(!before, "refused although an identifier is free"); mc::outcome(2); }
    a.join();
    { auto h = p.reserve(); MC_CHECK(h.id() == 7, "id %u", h.id()); }
    mc::Quiet q; std::vector<Holder>().swap(hs);
}
/* Holders which outlive the pool. */
MC_SCENARIO(pool_dies_first, 5, 9, 0) {
    std::unique_ptr<Pool> p(new Pool);
    auto h = p->reserve(), g = p->reserve();
    std::thread a([h = std::move(h)]() mutable { h.release(); });
    p.reset();
    g.release();
    a.join();
}
MC_SCENARIO(strong, 5, 8, 0) {
    SPool p;
    auto body = [&] { auto h = p.reserve(); took(h.id().get()); auto g(std::move(h)); MC_CHECK(!h.valid() && g.valid(), "move"); giving(g.id().get()); g.release(); };
    std::thread a(body);
    body(); body();
    a.join();
}
MC_SCENARIO(out_of_memory, 4, 6, 0) {
    Pool p;
    std::thread a([&] { try { auto h = p.reserve(); took(h.id()); giving(h.id()); } catch (std::bad_alloc const &) { mc::outcome(2); } });
    mc::armAllocFaults(true);
    try { auto h = p.reserve(); took(h.id()); giving(h.id()); } catch (std::bad_alloc const &) { mc::outcome(1); }
    mc::armAllocFaults(false);
    a.join();
    { auto h = p.reserve(); took(h.id()); giving(h.id()); }
}
