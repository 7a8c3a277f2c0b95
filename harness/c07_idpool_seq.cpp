// C07: every history of a pool with few free identifiers.
#include "seq.h"
#include <cstdint>
#include <new>
#include <set>
#include <utility>
#include <vector>
#include <sharemind/IdentifierPool.h>

#include <memory>
namespace {
using Strong = sharemind::StrongType<std::uint8_t, struct MyTag, sharemind::StrongTypeEqualityComparable>;
unsigned raw(std::uint8_t v) { return v; }
unsigned raw(std::uint16_t v) { return v; }
unsigned raw(Strong const & v) { return v.get(); }

template <typename T>
void histories(int depth, bool faults) {
    using Pool = sharemind::IdentifierPool<T>;
    using Holder = typename Pool::IdHolder;
    static int const pre[] = {0, 254, 255, 256, 1};
    int const n = pre[seq::choose(faults ? 2 : 5)];
    Pool p;
    std::vector<Holder> bg;
    std::set<unsigned> used;
    bg.reserve(256);
    for (int i = 0; i < n; ++i) {
        bg.emplace_back(p.reserve());
        SEQ_CHECK(used.insert(raw(bg.back().id())).second, "identifier reserved twice");
    }
    seq::op("%d identifiers reserved", n);
    Holder h[2];
    int model[2] = {-1, -1};
    if (faults) seq::armAllocFaults(2);
    auto check = [&] {
        for (int i = 0; i < 2; ++i) {
            SEQ_CHECK(h[i].valid() == (model[i] >= 0) && bool(h[i]) == (model[i] >= 0), "holder %d: valid is wrong", i);
            if (model[i] >= 0) SEQ_CHECK(raw(h[i].id()) == unsigned(model[i]), "holder %d: identifier changed", i);
        }
    };
    for (int s = 0; s < depth; ++s) {
        int const op = seq::choose(9);
        int const i = op & 1, j = 1 - i;
        switch (op) {
        case 0: case 1: {
            seq::op("h%d = reserve()", i);
            int const f = seq::faultsFired();
            try {
                Holder x(p.reserve());
                SEQ_CHECK(x.valid(), "reserved an invalid holder");
                int const id = raw(x.id());
                SEQ_CHECK(used.insert(id).second, "identifier %d reserved while in use", id);
                h[i] = std::move(x);
                SEQ_CHECK(!x.valid(), "moved-from holder is valid");
                if (model[i] >= 0) used.erase(model[i]);
                model[i] = id;
            } catch (typename Pool::ReserveException const & e) {
                SEQ_CHECK(used.size() == 256, "refused although only %zu identifiers are in use", used.size());
            } catch (std::bad_alloc const &) {
                SEQ_CHECK(faults && seq::faultsFired() > f, "bad_alloc");
            }
        } break;
        case 2: case 3: seq::op("h%d.release()", i); h[i].release(); if (model[i] >= 0) used.erase(model[i]); model[i] = -1; break;
        case 4: case 5:
            seq::op("h%d = move(h%d)", i, j);
            h[i] = std::move(h[j]);
            if (model[i] >= 0) used.erase(model[i]);
            model[i] = model[j]; model[j] = -1; break;
        case 6: case 7: {
            seq::op("{ Holder x(move(h%d)); }", i);
            { Holder x(std::move(h[i])); SEQ_CHECK(x.valid() == (model[i] >= 0), "moved holder"); check; }
            if (model[i] >= 0) used.erase(model[i]);
            model[i] = -1; break;
        }
        case 8:
            if (bg.empty()) return;
            seq::op("release a background identifier");
            used.erase(raw(bg.back().id())); bg.pop_back(); break;
        }
        check();
        seq::state(seq::mix(used.size(), seq::mix(model[0] + 1, model[1] + 1)));
    }
    seq::disarmAllocFaults();
    /* Everything not in use can be reserved, then nothing more. */
    std::size_t const freeIds = 256 - used.size();
    if (freeIds < 4) {
        std::vector<Holder> rest;
        for (std::size_t k = 0; k < freeIds; ++k) {
            try { rest.emplace_back(p.reserve()); }
            catch (typename Pool::ReserveException const &) { seq::fail("refused although %zu identifiers are free", freeIds - k); }
            SEQ_CHECK(used.insert(raw(rest.back().id())).second, "identifier reserved while in use");
        }
        try { p.reserve(); seq::fail("reserved more identifiers than there are"); }
        catch (typename Pool::ReserveException const &) {}
    }
}
} // namespace

SEQ_TEST(uint8, 4, 6) { histories<std::uint8_t>(seq::depth(), false); }
SEQ_TEST(strong_uint8, 3, 5) { histories<Strong>(seq::depth(), false); }
SEQ_TEST(out_of_memory, 4, 5) { histories<std::uint8_t>(seq::depth(), true); }
SEQ_TEST(self_move, 3, 3) {
    sharemind::IdentifierPool<std::uint8_t> p;
    auto h = p.reserve(); auto g = p.reserve();
    auto & r = h;
    h = std::move(r);
    if (h.valid()) SEQ_CHECK(h.id() == 0, "identifier changed");
    auto k = p.reserve();
    SEQ_CHECK(k.id() != g.id() && (!h.valid() || k.id() != h.id()), "identifier reserved while in use");
}
SEQ_TEST(wide, 3, 3) {
    /* The order of first hand-outs does not matter, their uniqueness does. */
    sharemind::IdentifierPool<std::uint64_t> p;
    std::vector<sharemind::IdentifierPool<std::uint64_t>::IdHolder> hs;
    std::set<std::uint64_t> used;
    for (int i = 0; i < 64; ++i) { hs.emplace_back(p.reserve()); SEQ_CHECK(used.insert(hs.back().idRef()).second, "twice"); }
    int const a = seq::choose(64);
    used.erase(hs[a].id()); hs[a].release();
    for (int i = 0; i < 8; ++i) { hs.emplace_back(p.reserve()); SEQ_CHECK(used.insert(hs.back().id()).second, "twice"); }
}
/* All identifiers of a wider type, released and reserved again in several orders. */
template <typename T, std::size_t N> void all() {
    using Pool = sharemind::IdentifierPool<T>; int const order = seq::choose(4), stride = 1 + seq::choose(3); std::size_t const n = seq::flip() ? N : N - 3; auto const at = [&](std::size_t i) { return order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i * 101 + 13) % n : (i ^ 1) < n ? i ^ 1 : i; };
    auto pool = std::make_unique<Pool>(); std::vector<typename Pool::IdHolder> h(n); std::vector<bool> used(N);
    auto take = [&](std::size_t i) { try { h[i] = pool->reserve(); } catch (typename Pool::ReserveException const &) { seq::fail("refused although identifiers are free"); } SEQ_CHECK(h[i].valid(), "invalid"); unsigned const id = raw(h[i].id()); SEQ_CHECK(id < N && !used[id], "identifier %u reserved while in use", id); used[id] = true; };
    for (std::size_t i = 0; i < n; ++i) take(i); seq::op("%zu identifiers reserved", n);
    for (std::size_t i = 0; i < (n < 300 ? n : 300); i += stride) { std::size_t const k = at(i); if (!h[k].valid()) continue; unsigned const id = raw(h[k].id()); if (i % 2) h[k].release(); else { typename Pool::IdHolder x(std::move(h[k])); SEQ_CHECK(raw(x.id()) == id, "identifier changed"); } SEQ_CHECK(!h[k].valid() && used[id], "valid"); used[id] = false; }
    for (std::size_t i = 0; i < n; ++i) if (!h[i].valid()) take(i);
    if (n == N) { bool thrown = false; try { pool->reserve(); } catch (typename Pool::ReserveException const &) { thrown = true; } SEQ_CHECK(thrown, "reserved more identifiers than there are"); unsigned const id = raw(h[77].id()); h[77].release(); used[id] = false; take(77); SEQ_CHECK(raw(h[77].id()) == id, "identifier"); }
    if (seq::flip()) pool.reset(); seq::count(1);
}
SEQ_TEST(all_of_16_bits, 0, 0) { all<std::uint16_t, 65536>(); }
SEQ_TEST(all_of_8_bits, 0, 0) { if (seq::flip()) all<std::uint8_t, 256>(); else all<Strong, 256>(); }
