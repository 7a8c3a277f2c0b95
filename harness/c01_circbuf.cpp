// C01: one producer, one consumer; every interleaving within the bounds.
#include "mc.h"
#include <limits>
#include <memory>
#include <thread>
#include <sharemind/CircBufferSCSP.h>

using Buf = sharemind::CircBufferSCSP<int>;

namespace {

struct Ctx {
    Buf b;
    int written = 0; /* writer only */
    int readN = 0;   /* reader only */
    explicit Ctx(std::size_t n) : b(n) {}

    void wArray(int n) {
        int d[8];
        for (int i = 0; i < n; ++i) d[i] = 100 + written + i;
        std::size_t const r = b.write(d, n);
        MC_CHECK(r <= (std::size_t) n, "write(%d) claims to have written %zu", n, r);
        mc::ghostAdd(0, r);
        written += r;
    }
    void rArray(int n) {
        int d[8] = { 0, 0, 0, 0, 0, 0, 0, 0 };
        std::size_t const r = b.read(d, n);
        MC_CHECK(r <= (std::size_t) n, "read(%d) claims to have read %zu", n, r);
        for (int i = 0; i < (int) r; ++i)
            MC_CHECK(d[i] == 100 + readN + i, "element %d read as %d", readN + i, d[i]);
        for (int i = (int) r; i < 8; ++i)
            MC_CHECK(d[i] == 0, "read(%d) returned %zu but wrote more", n, r);
        readN += r;
        mc::ghostAdd(1, r);
    }
    void wActor(int most) {
        int left = most;
        std::size_t total = 0;
        auto f = [&](int * p, std::size_t n) noexcept -> std::size_t {
            MC_CHECK(p >= b.arrayStart() && p + n <= b.arrayStart() + b.bufferSize(), "region outside the storage");
            std::size_t k = n < (std::size_t) left ? n : (std::size_t) left;
            for (std::size_t i = 0; i < k; ++i) p[i] = 100 + written++;
            left -= k; total += k;
            return k;
        };
        std::size_t const r = b.write(f);
        MC_CHECK(r == total, "write(actor) returned %zu, actor produced %zu", r, total);
    }
    void rActor(int most) {
        int left = most;
        std::size_t total = 0;
        auto f = [&](int const * p, std::size_t n) noexcept -> std::size_t {
            MC_CHECK(p >= b.arrayStart() && p + n <= b.arrayStart() + b.bufferSize(), "region outside the storage");
            std::size_t k = n < (std::size_t) left ? n : (std::size_t) left;
            for (std::size_t i = 0; i < k; ++i, ++readN)
                MC_CHECK(p[i] == 100 + readN, "element %d read as %d", readN, p[i]);
            left -= k; total += k;
            return k;
        };
        std::size_t const r = b.read(f);
        MC_CHECK(r == total, "read(actor) returned %zu, actor took %zu", r, total);
    }
    void wRaw(int most) {
        std::size_t ube = 99;
        std::size_t const sp = b.spaceAvailable(ube);
        MC_CHECK(sp <= b.bufferSize() && ube <= sp && (sp == 0) == (ube == 0), "spaceAvailable %zu, contiguous %zu", sp, ube);
        MC_CHECK((int) b.spaceAvailable() >= (int) sp, "free space shrank while only the reader ran");
        std::size_t const k = ube < (std::size_t) most ? ube : (std::size_t) most;
        int * const p = b.arrayStart() + b.writeOffset();
        for (std::size_t i = 0; i < k; ++i) p[i] = 100 + written + i;
        if (k) {
            std::size_t const left = b.haveWritten(k);
            MC_CHECK(left + k >= sp, "haveWritten left %zu of %zu", left, sp);
            written += k;
        }
    }
    void rRaw(int most) {
        std::size_t ube = 99;
        std::size_t const da = b.dataAvailable(ube);
        MC_CHECK(da <= b.bufferSize() && ube <= da && (da == 0) == (ube == 0), "dataAvailable %zu, contiguous %zu", da, ube);
        MC_CHECK(b.dataAvailable() >= da, "available data shrank while only the writer ran");
        if (da) MC_CHECK(!b.empty(), "empty with data");
        std::size_t const k = ube < (std::size_t) most ? ube : (std::size_t) most;
        int const * const p = b.arrayStart() + b.readOffset();
        for (std::size_t i = 0; i < k; ++i)
            MC_CHECK(p[i] == 100 + readN + (int) i, "element %d read as %d", readN + (int) i, p[i]);
        if (k) {
            std::size_t const left = b.haveRead(k);
            MC_CHECK(left + k >= da, "haveRead left %zu of %zu", left, da);
            readN += k;
        }
    }
    void drain() {
        MC_CHECK((int) b.dataAvailable() == written - readN, "%zu elements available, %d written, %d read", b.dataAvailable(), written, readN);
        MC_CHECK(b.spaceAvailable() + b.dataAvailable() == b.bufferSize(), "space");
        while (!b.empty()) rArray(8);
        MC_CHECK(readN == written, "%d written, %d read", written, readN);
    }
};

template <typename W, typename R>
void run(std::size_t cap, int pre, W w, R r) {
    Ctx c(cap);
    /* Start with the offsets anywhere in the array. */
    for (int i = 0; i < pre; ++i) { c.wArray(1); c.rArray(1); }
    std::thread t([&] { w(c); });
    r(c);
    t.join();
    mc::outcome(c.written); mc::outcome(c.readN);
    c.drain();
}

} // namespace

MC_SCENARIO(arrays_cap2, 7, 12, mc::UNLOCKPOINTS) {
    run(2, mc::choose(2), [](Ctx & c) { c.wArray(1); c.wArray(2); c.wArray(1); },
        [](Ctx & c) { c.rArray(2); c.rArray(1); c.rArray(2); });
}
MC_SCENARIO(arrays_cap1, 7, 12, 0) {
    run(1, 0, [](Ctx & c) { c.wArray(2); c.wArray(1); c.wArray(1); },
        [](Ctx & c) { c.rArray(1); c.rArray(2); c.rArray(1); });
}
MC_SCENARIO(arrays_cap3, 7, 12, 0) {
    run(3, mc::choose(3), [](Ctx & c) { c.wArray(2); c.wArray(3); c.wArray(2); },
        [](Ctx & c) { c.rArray(2); c.rArray(3); c.rArray(2); });
}
MC_SCENARIO(actors_cap2, 7, 12, 0) {
    run(2, mc::choose(2), [](Ctx & c) { c.wActor(3); c.wActor(1); c.wActor(2); },
        [](Ctx & c) { c.rActor(2); c.rActor(1); c.rActor(3); });
}
MC_SCENARIO(actors_cap3, 7, 12, 0) {
    run(3, mc::choose(3), [](Ctx & c) { c.wActor(4); c.wActor(2); },
        [](Ctx & c) { c.rActor(2); c.rActor(4); c.rActor(2); });
}
MC_SCENARIO(raw_cap2, 7, 12, 0) {
    run(2, mc::choose(2), [](Ctx & c) { c.wRaw(1); c.wRaw(2); c.wRaw(2); },
        [](Ctx & c) { c.rRaw(2); c.rRaw(1); c.rRaw(2); });
}
MC_SCENARIO(mixed_cap3, 7, 12, 0) {
    int const p = mc::choose(3);
    run(3, p, [](Ctx & c) { c.wActor(2); c.wArray(3); c.wRaw(2); },
        [](Ctx & c) { c.rRaw(2); c.rActor(2); c.rArray(3); });
}
