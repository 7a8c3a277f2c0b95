// C03: bounded-FIFO semantics of the circular buffer for every history.
#include "seq.h"
#include <chrono>
#include <cstring>
#include <deque>
#include <limits>
#include <memory>
#include <vector>
#include <sharemind/CircBufferSCSP.h>
using namespace seq;

namespace {
template <typename T> struct V { static T mk(int i) { return (T) i; } static int get(T const & t) { return (int) t; } };
/* Waiting for what is there already: the amounts are reported at once. */
template <typename B> void waits(B & b, std::size_t data, std::size_t space, std::true_type) {
    if (data) {
        SEQ_CHECK(b.waitDataAvailable() == data, "waitDataAvailable() is not %zu", data);
        SEQ_CHECK(b.waitDataAvailable([] {}, std::chrono::hours(1)) == data, "waitDataAvailable(stopTest) is not %zu", data);
    }
    if (space) {
        SEQ_CHECK(b.waitSpaceAvailable() == space, "waitSpaceAvailable() is not %zu", space);
        SEQ_CHECK(b.waitSpaceAvailable([] {}, std::chrono::hours(1)) == space, "waitSpaceAvailable(stopTest) is not %zu", space);
    }
}
template <typename B> void waits(B &, std::size_t, std::size_t, std::false_type) {}
struct Pod { int a; char pad[5]; };
template <> struct V<Pod> { static Pod mk(int i) { Pod p; p.a = i; std::memset(p.pad, i, 5); return p; } static int get(Pod const & p) { for (char c : p.pad) SEQ_CHECK(c == (char) p.a, "torn element"); return p.a; } };

template <typename T> struct Elem { using type = T; };
template <> struct Elem<void> { using type = unsigned char; };

template <typename T, typename Locking>
void history(int maxCap, bool large = false) {
    using E = typename Elem<T>::type;
    static std::size_t const caps[] = {64, 100, 127, 128, 255, 256, 257, 1000, 65536, 70001};
    std::size_t const cap = large ? caps[choose(maxCap)] : 1 + choose(maxCap);
    int const lumps[] = {2, 17, (int) cap / 2, (int) cap - 1, (int) cap, (int) cap + 1, (int) cap * 2};
    sharemind::CircBufferSCSP<T, Locking> b(cap);
    std::deque<int> m; std::size_t wo = 0, ro = 0; int next = 1;
    E * const base = static_cast<E *>(b.arrayStart());
    auto check = [&] {
        SEQ_CHECK(b.bufferSize() == cap, "bufferSize");
        SEQ_CHECK(b.dataAvailable() == m.size(), "dataAvailable() is %zu, expected %zu", b.dataAvailable(), m.size());
        SEQ_CHECK(b.spaceAvailable() == cap - m.size(), "spaceAvailable() is %zu, expected %zu", b.spaceAvailable(), cap - m.size());
        SEQ_CHECK(b.empty() == m.empty() && b.full() == (m.size() == cap), "empty %d full %d", b.empty(), b.full());
        SEQ_CHECK(b.writeOffset() == wo && b.readOffset() == ro, "offsets %zu/%zu, expected %zu/%zu", b.writeOffset(), b.readOffset(), wo, ro);
        std::size_t const dc = std::min(m.size(), cap - ro), sc = std::min(cap - m.size(), cap - wo);
        std::size_t u = 77;
        SEQ_CHECK(b.dataAvailable(u) == m.size() && u == dc, "contiguous data %zu, expected %zu", u, dc);
        SEQ_CHECK(b.spaceAvailable(u) == cap - m.size() && u == sc, "contiguous space %zu, expected %zu", u, sc);
        SEQ_CHECK(b.dataAvailableUntilBufferEnd() == dc && b.spaceAvailableUntilBufferEnd() == sc, "until buffer end");
        waits(b, m.size(), cap - m.size(), std::integral_constant<bool, Locking::providesWait>());
        state(mix(mix(mix(cap, wo), ro), m.size()));
    };
    auto pushModel = [&](std::size_t n, std::vector<int> const & v) { for (std::size_t i = 0; i < n; ++i) m.push_back(v[i]); wo = (wo + n) % cap; };
    auto popModel = [&](std::size_t n) { for (std::size_t i = 0; i < n; ++i) m.pop_front(); ro = (ro + n) % cap; };
    check();
    for (int s = 0; s < depth(); ++s) {
        int const o = choose(6);
        int const n = large ? lumps[choose(7)] : 1 + choose((int) cap + 2);
        if (o == 0) { /* array write */
            std::unique_ptr<E[]> d(new E[n]); std::vector<int> v;
            for (int i = 0; i < n; ++i) { d[i] = V<E>::mk(next); v.push_back(next); next = next % 100 + 1; }
            std::size_t const e = std::min<std::size_t>(n, cap - m.size());
            op("write(%d)", n);
            std::size_t const r = b.write(static_cast<T const *>(d.get()), n);
            SEQ_CHECK(r == e, "write(%d) returned %zu, expected %zu", n, r, e);
            pushModel(e, v);
        } else if (o == 1) {
            std::unique_ptr<E[]> d(new E[n]); for (int i = 0; i < n; ++i) d[i] = V<E>::mk(0);
            std::size_t const e = std::min<std::size_t>(n, m.size());
            op("read(%d)", n);
            std::size_t const r = b.read(static_cast<T *>(d.get()), n);
            SEQ_CHECK(r == e, "read(%d) returned %zu, expected %zu", n, r, e);
            for (std::size_t i = 0; i < e; ++i) SEQ_CHECK(V<E>::get(d[i]) == m[i], "read element %zu is %d, expected %d", i, V<E>::get(d[i]), m[i]);
            for (int i = (int) e; i < n; ++i) SEQ_CHECK(V<E>::get(d[i]) == 0, "read wrote behind its count");
            popModel(e);
        } else if (o == 2) { /* actor write taking at most n-1 elements altogether, in steps */
            int const most = n - 1; int given = 0; int calls = 0; bool less = false; std::vector<int> v; std::size_t off = wo, room = cap - m.size();
            op("write(actor, %d)", most);
            auto f = [&](T * p, std::size_t k) noexcept -> std::size_t {
                ++calls;
                E * const e = static_cast<E *>(p);
                SEQ_CHECK(k > 0, "actor offered nothing");
                SEQ_CHECK(e == base + off, "actor offered the wrong place");
                SEQ_CHECK(k == std::min(room, cap - off), "actor offered %zu elements, expected %zu", k, std::min(room, cap - off));
                std::size_t const take = std::min<std::size_t>(k, most - given);
                SEQ_CHECK(!less, "actor called again after it took less than it was offered"); less = take < k;
                for (std::size_t i = 0; i < take; ++i) { e[i] = V<E>::mk(next); v.push_back(next); next = next % 100 + 1; }
                given += take; off = (off + take) % cap; room -= take;
                return take;
            };
            std::size_t const e = std::min<std::size_t>(most, cap - m.size());
            bool const none = m.size() == cap;
            std::size_t const r = b.write(f);
            SEQ_CHECK(r == e, "write(actor) returned %zu, expected %zu", r, e);
            if (none) SEQ_CHECK(calls == 0, "actor called on a full buffer"); else SEQ_CHECK(calls >= 1, "actor not called");
            pushModel(e, v);
        } else if (o == 3) {
            int const most = n - 1; int taken = 0; int calls = 0; bool less = false; std::size_t off = ro, have = m.size();
            op("read(actor, %d)", most);
            auto f = [&](T const * p, std::size_t k) noexcept -> std::size_t {
                ++calls;
                E const * const e = static_cast<E const *>(p);
                SEQ_CHECK(k > 0, "actor offered nothing");
                SEQ_CHECK(e == base + off, "actor offered the wrong place");
                SEQ_CHECK(k == std::min(have, cap - off), "actor offered %zu elements, expected %zu", k, std::min(have, cap - off));
                std::size_t const take = std::min<std::size_t>(k, most - taken);
                SEQ_CHECK(!less, "actor called again after it took less than it was offered"); less = take < k;
                for (std::size_t i = 0; i < k; ++i) SEQ_CHECK(V<E>::get(e[i]) == m[taken + i], "offered element is %d, expected %d", V<E>::get(e[i]), m[taken + i]);
                taken += take; off = (off + take) % cap; have -= take;
                return take;
            };
            std::size_t const e = std::min<std::size_t>(most, m.size());
            bool const none = m.empty();
            std::size_t const r = b.read(f);
            SEQ_CHECK(r == e, "read(actor) returned %zu, expected %zu", r, e);
            if (none) SEQ_CHECK(calls == 0, "actor called on an empty buffer"); else SEQ_CHECK(calls >= 1, "actor not called");
            popModel(e);
        } else if (o == 4) { /* direct */
            std::size_t const k = std::min<std::size_t>(n - 1, std::min(cap - m.size(), cap - wo));
            std::vector<int> v; for (std::size_t i = 0; i < k; ++i) { base[wo + i] = V<E>::mk(next); v.push_back(next); next = next % 100 + 1; }
            op("haveWritten(%zu)", k);
            int const w = k ? choose(3) : 0;
            if (w == 0) { std::size_t const r = b.haveWritten(k); SEQ_CHECK(r == cap - m.size() - k, "haveWritten returned %zu", r); }
            else if (w == 1) b.haveWrittenNoRet(k);
            else { std::size_t const r = b.haveWrittenRetUbe(k), e = std::min(cap - m.size() - k, cap - (wo + k) % cap); SEQ_CHECK(r == e, "haveWrittenRetUbe returned %zu, expected %zu", r, e); }
            pushModel(k, v);
        } else {
            std::size_t const k = std::min<std::size_t>(n - 1, std::min(m.size(), cap - ro));
            for (std::size_t i = 0; i < k; ++i) SEQ_CHECK(V<E>::get(base[ro + i]) == m[i], "element in place is %d, expected %d", V<E>::get(base[ro + i]), m[i]);
            op("haveRead(%zu)", k);
            int const w = k ? choose(3) : 0;
            if (w == 0) { std::size_t const r = b.haveRead(k); SEQ_CHECK(r == m.size() - k, "haveRead returned %zu", r); }
            else if (w == 1) b.haveReadNoRet(k);
            else { std::size_t const r = b.haveReadRetUbe(k), e = std::min(m.size() - k, cap - (ro + k) % cap); SEQ_CHECK(r == e, "haveReadRetUbe returned %zu, expected %zu", r, e); }
            popModel(k);
        }
        check();
    }
    /* Drain. */
    if (large) { std::vector<E> x(cap); std::size_t const k = m.size(); SEQ_CHECK(b.read(static_cast<T *>(x.data()), cap) == k, "draining %zu elements", k); for (std::size_t i = 0; i < k; ++i) SEQ_CHECK(V<E>::get(x[i]) == m[i], "drained element %zu differs", i); popModel(k); check(); }
    while (!m.empty()) { E x; SEQ_CHECK(b.read(static_cast<T *>(&x), 1) == 1 && V<E>::get(x) == m.front(), "drained element differs"); popModel(1); check(); }
    sample("capacity %zu ends with offsets %zu/%zu", cap, wo, ro);
}
}
SEQ_TEST(int_nolock, 4, 5) { history<int, sharemind::CircBufferNoLocking>(4); }
SEQ_TEST(char_lock, 3, 5) { history<char, sharemind::CircBufferScspLocking<> >(4); }
SEQ_TEST(void_lock, 3, 5) { history<void, sharemind::CircBufferScspLocking<> >(3); }
SEQ_TEST(pod_nolock, 3, 4) { history<Pod, sharemind::CircBufferNoLocking>(3); }
SEQ_TEST(wrap_cap2, 4, 6) { history<int, sharemind::CircBufferNoLocking>(2); }
/* Large buffers: amounts around the capacity and its half, again and again around the end. */
SEQ_TEST(large, 2, 3) { switch (choose(4)) { case 0: history<int, sharemind::CircBufferNoLocking>(8, true); break; case 1: history<char, sharemind::CircBufferScspLocking<> >(8, true); break; case 2: history<void, sharemind::CircBufferScspLocking<> >(8, true); break; case 3: history<Pod, sharemind::CircBufferNoLocking>(8, true); break; } }
SEQ_TEST(huge, 1, 2) { switch (choose(2)) { case 0: history<void, sharemind::CircBufferNoLocking>(10, true); break; case 1: history<int, sharemind::CircBufferScspLocking<> >(10, true); break; } }
SEQ_TEST(large_wraps, 0, 0) {
    /* Around and around. */
    static std::size_t const caps[] = {100, 128, 255, 256, 257, 1000, 65537}; std::size_t const cap = caps[choose(7)], lump = 1 + choose(2) * (cap / 3) + choose(2), lag = choose(2) * (cap / 2);
    sharemind::CircBufferSCSP<std::uint32_t, sharemind::CircBufferNoLocking> b(cap); std::uint32_t w = 0, r = 0; std::vector<std::uint32_t> v(cap + 1);
    for (std::size_t i = 0; r < 3 * cap && i < 10 * cap; ++i) {
        for (std::size_t k = 0; k < lump; ++k) v[k] = w + (std::uint32_t) k; std::size_t const room = cap - (w - r), e = std::min(room, lump);
        SEQ_CHECK(b.write(v.data(), lump) == e, "write(%zu) with room for %zu", lump, room); w += (std::uint32_t) e;
        if (w - r < lag + (lag ? 0 : 1)) continue; std::size_t const have = w - r, want = std::min(have, lump);
        std::fill(v.begin(), v.begin() + want + 1, ~0u); SEQ_CHECK(b.read(v.data(), lump) == want, "read(%zu) of %zu", lump, have); for (std::size_t k = 0; k < want; ++k) SEQ_CHECK(v[k] == r + k, "element %u is %u", r + (unsigned) k, v[k]); SEQ_CHECK(v[want] == ~0u, "read wrote behind its count"); r += (std::uint32_t) want;
        SEQ_CHECK(b.dataAvailable() == w - r && b.writeOffset() == w % cap && b.readOffset() == r % cap, "offsets");
    }
    SEQ_CHECK(r >= 3 * cap, "stuck"); count(1);
}
namespace {
/* The other side acts while an actor runs: a transfer goes on for as long as
   the actor takes everything offered and there is room (data) for more. */
template <typename Locking, bool writing> void interleaved() {
    std::size_t const cap = 1 + choose(3); int const calls = thorough() ? 5 : 4; bool const otherByActor = flip();
    sharemind::CircBufferSCSP<int, Locking> b(cap);
    std::deque<int> m; std::size_t wo = 0, ro = 0; int next = 1;
    auto wr = [&](std::size_t n) {
        if (!n) return;
        if (otherByActor) { std::size_t left = n; SEQ_CHECK(b.write([&](int * p, std::size_t k) noexcept { k = std::min(k, left); for (std::size_t i = 0; i < k; ++i) { p[i] = next; m.push_back(next++); } left -= k; return k; }) == n, "write(actor)"); }
        else { int t[8]; for (std::size_t i = 0; i < n; ++i) { t[i] = next; m.push_back(next++); } SEQ_CHECK(b.write(t, n) == n, "write"); }
        wo = (wo + n) % cap;
    };
    auto rd = [&](std::size_t n) {
        if (!n) return;
        auto take = [&](int v) { SEQ_CHECK(!m.empty() && v == m.front(), "read %d instead of %d", v, m.front()); m.pop_front(); };
        if (otherByActor) { std::size_t left = n; SEQ_CHECK(b.read([&](int const * p, std::size_t k) noexcept { k = std::min(k, left); for (std::size_t i = 0; i < k; ++i) take(p[i]); left -= k; return k; }) == n, "read(actor)"); }
        else { int t[8]; SEQ_CHECK(b.read(t, n) == n, "read"); for (std::size_t i = 0; i < n; ++i) take(t[i]); }
        ro = (ro + n) % cap;
    };
    wr(choose((int) cap + 1)); rd(choose((int) m.size() + 1));
    int c = 0; std::size_t total = 0; bool done = false;
    std::vector<int> pend;
    std::size_t r;
    if (writing) {
        r = b.write([&](int * p, std::size_t k) noexcept {
            for (int v : pend) m.push_back(v);
            pend.clear();
            SEQ_CHECK(!done, "actor called again after it took less than it was offered");
            SEQ_CHECK(k && k == std::min(cap - m.size(), cap - wo), "offered %zu elements, %zu are expected", k, std::min(cap - m.size(), cap - wo));
            SEQ_CHECK(p == static_cast<int *>(b.arrayStart()) + wo, "the wrong place is offered");
            std::size_t const t = ++c >= calls ? 0 : choose((int) k + 1);
            rd(choose((int) m.size() + 1));
            for (std::size_t i = 0; i < t; ++i) { p[i] = next; pend.push_back(next++); }
            wo = (wo + t) % cap; total += t; done = t < k;
            return t;
        });
        for (int v : pend) m.push_back(v);
        SEQ_CHECK(done || m.size() == cap, "writing ends although there is room for %zu", cap - m.size());
    } else {
        std::size_t gone = 0;
        r = b.read([&](int const * p, std::size_t k) noexcept {
            while (gone) { m.pop_front(); --gone; }
            SEQ_CHECK(!done, "actor called again after it took less than it was offered");
            SEQ_CHECK(k && k == std::min(m.size(), cap - ro), "offered %zu elements, %zu are expected", k, std::min(m.size(), cap - ro));
            SEQ_CHECK(p == static_cast<int *>(b.arrayStart()) + ro, "the wrong place is offered");
            std::size_t const t = ++c >= calls ? 0 : choose((int) k + 1);
            wr(choose((int) (cap - m.size()) + 1));
            for (std::size_t i = 0; i < t; ++i) SEQ_CHECK(p[i] == m[i], "read %d instead of %d", p[i], m[i]);
            gone = t; ro = (ro + t) % cap; total += t; done = t < k;
            return t;
        });
        while (gone) { m.pop_front(); --gone; }
        SEQ_CHECK(done || m.empty(), "reading ends although there are %zu elements", m.size());
    }
    SEQ_CHECK(r == total, "%zu elements transferred instead of %zu", r, total);
    SEQ_CHECK(b.dataAvailable() == m.size() && b.spaceAvailable() == cap - m.size(), "%zu elements instead of %zu", b.dataAvailable(), m.size());
    SEQ_CHECK(b.writeOffset() == wo && b.readOffset() == ro, "offsets %zu/%zu instead of %zu/%zu", b.writeOffset(), b.readOffset(), wo, ro);
    rd(m.size());
    SEQ_CHECK(b.empty(), "not empty");
}
}
SEQ_TEST(interleaved_write, 0, 0) { if (flip()) interleaved<sharemind::CircBufferNoLocking, true>(); else interleaved<sharemind::CircBufferScspLocking<>, true>(); }
SEQ_TEST(interleaved_read, 0, 0) { if (flip()) interleaved<sharemind::CircBufferNoLocking, false>(); else interleaved<sharemind::CircBufferScspLocking<>, false>(); }
