// C18: system-call wrappers and owned descriptors against all sequences of outcomes.
#include "seq.h"
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <exception>
#include <memory>
#include <new>
#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <utility>
#include <sharemind/Exception.h>
#include <sharemind/Posix.h>
#include <sharemind/FileDescriptor.h>

namespace {
/* Simulated descriptor table for descriptors from 1000 on. */
constexpr int BASE = 1000, N = 8;
struct K { bool open[N]; bool cloexec[N]; int fdfl[N], fl[N]; int closes; int faults; int lastErr; int gets, sets; bool zero; } k;
void reset() { k = K(); }
/* The first descriptor is the number 0 when k.zero is set: it is as valid as any other. */
int num(int i) { return i == 0 && k.zero ? 0 : BASE + i; }
int idx(int fd) { return fd == 0 && k.zero ? 0 : fd - BASE; }
bool known(int fd) { int const i = idx(fd); return i >= 0 && i < N && num(i) == fd; }
bool sim(int fd) { return fd >= BASE || fd < 0 || (fd == 0 && k.zero); }
/* 0: none; otherwise the error the call fails with. */
int outcome() {
    if (k.faults <= 0) return 0;
    static int const e[] = {0, EINTR, EAGAIN, EMFILE, EIO};
    int const c = seq::choose(5);
    if (c) { --k.faults; seq::op("  -> fails with error %d", e[c]); }
    return e[c];
}
int openFd() { for (int i = 0; i < N; ++i) if (!k.open[i]) { k.open[i] = true; k.cloexec[i] = true; return num(i); } seq::fail("harness: out of descriptors"); }
int nOpen() { int n = 0; for (bool b : k.open) n += b; return n; }

struct E1: sharemind::Exception { char const * what() const noexcept override { return "one"; } };
struct E2: sharemind::Exception { char const * what() const noexcept override { return "two"; } };
int causeOf(std::exception const & e) {
    try { std::rethrow_if_nested(e); } catch (sharemind::ErrnoException const & c) { return c.errorNumber(); } catch (...) { seq::fail("the cause is something else"); }
    seq::fail("no cause given");
}
} // namespace

extern "C" int close(int fd) {
    if (!sim(fd)) return int(syscall(SYS_close, fd));
    SEQ_CHECK(known(fd) && k.open[idx(fd)], "closes descriptor %d which is not open", fd);
    k.open[idx(fd)] = false;
    ++k.closes;
    /* Linux: the descriptor is gone even if the call reports EINTR. */
    if (k.faults > 0 && seq::flip()) { --k.faults; seq::op("  close() -> EINTR"); errno = EINTR; return -1; }
    return 0;
}
extern "C" int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long const arg = va_arg(ap, long); va_end(ap);
    if (!sim(fd)) return int(syscall(SYS_fcntl, fd, cmd, arg));
    seq::op("fcntl(%d, %d, %d)", fd, cmd, int(arg));
    if (!known(fd) || !k.open[idx(fd)]) { errno = EBADF; return -1; }
    int const i = idx(fd);
    if (cmd == F_GETFD || cmd == F_GETFL) ++k.gets;
    if (cmd == F_SETFD || cmd == F_SETFL) ++k.sets;
    if (int const e = outcome()) { k.lastErr = e; errno = e; return -1; }
    switch (cmd) {
    case F_GETFD: return k.fdfl[i];
    case F_SETFD: k.fdfl[i] = int(arg); return 0;
    case F_GETFL: return k.fl[i];
    case F_SETFL: k.fl[i] = int(arg); return 0;
    case F_DUPFD_CLOEXEC: { SEQ_CHECK(int(arg) == 0, "duplicates to a descriptor from %d on", int(arg)); return openFd(); }
    default: seq::fail("unexpected fcntl command %d", cmd);
    }
}

/* ---- syscallLoop ---- */
SEQ_TEST(retries_interruptions, 6, 9) {
    int calls = 0, n = seq::depth(); bool over = false; int want = 0, err = 0;
    int x = 7; char const * const s = "path";
    auto f = [&](int a, char const * b, int & c) -> long {
        SEQ_CHECK(!over, "called again after success or failure");
        SEQ_CHECK(a == 3 && b == s && &c == &x, "arguments changed between attempts");
        ++calls;
        static int const es[] = {EINTR, EAGAIN, EBADF, ENOSPC, EPERM, ETIMEDOUT, 0};
        int const o = seq::choose(n > 0 ? 9 : 7) ;
        if (o < 4) { over = true; want = o == 3 ? 12345 : o; return want; } /* success with any result */
        int const e = o < 7 ? es[o - 2] : es[o - 7];
        seq::op("attempt %d fails with %d", calls, e);
        --n; errno = e;
        if (e != EINTR && e != EAGAIN) { over = true; err = e; }
        return -1;
    };
    try {
        long const r = sharemind::syscallLoop<E1>(f, [](long v) { return v >= 0; }, 3, s, x);
        SEQ_CHECK(over && !err && r == want, "returns %ld after error %d", r, err);
    } catch (E1 const & e) {
        SEQ_CHECK(over && err, "fails although not failed");
        SEQ_CHECK(causeOf(e) == err, "wrong error code");
    }
    SEQ_CHECK(over, "gave up after %d attempts", calls);
    seq::state(std::uint64_t(calls * 100 + err));
}
/* Success is what the predicate says, not what errno says. */
SEQ_TEST(predicate_decides, 0, 0) {
    int const v = seq::choose(5) - 2, e = seq::choose(3), p = seq::choose(3);
    int calls = 0;
    auto f = [&](int a) { ++calls; errno = e == 0 ? 0 : e == 1 ? EINTR : ENOENT; if (calls > 3) { return 50; } return a; };
    auto ok = [&](int r) { return r == 50 || (p == 0 ? r >= 0 : p == 1 ? r == 0 : r != -1); };
    bool const good = ok(v);
    try {
        int const r = sharemind::syscallLoop<E2>(f, ok, v);
        SEQ_CHECK(good ? (r == v && calls == 1) : (e == 1 && r == 50 && calls == 4), "returns %d after %d attempts", r, calls);
    } catch (E2 const & x) {
        SEQ_CHECK(!good && e != 1 && calls == 1 && causeOf(x) == (e == 0 ? 0 : ENOENT), "fails");
    }
}
/* ---- adding descriptor flags ---- */
template <bool fd> void addFlags() {
    reset();
    int const h = openFd();
    int const before = seq::choose(4), add = seq::choose(4);
    (fd ? k.fdfl : k.fl)[0] = before; (fd ? k.fl : k.fdfl)[0] = 77;
    k.faults = seq::depth();
    bool const valid = seq::choose(4) != 3;
    try {
        if (fd) sharemind::fcntlAddFd<E1, E2>(valid ? h : -1, add); else sharemind::fcntlAddFl<E1, E2>(valid ? h : -1, add);
        SEQ_CHECK(valid && (fd ? k.fdfl : k.fl)[0] == (before | add), "flags are %d instead of %d", (fd ? k.fdfl : k.fl)[0], before | add);
    } catch (E1 const & e) {
        SEQ_CHECK(k.sets == 0 && causeOf(e) == (valid ? k.lastErr : EBADF), "wrong cause");
        SEQ_CHECK((fd ? k.fdfl : k.fl)[0] == before, "flags changed although failed");
    } catch (E2 const & e) {
        SEQ_CHECK(k.sets > 0 && k.lastErr == causeOf(e), "wrong cause");
        SEQ_CHECK((fd ? k.fdfl : k.fl)[0] == before, "flags changed although failed");
    }
    SEQ_CHECK(k.lastErr == 0 || k.lastErr == EINTR || k.lastErr == EAGAIN || (fd ? k.fdfl : k.fl)[0] == before, "failure ignored");
    SEQ_CHECK((fd ? k.fl : k.fdfl)[0] == 77, "other flags changed");
    k.open[0] = false;
}
SEQ_TEST(add_descriptor_flags, 4, 6) { addFlags<true>(); }
SEQ_TEST(add_status_flags, 4, 6) { addFlags<false>(); }

/* ---- ownership ---- */
namespace {
using FD = sharemind::FileDescriptor;
void ownership(int depth, int faults) {
    reset();
    k.zero = true;
    {
        FD o[2]; int m[2] = {-1, -1};
        k.faults = faults;
        auto drop = [&](int i, int to) { m[i] = to; };
        int loose = -1; /* released: must stay open */
        for (int s = 0; s < depth; ++s) {
            int const i = seq::choose(2), j = 1 - i;
            int const op = seq::choose(12);
            int const before = k.closes; int expectCloses = 0;
            auto closing = [&](int x) { if (m[x] >= 0) ++expectCloses; };
            switch (op) {
            case 0: { int const f = openFd(); seq::op("o%d = FileDescriptor(%d)", i, f); closing(i); o[i] = FD(f); drop(i, f); } break;
            case 1: { seq::op("o%d = move(o%d)", i, j); closing(i); FD & r = (o[i] = std::move(o[j])); SEQ_CHECK(&r == &o[i], "result"); drop(i, m[j]); m[j] = -1; } break;
            case 2: { seq::op("o%d = move(o%d)", i, i); FD & self = o[i]; o[i] = std::move(self); } break;
            case 3: { int const f = openFd(); seq::op("o%d.reset(%d)", i, f); closing(i); o[i].reset(f); drop(i, f); } break;
            case 4: seq::op("o%d.reset(own)", i); o[i].reset(o[i].nativeHandle()); break;
            case 5: seq::op("o%d.reset(-1)", i); closing(i); o[i].reset(-1); drop(i, -1); break;
            case 6: { if (loose >= 0) { k.open[idx(loose)] = false; loose = -1; } seq::op("o%d.release()", i); int const r = o[i].release(); SEQ_CHECK(r == m[i], "released %d instead of %d", r, m[i]); if (r >= 0) loose = r; drop(i, -1); } break;
            case 7: seq::op("o%d.close()", i); closing(i); o[i].close(); drop(i, -1); break;
            case 8: { seq::op("scope { x(move(o%d)) }", i); closing(i); FD x(std::move(o[i])); SEQ_CHECK(!o[i].valid() && x.nativeHandle() == m[i] && k.closes == before, "moved wrongly"); drop(i, -1); } break;
            case 9: { seq::op("o%d = o%d.duplicate()", i, j);
                int const of = k.faults; int const had = m[j];
                try { FD d(o[j].duplicate()); SEQ_CHECK(had >= 0 && d.valid() && d.nativeHandle() != had, "duplicated to %d", d.nativeHandle()); SEQ_CHECK(k.cloexec[idx(d.nativeHandle())], "not close-on-exec"); closing(i); int const f = d.nativeHandle(); o[i] = std::move(d); drop(i, f); }
                catch (sharemind::Exception const & e) { SEQ_CHECK(had < 0 ? causeOf(e) == EBADF : (k.faults < of && causeOf(e) == k.lastErr), "failed to duplicate"); }
            } break;
            case 10: { seq::op("o%d = move(released)", i); if (loose >= 0) { closing(i); FD x(loose); o[i] = std::move(x); drop(i, loose); loose = -1; } } break;
            default: { seq::op("swap"); std::swap(o[0], o[1]); std::swap(m[0], m[1]); } break;
            }
            SEQ_CHECK(k.closes - before == expectCloses, "closed %d descriptors instead of %d", k.closes - before, expectCloses);
            int want = loose >= 0;
            for (int x = 0; x < 2; ++x) { SEQ_CHECK(o[x].nativeHandle() == m[x] && o[x].valid() == (m[x] >= 0), "o%d holds %d instead of %d", x, o[x].nativeHandle(), m[x]); want += m[x] >= 0; if (m[x] >= 0) SEQ_CHECK(k.open[idx(m[x])], "held descriptor was closed"); }
            SEQ_CHECK(nOpen() == want, "%d descriptors are open instead of %d", nOpen(), want);
            seq::state(seq::mix(seq::mix(std::uint64_t(m[0] + 2), std::uint64_t(m[1] + 2)), std::uint64_t(loose + 2)));
        }
        if (loose >= 0) k.open[idx(loose)] = false;
        k.faults = 0;
    }
    SEQ_CHECK(nOpen() == 0, "descriptors left open after their owners are gone");
    k.zero = false;
}
} // namespace
SEQ_TEST(ownership, 5, 6) { ownership(seq::depth(), 0); }
SEQ_TEST(ownership_with_failures, 3, 4) { ownership(seq::depth(), 2); }
