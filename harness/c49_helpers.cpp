// C49: clock readings and failures, durations, memory helpers for typed and untyped memory, checked pass-through.
// LIBS: -Wl,--wrap=gettimeofday,--wrap=clock_gettime
#include "seq.h"
#include <cerrno>
#include <csignal>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <memory>
#include <ratio>
#include <string>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <type_traits>
#include <unistd.h>
#include <utility>
#include <sharemind/AssertReturn.h>
#include <sharemind/Durations.h>
#include <sharemind/MicrosecondTime.h>
#include <sharemind/PotentiallyVoidTypeInfo.h>

namespace { bool replaced = false, failing = false; timeval answer; int asked = 0; }
extern "C" int __real_gettimeofday(timeval *, void *);
extern "C" int __wrap_gettimeofday(timeval * tv, void * tz) {
    if (!replaced) return __real_gettimeofday(tv, tz);
    ++asked; if (failing) { errno = EFAULT; return -1; }
    *tv = answer; return 0;
}
extern "C" int __real_clock_gettime(clockid_t, timespec *);
extern "C" int __wrap_clock_gettime(clockid_t c, timespec * ts) {
    if (!replaced) return __real_clock_gettime(c, ts);
    ++asked; if (failing || c != CLOCK_REALTIME) { errno = EFAULT; return -1; }
    ts->tv_sec = answer.tv_sec; ts->tv_nsec = answer.tv_usec * 1000; return 0;
}
namespace c49 {
namespace S = sharemind;
struct Refused { int i; };
void clocks() {
    static long const secs[] = { 0, 1, 59, 4294, 4295, 2147483647L, 2147483648L, 4294967295L, 4294967296L, 9223372036854L }; static long const usecs[] = { 0, 1, 9, 10, 999, 1000, 65535, 65536, 499999, 999998, 999999 };
    failing = seq::flip(); answer.tv_sec = secs[seq::choose(10)]; answer.tv_usec = usecs[seq::choose(11)]; static std::uint64_t const fails[] = { 0, 1, 7777777777777ull, ~0ull }; std::uint64_t const onFail = fails[seq::choose(4)];
    std::uint64_t const want = static_cast<std::uint64_t>(static_cast<unsigned __int128>(answer.tv_sec) * 1000000 + answer.tv_usec);
    replaced = true; asked = 0;
    std::uint64_t const a = S::getUsTime(), b = S::getUsTime(onFail); bool thrown = false; std::uint64_t c = 0;
    SEQ_CHECK(asked == 2, "the clock is read %d times for two readings", asked);
    try { c = S::getUsTimeOrThrow(Refused{int(onFail % 1000)}); } catch (Refused const & r) { thrown = true; SEQ_CHECK(r.i == int(onFail % 1000), "another exception"); }
    replaced = false;
    SEQ_CHECK(a == (failing ? 0u : want) && b == (failing ? onFail : want), "%lld s %lld us%s gives %llu and %llu", (long long) answer.tv_sec, (long long) answer.tv_usec, failing ? " (failing)" : "", (unsigned long long) a, (unsigned long long) b);
    SEQ_CHECK(thrown == failing && (failing || c == want), "%lld s %lld us%s gives %llu", (long long) answer.tv_sec, (long long) answer.tv_usec, failing ? " (failing)" : "", (unsigned long long) c);
    seq::count(3);
}
template <std::size_t N, typename C> void fixedDuration() {
    S::StaticLoopDuration<N, C> const d; C const & p = d; SEQ_CHECK(p.count() == typename C::rep(N) && d == C(N), "a duration of %zu is %lld", N, (long long) p.count());
    S::LoopDuration<C> const & l = d; SEQ_CHECK(l == C(N) && std::chrono::duration_cast<std::chrono::nanoseconds>(l) == std::chrono::nanoseconds(C(N)), "a duration of %zu is another one", N); seq::count(2);
}
void durations() {
    using std::chrono::microseconds; using std::chrono::milliseconds; using std::chrono::seconds;
    for (std::size_t n : {std::size_t(0), std::size_t(1), std::size_t(3), std::size_t(999), std::size_t(1000), std::size_t(4294967296ull)}) {
        SEQ_CHECK(S::LoopDuration<>(n) == milliseconds(n) && S::LoopDuration<microseconds>(n) == microseconds(n) && S::LoopDuration<seconds>(n) == seconds(n) && S::LoopDuration<seconds>(n).count() == long(n), "a duration of %zu is another one", n); seq::count(3); }
    SEQ_CHECK(S::StaticLoopDuration<>() == milliseconds(3), "another default");
    fixedDuration<0, milliseconds>(); fixedDuration<1, microseconds>(); fixedDuration<3, milliseconds>(); fixedDuration<50, seconds>(); fixedDuration<123456789, std::chrono::nanoseconds>(); fixedDuration<7, std::chrono::duration<int, std::ratio<3, 2>>>();
}
/* Elements are T; P is the pointed-to type under test (T, or void for bytes). */
struct Trip { unsigned char c[3]; bool operator==(Trip const & o) const { return !std::memcmp(c, o.c, 3); } };
template <typename P, typename ... D> void distances(P * base, P * p, int i, char const * n) {
    bool const right[] = { S::ptrAdd(base, static_cast<D>(i)) == p && S::ptrSub(p, static_cast<D>(i)) == base ... };
    for (bool r : right) SEQ_CHECK(r, "%s: %d elements of a distance of type %d", n, i, int(&r - right));
    bool const back[] = { !std::is_signed<D>::value || (S::ptrAdd(p, static_cast<D>(-i)) == base && S::ptrSub(base, static_cast<D>(-i)) == p) ... };
    for (bool r : back) SEQ_CHECK(r, "%s: -%d elements", n, i);
}
template <typename P, typename T> void arithmetic(char const * n) {
    SEQ_CHECK((S::sizeOf<P>() == sizeof(T) && std::is_same<S::AllocType<P>, std::remove_const_t<T>>::value), "%s: elements of %zu bytes", n, S::sizeOf<P>());
    int const N = 5; std::unique_ptr<std::remove_const_t<T>[]> mem(new std::remove_const_t<T>[N]());
    P * const base = mem.get(); int const i = seq::choose(N + 1), j = seq::choose(N + 1);
    P * const p = S::ptrAdd(base, std::size_t(i)), * const q = S::ptrAdd(base, j);
    SEQ_CHECK(static_cast<void const volatile *>(p) == mem.get() + i && static_cast<void const volatile *>(q) == mem.get() + j, "%s: element %d or %d is elsewhere", n, i, j);
    SEQ_CHECK(S::ptrDist(p, q) == j - i && S::ptrDist(q, p) == i - j, "%s: distance from %d to %d is %td", n, i, j, std::ptrdiff_t(S::ptrDist(p, q)));
    SEQ_CHECK(S::ptrSub(p, i) == base && S::ptrSub(q, std::size_t(j)) == base && S::ptrAdd(p, std::ptrdiff_t(j - i)) == q && S::ptrSub(p, std::ptrdiff_t(i - j)) == q, "%s: arithmetic between %d and %d", n, i, j);
    distances<P, int, unsigned, unsigned short, short, unsigned char, signed char, long, unsigned long, long long, unsigned long long>(base, p, i, n);
    seq::count(6);
}
template <typename T> T value(int i);
template <> unsigned char value<unsigned char>(int i) { return static_cast<unsigned char>(i % 2 ? i * 37 + 1 : 0); } template <> int value<int>(int i) { return i * 0x01020304 + 5; } template <> Trip value<Trip>(int i) { return Trip{{static_cast<unsigned char>(i), 2, static_cast<unsigned char>(255 - i)}}; } template <> std::string value<std::string>(int i) { return std::string(std::size_t(i) * 7, 'x'); }
template <typename P, typename T> void copying(char const * n) {
    int const N = 4, size = seq::choose(N + 1), from = seq::choose(N - size + 1), to = seq::choose(N - size + 1);
    std::unique_ptr<T[]> a(new T[N]()), b(new T[N]()), w(new T[N]()); for (int i = 0; i < N; ++i) { a[i] = value<T>(i); b[i] = value<T>(i + 20); w[i] = b[i]; } for (int i = 0; i < size; ++i) w[to + i] = a[from + i];
    P const * const src = a.get() + from; P * const dst = b.get() + to;
    S::copy(src, dst, std::size_t(size));
    for (int i = 0; i < N; ++i) SEQ_CHECK(b[i] == w[i] && a[i] == value<T>(i), "%s: copying %d elements from %d to %d, element %d", n, size, from, to, i);
    seq::count(N);
}
void memory() {
    switch (seq::choose(12)) {
    case 0: arithmetic<int, int>("int"); break; case 1: arithmetic<int const, int const>("int const"); break; case 2: arithmetic<void, unsigned char>("void"); break; case 3: arithmetic<void const, unsigned char>("void const"); break; case 4: arithmetic<Trip, Trip>("Trip"); break; case 5: arithmetic<char, char>("char"); break; case 6: arithmetic<std::string const, std::string const>("std::string const"); break;
    case 7: copying<int, int>("int"); break; case 8: copying<void, unsigned char>("void"); break; case 9: copying<Trip, Trip>("Trip"); break; case 10: copying<std::string, std::string>("std::string"); break; case 11: copying<unsigned char, unsigned char>("unsigned char"); break;
    }
}
/* Distances which need more than 32 bits, within reserved (never used) memory. */
template <typename P, typename T> void farApart(char const * n) {
    std::size_t const bytes = std::size_t(9) << 30; void * const m = ::mmap(nullptr, bytes, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) { return; }
    P * const base = static_cast<T *>(m); long const d[] = { 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100000001, 0x1ffffffff };
    for (long i : d) { if (std::size_t(i) * sizeof(T) > bytes) continue; P * const p = S::ptrAdd(base, i); SEQ_CHECK(static_cast<void const volatile *>(p) == static_cast<char *>(m) + i * long(sizeof(T)), "%s: element %ld is elsewhere", n, i); SEQ_CHECK(S::ptrDist(base, p) == i && S::ptrDist(p, base) == -i && S::ptrSub(p, i) == base && S::ptrSub(base, -i) == p && S::ptrAdd(base, std::size_t(i)) == p, "%s: distance of %ld elements", n, i); seq::count(1); }
    ::munmap(m, bytes);
}
void farApart() { switch (seq::choose(4)) { case 0: farApart<void, unsigned char>("void"); break; case 1: farApart<char const, char const>("char const"); break; case 2: farApart<Trip, Trip>("Trip"); break; case 3: farApart<void const, unsigned char>("void const"); break; } }
/* assertReturn(): the very same object comes back, false ones abort. */
struct Truth { int v; int * asked; explicit operator bool() const noexcept { ++*asked; return v != 0; } Truth(int i, int * a) : v(i), asked(a) {} Truth(Truth const &) = delete; };
bool aborts(void (*f)()) { ::pid_t const p = ::fork(); if (!p) { ::signal(SIGABRT, SIG_DFL); ::close(2); f(); ::_exit(0); } int st = 0; ::waitpid(p, &st, 0); return !WIFEXITED(st) || WEXITSTATUS(st) != 0; }
void passThrough() {
    int n = 0; Truth t(1, &n); Truth const ct(2, &n); int i = 5; int const ci = 6; int * p = &i; std::unique_ptr<int> u(new int(3)); int * const raw = u.get();
    SEQ_CHECK(&S::assertReturn(t) == &t && &S::assertReturn(ct) == &ct && &S::assertReturn(i) == &i && &S::assertReturn(ci) == &ci && &S::assertReturn(p) == &p, "another object");
    SEQ_CHECK(n == 2, "asked %d times", n);
    static_assert(std::is_same<decltype(S::assertReturn(t)), Truth &>::value && std::is_same<decltype(S::assertReturn(ct)), Truth const &>::value && std::is_same<decltype(S::assertReturn(1)), int &&>::value, "another kind of reference");
    SEQ_CHECK(&S::assertReturn(u) == &u && u.get() == raw, "moved"); std::unique_ptr<int> v(S::assertReturn(std::move(u))); SEQ_CHECK(v.get() == raw && !u, "not moved"); SEQ_CHECK(S::assertReturn(7) == 7 && S::assertReturn(-1) == -1, "another value"); S::assertReturn(i) = 9; SEQ_CHECK(i == 9, "not assignable");
    SEQ_CHECK(!aborts([] { S::assertReturn(1); S::assertReturn(std::unique_ptr<int>(new int)); }), "a true value aborts");
    SEQ_CHECK(aborts([] { S::assertReturn(0); }), "0 passes"); SEQ_CHECK(aborts([] { S::assertReturn(static_cast<int *>(nullptr)); }), "a null pointer passes"); SEQ_CHECK(aborts([] { S::assertReturn(std::unique_ptr<int>()); }), "an empty pointer passes"); SEQ_CHECK(aborts([] { S::assertReturn(false); }), "false passes");
    seq::count(12);
}
} // namespace c49
SEQ_TEST(clocks, 0, 0) { c49::clocks(); }
SEQ_TEST(durations, 0, 0) { c49::durations(); }
SEQ_TEST(memory, 0, 0) { c49::memory(); }
SEQ_TEST(far_apart, 0, 0) { c49::farApart(); }
SEQ_TEST(pass_through, 0, 0) { c49::passThrough(); }
