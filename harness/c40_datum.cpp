// C40: loading a file under all short sequences of system-call outcomes; buffer histories.
// LIBS: -Wl,--wrap=open -Wl,--wrap=fstat -Wl,--wrap=read -Wl,--wrap=close
#include "seq.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <exception>
#include <memory>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <utility>
#include <vector>
#include <sharemind/Datum.h>

extern "C" int __real_open(char const *, int, ...); extern "C" int __real_fstat(int, struct stat *);
extern "C" ssize_t __real_read(int, void *, size_t); extern "C" int __real_close(int);
namespace {
using namespace sharemind;
struct K {
    bool on = false; int faults = 0; bool fd[4096] = {}; int opened = 0, closed = 0; int eintr = 0;
    int err = 0;      /* the error the load has to fail with, if any */
    bool eof = false; /* the file ended early */
    bool cloexec = true;
} k;
} // namespace

extern "C" int __wrap_open(char const * p, int f, ...) {
    va_list a; va_start(a, f); int const mode = va_arg(a, int); va_end(a);
    if (!k.on) return __real_open(p, f, mode);
    if (k.faults > 0) { static int const e[] = {0, EMFILE, EACCES}; int const c = seq::choose(3); if (c) { --k.faults; k.err = e[c]; seq::op("  open() fails with %d", e[c]); errno = e[c]; return -1; } }
    int const fd = __real_open(p, f, mode);
    if (fd < 0) { int const e = errno; k.err = e; errno = e; }
    else { SEQ_CHECK(fd < 4096, "harness: descriptors"); k.fd[fd] = true; ++k.opened; if (!(f & O_CLOEXEC)) k.cloexec = false; }
    return fd;
}
extern "C" int __wrap_fstat(int fd, struct stat * s) {
    if (k.on && k.faults > 0 && seq::flip()) { --k.faults; k.err = EIO; seq::op("  fstat() fails"); errno = EIO; return -1; }
    return __real_fstat(fd, s);
}
extern "C" ssize_t __wrap_read(int fd, void * b, size_t n) {
    if (!k.on) return __real_read(fd, b, n);
    SEQ_CHECK(fd >= 0 && fd < 4096 && k.fd[fd], "reads from descriptor %d which is not open", fd);
    struct stat s; __real_fstat(fd, &s); off_t const at = lseek(fd, 0, SEEK_CUR); size_t left = at < s.st_size ? size_t(s.st_size - at) : 0; if (left > n) left = n;
    /* 0: everything; 1: interrupted; 2: error; 3: end of file; 4..: fewer bytes */
    int const c = seq::choose(4 + (left > 1 ? int(left) - 1 : 0));
    if (c == 1 && k.eintr < 2) { ++k.eintr; seq::op("  read() is interrupted"); errno = EINTR; return -1; }
    if (c == 2 && k.faults > 0) { --k.faults; k.err = EIO; seq::op("  read() fails"); errno = EIO; return -1; }
    if (c == 3 && k.faults > 0 && left) { --k.faults; k.eof = true; seq::op("  read() reports the end of the file"); return 0; }
    if (c >= 4) left = size_t(c - 3);
    seq::op("  read(%zu) gives %zu", n, left);
    if (!left) { return 0; }
    return __real_read(fd, b, left);
}
extern "C" int __wrap_close(int fd) {
    if (!k.on) return __real_close(fd);
    SEQ_CHECK(fd >= 0 && fd < 4096 && k.fd[fd], "closes descriptor %d which it did not open", fd);
    k.fd[fd] = false; ++k.closed; __real_close(fd); errno = EBADF; return 0;
}

namespace {
/* Files without names: nothing to clean up, nothing outside to touch. */
std::string bytes(int n) { static char const c[] = "a\0\xff" "b\n\x80" "cdefghij"; return std::string(c, std::size_t(n)); }
int fileFds[8];
std::string file(int n) {
    if (!fileFds[n]) { int const fd = memfd_create("d", MFD_CLOEXEC); std::string const b = bytes(n); if (fd < 0 || ::write(fd, b.data(), b.size()) != ssize_t(b.size())) seq::fail("harness: no file"); fileFds[n] = fd; }
    char s[64]; std::snprintf(s, sizeof s, "/proc/self/fd/%d", fileFds[n]); return s;
}
void setup() { static bool const once = [] { for (int i = 0; i < 7; ++i) file(i); return true; }(); (void) once; k = K(); }
int openFds() { int n = 0; for (bool b : k.fd) n += b; return n; }
std::string content(Datum const & d) { return std::string(static_cast<char const *>(d.constData()), d.size()); }

enum Cause { None, Errno, Type, Changed, Alloc, Other };
struct R { bool ok = true; bool loadException = false; Cause cause = None; int err = 0; std::string what; };
template <typename F> R attempt(F && f) {
    R r;
    try { f(); } catch (Datum::LoadException const & e) {
        seq::disarmAllocFaults(); k.on = false; r.ok = false; r.loadException = true; r.what = e.what();
        try { std::rethrow_if_nested(e); }
        catch (ErrnoException const & c) { r.cause = Errno; r.err = c.errorNumber(); } catch (Datum::FileTypeNotSupportedException const &) { r.cause = Type; }
        catch (Datum::FileSizeChangedException const &) { r.cause = Changed; } catch (std::bad_alloc const &) { r.cause = Alloc; } catch (...) { r.cause = Other; }
    } catch (std::bad_alloc const &) { r.ok = false; r.cause = Alloc; }
    seq::disarmAllocFaults(); k.on = false; return r;
}
void judge(R const & r, Datum const & d, std::string const & expect, std::string const & before, int fired, std::string const & name, bool type) {
    SEQ_CHECK(openFds() == 0 && k.opened == k.closed, "%d descriptors are left open", openFds());
    SEQ_CHECK(k.cloexec, "a descriptor could leak into other programs");
    if (fired) { if (!r.ok) { SEQ_CHECK(content(d) == before, "a failed load changed the data"); return; } }
    if (type) { SEQ_CHECK(!r.ok && r.loadException && (k.err ? r.cause == Errno && r.err == k.err : r.cause == Type), "loading something else than a regular file"); }
    else if (k.err) SEQ_CHECK(!r.ok && r.loadException && r.cause == Errno && r.err == k.err, "error %d was reported as %s, cause %d, error %d", k.err, r.ok ? "success" : "a failure", int(r.cause), r.err);
    else if (k.eof) SEQ_CHECK(!r.ok && r.loadException && r.cause == Changed, "a file which ends early was %s, cause %d", r.ok ? "loaded" : "not reported properly", int(r.cause));
    else { SEQ_CHECK(r.ok, "a load without failures fails, cause %d", int(r.cause)); SEQ_CHECK(content(d) == expect, "loaded %zu bytes instead of %zu, or other ones", d.size(), expect.size()); return; }
    SEQ_CHECK(content(d) == before, "a failed load changed the data"); SEQ_CHECK(r.what.find(name) != std::string::npos, "the message does not name the file: %s", r.what.c_str());
}
std::uint64_t hashOf(std::string const & s) { std::uint64_t h = s.size(); for (unsigned char c : s) h = seq::mix(h, c); return h; }

SEQ_TEST(load, 4, 6) {
    setup(); int const n = seq::choose(seq::depth() + 1); bool const ctor = seq::flip(); k.faults = 1; k.on = true; std::string const name = file(n);
    std::unique_ptr<Datum> d; Datum old("xyz", 3u); std::string before = "xyz";
    R const r = attempt([&] { if (ctor) d.reset(new Datum(name)); else old.loadFromFile(name); });
    judge(r, d ? *d : old, bytes(n), before, 0, name, false); seq::state(hashOf(content(d ? *d : old)) + unsigned(r.cause) * 77u);
    seq::count(1);
}
SEQ_TEST(load_alloc, 0, 0) {
    setup(); int const n = seq::choose(4); k.faults = 0; std::string const name = file(n); Datum old("xyz", 3u);
    k.on = true; seq::armAllocFaults(1); int const before = seq::faultsFired();
    R const r = attempt([&] { old.loadFromFile(name); });
    judge(r, old, bytes(n), "xyz", seq::faultsFired() - before, name, false); seq::count(1);
}
SEQ_TEST(special, 0, 0) {
    static char const * const names[] = { "/", "/dev/null", "/dev/zero", "/proc/self/fd", "/nonexistent-file-of-the-harness", "" };
    setup(); int const i = seq::choose(6); k.faults = 1; k.on = true; Datum old("xyz", 3u); std::string const name = names[i];
    R const r = attempt([&] { old.loadFromFile(name); });
    judge(r, old, "", "xyz", 0, name, i < 4); seq::count(1);
}

void same(Datum & d, std::string const & m) {
    Datum const & c = d;
    SEQ_CHECK(d.size() == m.size() && d.empty() == m.empty(), "size %zu instead of %zu", d.size(), m.size());
    SEQ_CHECK(d.data() == c.constData() && static_cast<char *>(d.dataEnd()) - static_cast<char *>(d.data()) == std::ptrdiff_t(m.size()) && c.constDataEnd() == d.dataEnd(), "range of the data");
    SEQ_CHECK(content(d) == m, "other contents");
    SEQ_CHECK(m.empty() || std::memcmp(d.data(), m.data(), m.size()) == 0, "other contents");
    SEQ_CHECK(c.hash() == hash_value(c) && c.hash() == hashRawData(m.data(), m.size()), "hash"); seq::count(1);
}
SEQ_TEST(buffers, 3, 4) {
    setup(); std::unique_ptr<Datum> d[2] = { std::make_unique<Datum>(), std::make_unique<Datum>() }; std::string m[2];
    for (int s = 0; s < seq::depth(); ++s) {
        int const i = seq::choose(2), j = seq::choose(2); Datum & x = *d[i]; char const fresh = char(s + 'A');
        switch (seq::choose(12)) {
        case 0: { std::size_t const n = std::size_t(seq::choose(3)); if (j) { m[i].assign(n, fresh); d[i].reset(new Datum(n, fresh)); } else { m[i].assign(n, '\0'); d[i].reset(new Datum(n)); } } break;
        case 1: { std::string const b = bytes(seq::choose(3) + 2 * j); d[i].reset(new Datum(b.data(), b.size())); m[i] = b; } break;
        case 2: d[i].reset(new Datum(static_cast<Datum const &>(*d[j]))); m[i] = m[j]; break;
        case 3: { std::unique_ptr<Datum> n(new Datum(std::move(*d[j]))); SEQ_CHECK(content(*n) == m[j], "move"); std::string const t = m[j]; m[j] = content(*d[j]); d[i] = std::move(n); m[i] = t; } break;
        case 4: { Datum & r = (x = static_cast<Datum const &>(*d[j])); SEQ_CHECK(&r == &x, "assignment returns something else"); m[i] = m[j]; } break;
        case 5: if (i == j) return; { Datum & r = (x = std::move(*d[j])); SEQ_CHECK(&r == &x, "assignment returns something else"); m[i] = m[j]; m[j] = content(*d[j]); } break;
        case 6: { std::size_t const n = std::size_t(seq::choose(5)); if (j) { x.resize(n, fresh); m[i].resize(n, fresh); } else { x.resize(n); m[i].resize(n); } } break;
        case 7: { std::string const b = bytes(seq::choose(3) + 2 * j); x.assign(b.data(), b.size()); m[i] = b; } break;
        case 8: if (i != j) { x.assign(nullptr, 0u); m[i].clear(); } else { x.clear(); m[i].clear(); } break;
        case 9: if (m[i].empty()) return; { std::size_t const at = j ? m[i].size() - 1 : 0; static_cast<char *>(x.data())[at] = fresh; m[i][at] = fresh; } break;
        case 10: { int const n = j ? 3 : 0; x.loadFromFile(file(n)); m[i] = bytes(n); } break;
        case 11: if (j) return; try { x.loadFromFile("/"); seq::fail("loads a directory"); } catch (Datum::LoadException const &) {} break;
        }
        same(*d[0], m[0]); same(*d[1], m[1]); SEQ_CHECK((*d[0] == *d[1]) == (m[0] == m[1]) && (*d[0] != *d[1]) == (m[0] != m[1]), "comparison"); seq::state(seq::mix(hashOf(m[0]), hashOf(m[1])));
    }
}
/* Hashes of data: composed of pieces as documented by hashCombineRawData(). */
SEQ_TEST(hashes, 0, 0) {
    std::string const b = bytes(6); std::size_t const n = std::size_t(seq::choose(5)), at = std::size_t(seq::choose(int(n) + 1));
    SEQ_CHECK(hashCombineRawData(hashRawData(b.data(), at), b.data() + at, n - at) == hashRawData(b.data(), at, b.data() + at, n - at), "the hash of the pieces");
    for (HashValue seed : {HashValue(0), HashValue(1), HashValue(77777)}) SEQ_CHECK(hashCombineRawData(seed, b.data(), at, b.data() + at, n - at, b.data(), n) == hashCombineRawData(hashCombineRawData(hashCombineRawData(seed, b.data(), at), b.data() + at, n - at), b.data(), n), "combined hash of three pieces");
    { struct P { unsigned char c[20]; } p; std::memset(&p, 7, sizeof p); HashValue const h = hashRawData(&p, sizeof p); SEQ_CHECK(RawHasher()(p) == h && RawHasherT<P>()(p) == h, "raw hash of an object"); }
    std::string const c = b.substr(0, n); Datum const d(b.data(), n), e(c.data(), n); SEQ_CHECK(d.hash() == e.hash() && HashMemberCaller()(d) == d.hash() && HashMemberCallerT<Datum>()(d) == d.hash(), "hash of equal data");
    int const v = 0x01020304; SEQ_CHECK(RawHasher()(v) == hashRawData(&v, sizeof v) && RawHasherT<int>()(v) == hashRawData(&v, sizeof v), "raw hash"); seq::count(1);
}
/* Sizes beyond those whose histories are enumerated; a hash depends on every byte. */
SEQ_TEST(large, 0, 0) {
    static std::size_t const ns[] = { 1, 7, 8, 9, 15, 16, 17, 63, 64, 65, 128, 255, 256, 257, 1000, 4096, 4097, 65536, 70001, 1048577 }; std::size_t const n = ns[seq::choose(20)];
    setup(); std::string b(n, 0); for (std::size_t i = 0; i < n; ++i) b[i] = char(i * 37 + (i >> 8) * 11 + 5);
    Datum d(b.data(), n); same(d, b); Datum c(d); same(c, b); SEQ_CHECK(c == d && !(c != d), "equal data"); Datum e; e = d; same(e, b); Datum f(std::move(c)); same(f, b); Datum g(3u, 'x'); g = std::move(f); same(g, b);
    Datum h; h.assign(b.data(), n); same(h, b); h.resize(n + 3, 'z'); same(h, b + "zzz"); h.resize(n); same(h, b); Datum z(n, 'q'); same(z, std::string(n, 'q'));
    int const fd = memfd_create("d", MFD_CLOEXEC); SEQ_CHECK(fd >= 0, "harness"); for (std::size_t o = 0; o < n;) { ssize_t const w = ::write(fd, b.data() + o, n - o); if (w <= 0) seq::fail("harness: no file"); o += std::size_t(w); }
    { char name[64]; std::snprintf(name, sizeof name, "/proc/self/fd/%d", fd); Datum l((std::string(name))); same(l, b); Datum o("xyz", 3u); o.loadFromFile(name); same(o, b); } ::close(fd);
    for (std::size_t at : {std::size_t(0), std::size_t(1), n / 3, n / 2, n - n / 5 - 1, n - 2, n - 1}) { if (at >= n) continue; std::string t(b); bool differs = false, equal = false; for (int k = 1; k < 4; ++k) { t[at] = char(b[at] + k * 41); Datum const u(t.data(), n); differs |= u.hash() != d.hash(); equal |= u == d || !(u != d); } SEQ_CHECK(differs, "the hash of %zu bytes does not depend on byte %zu", n, at); SEQ_CHECK(!equal, "data which differ in byte %zu of %zu are equal", at, n); }
    { Datum const s(b.data(), n - 1); SEQ_CHECK(s != d && !(s == d), "a prefix is equal"); SEQ_CHECK(n < 2 || s.hash() != d.hash(), "the hash of %zu bytes does not depend on the last one", n); } seq::count(n);
}
} // namespace
