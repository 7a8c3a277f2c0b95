/* A simulated kernel for mc harnesses: pipes, epoll instances, plain descriptors
   and injected interruptions. Every call is one atomic step which can be
   preempted beforehand; descriptors below BASE go to the real kernel. */
#ifndef SIMKERNEL_H
#define SIMKERNEL_H
#include "mc.h"
#include <cerrno>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <fcntl.h>
#include <sched.h>
#include <sys/epoll.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim {
constexpr int BASE = 1000, NFD = 12, NFILE = 12, NITEM = 8;
enum Kind { FREE, PLAIN, PIPE_R, PIPE_W, EPOLL };
struct Item { bool used; int fd, file; std::uint32_t events; void * data; bool enabled; };
struct File { Kind kind; int refs; int peer; long bytes; std::uint32_t ready; Item items[NITEM]; bool foreign; };
struct Kernel {
    int fd[NFD]; bool cloexec[NFD]; File file[NFILE];
    bool faults;        /* inject EINTR (cost 1 each) */
    int failWait, failCtl, failPipe, failCreate; /* errno to fail with from then on */
    int emptyReads;     /* consecutive reads without data since the last wait */
    int waits, closes, writes;
    bool patient;       /* waits with a timeout do not time out */
};
static Kernel k;
/* A call is one atomic step, ordered with all other calls. */
struct Call { explicit Call(char const * what) { mc::sysPoint(&k, what); } ~Call() { mc::sysHb(&k); } };
static void reset() { k = Kernel(); for (int & f : k.fd) f = -1; }

static int newFile(Kind kind) { for (int i = 0; i < NFILE; ++i) if (k.file[i].kind == FREE) { k.file[i] = File(); k.file[i].kind = kind; k.file[i].peer = -1; return i; } mc::fail("harness: out of simulated files"); }
static int newFd(int file, bool cloexec, int from = 0) { for (int i = from; i < NFD; ++i) if (k.fd[i] < 0) { k.fd[i] = file; k.cloexec[i] = cloexec; ++k.file[file].refs; return BASE + i; } mc::fail("harness: out of simulated descriptors"); }
static File * get(int fd) { int const i = fd - BASE; if (i < 0 || i >= NFD || k.fd[i] < 0) return nullptr; return &k.file[k.fd[i]]; }
static int index(File * f) { return int(f - k.file); }
static void unref(int file) {
    File & f = k.file[file];
    if (--f.refs > 0) return;
    for (File & e : k.file) if (e.kind == EPOLL) for (Item & it : e.items) if (it.used && it.file == file) it.used = false;
    if (f.peer >= 0) k.file[f.peer].peer = -1;
    f.kind = FREE;
}
/* Also evaluated by the scheduler: not checked for races. */
#define SIM_QUIET __attribute__((no_sanitize_thread, noinline))
SIM_QUIET static std::uint32_t readiness(File const & f) {
    if (f.kind == PIPE_R) return (f.bytes ? EPOLLIN : 0u) | (f.peer < 0 ? EPOLLHUP : 0u);
    if (f.kind == PIPE_W) return EPOLLOUT;
    return f.ready;
}
SIM_QUIET static std::uint32_t pending(Item const & it) {
    if (!it.used || !it.enabled) return 0;
    return readiness(k.file[it.file]) & (it.events | EPOLLERR | EPOLLHUP);
}
SIM_QUIET static bool anyPending(void * e) { for (Item const & it : static_cast<File *>(e)->items) if (pending(it)) return true; return false; }
static int err(int e) { errno = e; return -1; }
static bool interrupted() { return k.faults && mc::choose(2, 1, "EINTR"); }

/* Harness side: */
static int open(bool foreign = false) { Call const call("open"); int const f = newFile(PLAIN); k.file[f].foreign = foreign; return newFd(f, true); }
static void signal(int fd, std::uint32_t ev) { Call const call("descriptor becomes ready"); get(fd)->ready |= ev; }
static void clear(int fd, std::uint32_t ev = ~0u) { Call const call("descriptor becomes idle"); get(fd)->ready &= ~ev; }
static void failWaits(int e) { Call const call("epoll_wait() starts failing"); k.failWait = e; }
static void injectFaults(bool f) { Call const call("interruptions"); k.faults = f; }
static bool allCloexec() { Call const call("close-on-exec?"); for (int i = 0; i < NFD; ++i) if (k.fd[i] >= 0 && !k.cloexec[i]) return false; return true; }
static int openFds() { Call const call("count"); int n = 0; for (int f : k.fd) n += f >= 0; return n; }
} // namespace sim

extern "C" {
int pipe2(int * fds, int flags) {
    using namespace sim;
    Call const call("pipe2");
    if (interrupted()) return err(EINTR);
    if (k.failPipe) return err(k.failPipe);
    MC_CHECK((flags & O_NONBLOCK) && (flags & O_CLOEXEC), "pipe is not non-blocking and close-on-exec");
    int const r = newFile(PIPE_R), w = newFile(PIPE_W);
    k.file[r].peer = w; k.file[w].peer = r;
    fds[0] = newFd(r, true); fds[1] = newFd(w, true);
    return 0;
}
int close(int fd) {
    using namespace sim;
    if (fd >= 0 && fd < BASE) return int(syscall(SYS_close, fd));
    Call const call("close");
    File * f = get(fd);
    MC_CHECK(f, "closes descriptor %d which is not open", fd);
    MC_CHECK(!f->foreign, "closes descriptor %d which is not its own", fd);
    ++k.closes;
    k.fd[fd - BASE] = -1;
    unref(index(f));
    return 0;
}
int dup3(int from, int to, int flags) {
    using namespace sim;
    Call const call("dup3");
    if (interrupted()) return err(EINTR);
    File * f = get(from), * t = get(to);
    if (!f) return err(EBADF);
    if (from == to) return err(EINVAL);
    MC_CHECK(!t || !t->foreign, "replaces descriptor %d which is not its own", to);
    int const file = index(f);
    ++f->refs;
    if (t) unref(index(t));
    k.fd[to - BASE] = file; k.cloexec[to - BASE] = flags & O_CLOEXEC;
    return to;
}
int dup2(int from, int to) { return from == to ? to : dup3(from, to, 0); }
ssize_t write(int fd, void const * p, size_t n) {
    using namespace sim;
    if (fd >= 0 && fd < BASE) return syscall(SYS_write, fd, p, n);
    bool full = false;
    { Call const call("write");
    ++k.writes;
    if (interrupted()) return err(EINTR);
    File * f = get(fd);
    MC_CHECK(!f || !f->foreign, "writes to descriptor %d which is not its own", fd);
    if (!f || f->kind == PIPE_R) return err(EBADF);
    if (f->kind != PIPE_W) return ssize_t(n);
    if (f->peer < 0) return err(EPIPE);
    File & r = k.file[f->peer];
    if (r.bytes >= 65536) full = true;
    else {
    ssize_t const w = ssize_t(n) < 65536 - r.bytes ? ssize_t(n) : 65536 - r.bytes;
    r.bytes += w;
    return w;
    } }
    if (full) sched_yield(); /* fairness: whoever retries lets the reader run */
    return err(EAGAIN);
}
ssize_t read(int fd, void * p, size_t n) {
    using namespace sim;
    if (fd >= 0 && fd < BASE) return syscall(SYS_read, fd, p, n);
    Call const call("read");
    if (interrupted()) return err(EINTR);
    File * f = get(fd);
    if (!f || f->kind != PIPE_R) return err(EBADF);
    if (!f->bytes) {
        if (f->peer < 0) return 0;
        MC_CHECK(++k.emptyReads < 3, "spins on a pipe without data");
        return err(EAGAIN);
    }
    long const r = long(n) < f->bytes ? long(n) : f->bytes;
    f->bytes -= r;
    for (long i = 0; i < r; ++i) static_cast<char *>(p)[i] = '\0';
    return r;
}
int epoll_create1(int flags) {
    using namespace sim;
    Call const call("epoll_create1");
    if (k.failCreate) return err(k.failCreate);
    MC_CHECK(flags & EPOLL_CLOEXEC, "epoll instance is not close-on-exec");
    return newFd(newFile(EPOLL), true);
}
int epoll_ctl(int e, int op, int fd, epoll_event * ev) noexcept {
    using namespace sim;
    Call const call("epoll_ctl");
    if (interrupted()) return err(EINTR);
    File * ep = get(e), * f = get(fd);
    MC_CHECK(ep && ep->kind == EPOLL, "epoll_ctl() on something else");
    if (k.failCtl) return err(k.failCtl);
    if (!f) return err(EBADF);
    Item * item = nullptr, * unused = nullptr;
    for (Item & it : ep->items) { if (it.used && it.fd == fd && it.file == index(f)) item = &it; else if (!it.used) unused = &it; }
    switch (op) {
    case EPOLL_CTL_ADD:
        if (item) return err(EEXIST);
        MC_CHECK(unused, "harness: too many epoll items");
        *unused = Item{true, fd, index(f), ev->events, ev->data.ptr, true};
        return 0;
    case EPOLL_CTL_MOD:
        if (!item) return err(ENOENT);
        item->events = ev->events; item->data = ev->data.ptr; item->enabled = true;
        return 0;
    case EPOLL_CTL_DEL:
        if (!item) return err(ENOENT);
        item->used = false;
        return 0;
    default: return err(EINVAL);
    }
}
int epoll_wait(int e, epoll_event * ev, int max, int timeout) {
    using namespace sim;
    Call const call("epoll_wait");
    k.emptyReads = 0; ++k.waits;
    if (interrupted()) return err(EINTR);
    File * ep = get(e);
    MC_CHECK(ep && ep->kind == EPOLL, "epoll_wait() on something else");
    if (k.failWait) return err(k.failWait);
    mc::sysHb(&k);
    if (timeout < 0 || k.patient) mc::blockUntil(&anyPending, ep, "epoll_wait");
    else mc::blockUntilTimed(&anyPending, ep, mc::nowNs() + std::int64_t(timeout) * 1000000, "epoll_wait");
    mc::sysHb(&k);
    if (k.failWait) return err(k.failWait);
    int cnt = 0; Item * pend[NITEM];
    for (Item & it : ep->items) if (pending(it)) pend[cnt++] = &it;
    if (!cnt) return 0;
    int const first = cnt > 1 ? mc::choose(cnt, 1, "first event") : 0;
    int n = 0;
    for (int i = 0; i < cnt && n < max; ++i) {
        Item & it = *pend[(first + i) % cnt];
        ev[n].events = pending(it); ev[n].data.ptr = it.data; ++n;
        if (it.events & EPOLLONESHOT) it.enabled = false;
    }
    return n;
}
} // extern "C"
#endif
