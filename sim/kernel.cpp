// The simulated kernel: descriptors, pipes, epoll and files.
// Simulated threads only; anything else goes to the real system call.
#include "rt.h"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <fcntl.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {
namespace rt {

bool eintrOn(); bool shortOn(); bool eioOn(); void sysFired();
void armTimer(Thread * t, u64 deadline);
bool timerExpired(Thread * t);

enum { FD0 = 1000, MAXFD = 1024, MAXOFD = 512, MAXREG = 192, MAXFILE = 8 };
enum Type { T_FREE, T_PIPE_R, T_PIPE_W, T_EPOLL, T_FILE, T_EVENT };

struct PipeBuf { char * data; std::size_t cap, head, len; int readers, writers; Sync s; };
struct File { char path[128]; char const * data; std::size_t size; bool regular; std::size_t truncAt, truncTo; bool trunc; };
struct Ofd;
struct Reg { int fd; Ofd * ofd; u32 events; epoll_data_t data; bool used; u64 order; };
struct Ofd {
    Type type; int refs; int id; int flags;
    PipeBuf * pipe; File * file; std::size_t pos;
    Reg * reg; Sync s; u64 totalRead; bool rdhup; int bad; u64 count; bool semaphore;
};
struct Fd { Ofd * o; bool cloexec; bool harness; bool everOpen; };
static Fd g_fd[MAXFD]; static int g_nfd;
static Ofd g_ofd[MAXOFD]; static int g_nofd;
static File g_files[MAXFILE]; static int g_nfiles;
static u64 g_regOrder;
static int g_zero; // which descriptor is numbered 0 (-1: none): standard input may have been closed before

static unsigned g_waitFailures;
static unsigned g_inheritable;
void kernelReset() { g_waitFailures = g_inheritable = 0; g_nfd = 0; g_zero = -1; g_nofd = 0; g_nfiles = 0; g_regOrder = 0; }

static Ofd * newOfd(Type t) {
    if (g_nofd >= MAXOFD) fail("resource-exhaustion", "more than %d open file descriptions were created in one run", int(MAXOFD));
    Ofd * o = &g_ofd[g_nofd]; std::memset(static_cast<void *>(o), 0, sizeof *o);
    o->type = t; o->id = ++g_nofd;
    return o;
}
static int newFd(Ofd * o, bool cloexec, bool harness) {
    if (g_nfd >= MAXFD) fail("resource-exhaustion", "more than %d descriptors were created in one run", int(MAXFD));
    Fd & f = g_fd[g_nfd]; f.o = o; f.cloexec = cloexec; f.harness = harness; f.everOpen = true;
    g_inheritable += !harness && !cloexec;
    ++o->refs;
    if (g_nfd == 0 && pick(WORK, 4) == 3) g_zero = static_cast<int>(pick(WORK, 8));
    int const i = g_nfd++;
    return i == g_zero ? 0 : FD0 + i;
}
static int indexOf(int fd) { return fd == 0 ? (g_zero < g_nfd ? g_zero : -1) : fd >= FD0 && fd < FD0 + g_nfd && fd - FD0 != g_zero ? fd - FD0 : -1; }
static Fd * fdAt(int fd) { int const i = indexOf(fd); return i >= 0 && g_fd[i].o ? &g_fd[i] : nullptr; }
static bool wasOpen(int fd) { int const i = indexOf(fd); return i >= 0 && !g_fd[i].o; }

static u32 pollMask(Ofd * o) {
    u32 m = 0;
    if (o->type == T_PIPE_R) {
        if (o->pipe->len) m |= EPOLLIN | EPOLLRDNORM;
        if (!o->pipe->writers) m |= EPOLLHUP;
        if (o->rdhup) m |= EPOLLIN | EPOLLRDNORM | EPOLLRDHUP;
    } else if (o->type == T_PIPE_W) {
        if (o->pipe->len < o->pipe->cap) m |= EPOLLOUT | EPOLLWRNORM;
        if (!o->pipe->readers) m |= EPOLLERR;
    } else if (o->type == T_EVENT) {
        if (o->count) m |= EPOLLIN | EPOLLRDNORM;
        if (o->count < ~u64(1)) m |= EPOLLOUT | EPOLLWRNORM;
    }
    return m;
}
static u32 regReady(Reg & r) {
    // A registration disarmed by ONESHOT reports nothing, not even errors.
    if (!r.used || !(r.events & ~(EPOLLONESHOT | EPOLLET))) return 0;
    return pollMask(r.ofd) & r.events;
}
bool epollReady(Thread * t) {
    Ofd * o = static_cast<Ofd *>(t->wobj);
    if (t->wint < 0) return pollMask(o) != 0; // blocking pipe I/O
    for (int i = 0; i < MAXREG; ++i) if (regReady(o->reg[i])) return true;
    return false;
}
static void dropOfd(Ofd * o) {
    if (--o->refs) return;
    // The kernel removes a closed description from every epoll set.
    for (int i = 0; i < g_nofd; ++i)
        if (g_ofd[i].type == T_EPOLL && g_ofd[i].reg)
            for (int k = 0; k < MAXREG; ++k)
                if (g_ofd[i].reg[k].used && g_ofd[i].reg[k].ofd == o) g_ofd[i].reg[k].used = false;
    if (o->type == T_PIPE_R) o->pipe->readers--;
    else if (o->type == T_PIPE_W) o->pipe->writers--;
    o->type = T_FREE;
}
static void makePipe2(int * fds, int flags, bool harness) {
    PipeBuf * p = static_cast<PipeBuf *>(rtAlloc(sizeof(PipeBuf)));
    p->cap = harness || !config.pipeCap ? 65536 : config.pipeCap; p->data = static_cast<char *>(rtAlloc(p->cap));
    p->readers = p->writers = 1;
    Ofd * r = newOfd(T_PIPE_R); r->pipe = p; r->flags = O_RDONLY | (flags & O_NONBLOCK);
    Ofd * w = newOfd(T_PIPE_W); w->pipe = p; w->flags = O_WRONLY | (flags & O_NONBLOCK);
    fds[0] = newFd(r, flags & O_CLOEXEC, harness);
    fds[1] = newFd(w, flags & O_CLOEXEC, harness);
}
static bool transient(char const * what, bool again = false) {
    if (!eintrOn()) return false;
    u32 const v = faultPick(F_EINTR, again ? 4 : 2, 70);
    if (!v) return false;
    errno = v == 3 ? EAGAIN : EINTR;
    tracef(v == 3 ? "%s: try again (EAGAIN)" : "%s is interrupted (EINTR)", what);
    return true;
}
static bool permanent(char const * what, int const * list, u32 n) {
    if (!self->sysScope || !eioOn()) return false;
    u32 const v = faultPick(F_EIO, n + 1, 110);
    if (!v) return false;
    errno = list[v - 1]; self->sysErr = errno; sysFired();
    tracef("%s fails permanently, errno %d", what, errno);
    return true;
}
void kernelEndChecks() {
    for (int i = 0; i < g_nfd; ++i)
        if (g_fd[i].o && !g_fd[i].harness)
            fail("fd-leak", "descriptor %d (description %d) is still open at the end", i == g_zero ? 0 : FD0 + i, g_fd[i].o->id);
}
static ssize_t pipeRead(Ofd * o, char * b, std::size_t n) {
    PipeBuf * p = o->pipe;
    if (!p->len) return p->writers ? -2 : 0;
    std::size_t k = p->len < n ? p->len : n;
    for (std::size_t i = 0; i < k; ++i) b[i] = p->data[(p->head + i) % p->cap];
    p->head = (p->head + k) % p->cap; p->len -= k;
    return static_cast<ssize_t>(k);
}
static ssize_t pipeWrite(Ofd * o, char const * b, std::size_t n) {
    PipeBuf * p = o->pipe;
    if (!p->readers) return -3;
    std::size_t const sp = p->cap - p->len;
    if (!sp || (n <= 4096 && n > sp)) return -2;
    std::size_t k = n < sp ? n : sp;
    for (std::size_t i = 0; i < k; ++i) p->data[(p->head + p->len + i) % p->cap] = b[i];
    p->len += k;
    return static_cast<ssize_t>(k);
}
static bool badFd(int fd, char const * op) {
    if (fdAt(fd)) return false;
    if (wasOpen(fd)) fail("use-after-close", "%s on descriptor %d which was already closed", op, fd);
    errno = EBADF;
    return true;
}
static void blockOn(Ofd * o) { self->wk = W_EPOLL; self->wobj = o; self->wint = -1; self->timed = false; blockSelf(); }

static ssize_t eventRead(int fd, Ofd * o, char * buf, std::size_t n, void const * pc) {
    if (n < 8) { errno = EINVAL; return -1; }
    if (transient("read", o->flags & O_NONBLOCK)) return -1;
    if (!self->oracle) accessRange(buf, 8, true, pc);
    while (!o->count) {
        if (o->flags & O_NONBLOCK) { errno = EAGAIN; spinHint(static_cast<u64>(fd), 0); return -1; }
        blockOn(o);
    }
    u64 const v = o->semaphore ? 1 : o->count;
    o->count -= v;
    std::memcpy(buf, &v, 8);
    acquireFrom(o->pipe->s);
    progress(); hashIn(v);
    tracef("read(%d) takes %llu", fd, (unsigned long long) v);
    return 8;
}
static ssize_t eventWrite(int fd, Ofd * o, char const * buf, std::size_t n, void const * pc) {
    u64 v;
    if (n < 8) { errno = EINVAL; return -1; }
    if (!self->oracle) accessRange(buf, 8, false, pc);
    std::memcpy(&v, buf, 8);
    if (v == ~u64(0)) { errno = EINVAL; return -1; }
    if (transient("write")) return -1;
    while (o->count > ~u64(1) - v) {
        if (o->flags & O_NONBLOCK) { errno = EAGAIN; spinHint(static_cast<u64>(fd), 1); return -1; }
        blockOn(o);
    }
    o->count += v;
    releaseTo(o->pipe->s);
    progress();
    tracef("write(%d) adds %llu", fd, (unsigned long long) v);
    return 8;
}
static ssize_t doRead(int fd, char * buf, std::size_t n, bool pos, std::size_t at, void const * pc) {
    schedPoint(40, static_cast<u64>(fd));
    if (badFd(fd, "read")) return -1;
    Ofd * o = fdAt(fd)->o;
    if (o->type == T_EVENT) return eventRead(fd, o, buf, n, pc);
    if (o->type != T_PIPE_R && o->type != T_FILE) { errno = EBADF; return -1; }
    static int const errs[] = { EIO, EISDIR };
    // A disk that fails to read keeps failing: trying again does not help.
    if (o->bad) { errno = self->sysErr = o->bad; tracef("read(%d) fails again", fd); return -1; }
    if (permanent("read", errs, 2)) { if (o->type == T_FILE) o->bad = errno; return -1; }
    if (transient("read", o->type == T_PIPE_R && o->flags & O_NONBLOCK)) return -1;
    if (n && !self->oracle) accessRange(buf, n, true, pc);
    if (o->type == T_FILE) {
        File * f = o->file;
        if (f->trunc && o->totalRead >= f->truncAt) { f->size = f->truncTo; f->trunc = false; tracef("file is changed concurrently, new size %zu", f->size); }
        std::size_t const p = pos ? at : o->pos;
        std::size_t k = p < f->size ? f->size - p : 0;
        if (k > n) k = n;
        if (k > 1 && shortOn()) { u32 const v = faultPick(F_SHORTIO, 4, 300); if (v) { k = v == 1 ? 1 : v == 2 ? (k + 1) / 2 : k - 1; tracef("short read"); } }
        std::memcpy(buf, f->data + p, k);
        if (!pos) o->pos += k;
        o->totalRead += k;
        hashIn(k); progress();
        tracef("read(%d, %zu) = %zu", fd, n, k);
        return static_cast<ssize_t>(k);
    }
    if (n > 1 && o->pipe->len > 1 && shortOn()) { u32 const v = faultPick(F_SHORTIO, 3, 200); if (v) n = v == 1 ? 1 : (n + 1) / 2; }
    ssize_t r;
    while ((r = pipeRead(o, buf, n)) == -2) {
        if (o->rdhup) { r = 0; break; }
        if (o->flags & O_NONBLOCK) { errno = EAGAIN; spinHint(static_cast<u64>(fd), 0); tracef("read(%d) EAGAIN", fd); return -1; }
        blockOn(o);
    }
    acquireFrom(o->pipe->s);
    progress(); hashIn(static_cast<u64>(r));
    tracef("read(%d) = %zd", fd, r);
    return r;
}
static ssize_t doWrite(int fd, char const * buf, std::size_t n, void const * pc) {
    schedPoint(41, static_cast<u64>(fd));
    if (badFd(fd, "write")) return -1;
    Ofd * o = fdAt(fd)->o;
    if (o->type == T_EVENT) return eventWrite(fd, o, buf, n, pc);
    if (o->type != T_PIPE_W) { errno = EBADF; return -1; }
    static int const errs[] = { EIO, ENOSPC };
    if (permanent("write", errs, 2) || transient("write")) return -1;
    if (eintrOn() && (o->flags & O_NONBLOCK) && faultPick(F_EINTR, 2, 40)) { errno = EAGAIN; tracef("write(%d): pipe momentarily full (EAGAIN)", fd); return -1; }
    if (n && !self->oracle) accessRange(buf, n, false, pc);
    if (n > 1 && shortOn()) { u32 const v = faultPick(F_SHORTIO, 3, 200); if (v) n = v == 1 ? 1 : (n + 1) / 2; }
    ssize_t r;
    while ((r = pipeWrite(o, buf, n)) == -2) {
        if (o->flags & O_NONBLOCK) { errno = EAGAIN; spinHint(static_cast<u64>(fd), 1); return -1; }
        blockOn(o);
    }
    if (r == -3) { errno = EPIPE; tracef("write(%d) EPIPE", fd); return -1; }
    releaseTo(o->pipe->s);
    progress();
    tracef("write(%d) = %zd", fd, r);
    return r;
}
static int doClose(int fd) {
    schedPoint(42, static_cast<u64>(fd));
    Fd * f = fdAt(fd);
    if (!f) {
        if (fd >= 0) fail("double-close", "close(%d): descriptor %s", fd, wasOpen(fd) ? "was already closed" : "does not belong to the caller");
        errno = EBADF; return -1;
    }
    Ofd * o = f->o;
    if (o->pipe) releaseTo(o->pipe->s);
    f->o = nullptr;
    dropOfd(o);
    progress();
    tracef("close(%d)", fd);
    if (self->sysScope && eioOn()) { // Linux: the descriptor is gone whatever close() returns
        u32 const v = faultPick(F_EIO, 3, 60);
        if (v) { errno = v == 1 ? EIO : EINTR; tracef("close(%d) reports errno %d", fd, errno); return -1; }
    }
    return 0;
}
static int doOpen(char const * path, int flags) {
    schedPoint(43, 0);
    static int const errs[] = { EMFILE, EACCES, ENOMEM };
    if (permanent("open", errs, 3)) return -1;
    if (self->sysScope && transient("open")) { self->sysErr = EINTR; sysFired(); return -1; }
    for (int i = 0; i < g_nfiles; ++i)
        if (!std::strcmp(g_files[i].path, path)) {
            if ((flags & O_ACCMODE) != O_RDONLY || flags & O_TRUNC) { errno = EACCES; return -1; } // read-only files
            Ofd * o = newOfd(T_FILE); o->file = &g_files[i]; o->flags = flags & O_ACCMODE;
            int const fd = newFd(o, flags & O_CLOEXEC, false);
            progress();
            tracef("open(%s) = %d", path, fd);
            return fd;
        }
    errno = ENOENT;
    return -1;
}
static int doFstat(int fd, struct stat * st) {
    schedPoint(44, static_cast<u64>(fd));
    if (badFd(fd, "fstat")) return -1;
    static int const errs[] = { EIO, ENOMEM };
    if (permanent("fstat", errs, 2)) return -1;
    Ofd * o = fdAt(fd)->o;
    std::memset(st, 0, sizeof *st);
    if (o->type == T_FILE) { st->st_mode = (o->file->regular ? S_IFREG : S_IFCHR) | 0644; st->st_size = o->file->regular ? static_cast<off_t>(o->file->size) : 0; st->st_blksize = 4096; st->st_nlink = 1; }
    else st->st_mode = S_IFIFO | 0600;
    return 0;
}
static int doFcntl(int fd, int cmd, long arg) {
    schedPoint(45, static_cast<u64>(fd));
    if (badFd(fd, "fcntl")) return -1;
    static int const errs[] = { EMFILE, EPERM };
    if (permanent("fcntl", errs, 2) || transient("fcntl", true)) return -1;
    Fd * f = fdAt(fd);
    switch (cmd) {
    case F_DUPFD: case F_DUPFD_CLOEXEC: {
        if (arg < 0) { errno = EINVAL; return -1; }
        int const r = newFd(f->o, cmd == F_DUPFD_CLOEXEC, false);
        progress();
        tracef("fcntl(%d, F_DUPFD%s) = %d", fd, cmd == F_DUPFD_CLOEXEC ? "_CLOEXEC" : "", r);
        return r;
    }
    case F_GETFD: return f->cloexec ? FD_CLOEXEC : 0;
    case F_SETFD: f->cloexec = arg & FD_CLOEXEC; progress(); return 0;
    case F_GETFL: return f->o->flags;
    case F_SETFL: f->o->flags = static_cast<int>((f->o->flags & O_ACCMODE) | (arg & (O_APPEND | O_NONBLOCK | O_ASYNC | O_DIRECT | O_NOATIME))); progress(); return 0;
    default: errno = EINVAL; return -1;
    }
}
static int doEpollCtl(int ep, int op, int fd, struct epoll_event * ev) {
    schedPoint(46, static_cast<u64>(ep) << 12 | static_cast<u64>(fd & 4095));
    if (badFd(ep, "epoll_ctl")) return -1;
    Ofd * e = fdAt(ep)->o;
    Fd * f = fdAt(fd);
    if (!f) { errno = EBADF; return -1; }
    if (e->type != T_EPOLL || fd == ep) { errno = EINVAL; return -1; }
    if (f->o->type == T_FILE) { errno = EPERM; return -1; }
    static int const errs[] = { ENOMEM, ENOSPC };
    if ((op == EPOLL_CTL_ADD && permanent("epoll_ctl", errs, 2)) || transient("epoll_ctl", true)) return -1;
    Reg * r = nullptr; Reg * fr = nullptr;
    for (int i = 0; i < MAXREG; ++i) {
        if (e->reg[i].used) { if (e->reg[i].fd == fd && e->reg[i].ofd == f->o) r = &e->reg[i]; }
        else if (!fr) fr = &e->reg[i];
    }
    char const * nm;
    switch (op) {
    case EPOLL_CTL_ADD:
        if (r) { errno = EEXIST; return -1; }
        if (!fr) { errno = ENOSPC; return -1; }
        fr->used = true; fr->fd = fd; fr->ofd = f->o; fr->events = ev->events | EPOLLERR | EPOLLHUP; fr->data = ev->data; fr->order = ++g_regOrder;
        nm = "ADD";
        break;
    case EPOLL_CTL_MOD:
        if (!r) { errno = ENOENT; return -1; }
        r->events = ev->events | EPOLLERR | EPOLLHUP; r->data = ev->data;
        nm = "MOD";
        break;
    case EPOLL_CTL_DEL:
        if (!r) { errno = ENOENT; return -1; }
        r->used = false;
        nm = "DEL";
        break;
    default: errno = EINVAL; return -1;
    }
    // Both this and the fetch of events happen under the kernel's epoll mutex.
    acquireFrom(e->s); releaseTo(e->s);
    progress();
    tracef("epoll_ctl(%s, fd %d, events %x)", nm, fd, ev ? ev->events : 0);
    return 0;
}
static int doEpollWait(int ep, struct epoll_event * evs, int maxev, int timeout, void const * pc) {
    schedPoint(47, static_cast<u64>(ep));
    if (badFd(ep, "epoll_wait")) return -1;
    Ofd * e = fdAt(ep)->o;
    if (e->type != T_EPOLL || maxev <= 0) { errno = EINVAL; return -1; }
    static int const errs[] = { EINVAL, EFAULT };
    if (config.waitFaults) { self->sysScope++; bool const f = permanent("epoll_wait", errs, 2); self->sysScope--; if (f) { ++g_waitFailures; return -1; } }
    else if (permanent("epoll_wait", errs, 2)) { ++g_waitFailures; return -1; }
    if (transient("epoll_wait", true)) return -1;
    bool timed = timeout >= 0;
    u64 const deadline = g_now + static_cast<u64>(timeout < 0 ? 0 : timeout) * 1000000ull;
    for (;;) {
        Reg * rd[MAXREG]; u32 n = 0;
        for (int i = 0; i < MAXREG; ++i) if (regReady(e->reg[i])) rd[n++] = &e->reg[i];
        if (n) {
            for (u32 i = 1; i < n; ++i) // registration order, then permute
                for (u32 k = i; k > 0 && rd[k]->order < rd[k - 1]->order; --k) { Reg * x = rd[k]; rd[k] = rd[k - 1]; rd[k - 1] = x; }
            if (faultsOn()) for (u32 i = 0; i + 1 < n; ++i) { u32 const k = i + pick(FAULT, n - i); Reg * x = rd[k]; rd[k] = rd[i]; rd[i] = x; }
            u32 m = n < static_cast<u32>(maxev) ? n : static_cast<u32>(maxev);
            if (m > 1) { u32 const v = faultPick(F_PARTIAL, m, 150); if (v) { m = v; tracef("only %u of %u ready events are reported", m, n); } }
            if (!self->oracle) accessRange(evs, m * sizeof *evs, true, pc);
            for (u32 i = 0; i < m; ++i) {
                evs[i].events = regReady(*rd[i]);
                evs[i].data = rd[i]->data;
                hashIn(static_cast<u64>(rd[i]->fd) << 16 | (evs[i].events & 0xffff));
                tracef("epoll_wait: fd %d events %x", rd[i]->fd, evs[i].events);
                if (rd[i]->ofd->pipe) acquireFrom(rd[i]->ofd->pipe->s);
                if (rd[i]->events & EPOLLONESHOT) rd[i]->events &= EPOLLONESHOT | EPOLLET | EPOLLEXCLUSIVE | EPOLLWAKEUP;
            }
            acquireFrom(e->s); releaseTo(e->s);
            progress();
            return static_cast<int>(m);
        }
        if (timeout == 0) return 0;
        self->wk = W_EPOLL; self->wobj = e; self->wint = 0; self->timed = false;
        if (timed) armTimer(self, deadline);
        blockSelf();
        bool const ex = timed && timerExpired(self);
        self->timed = false;
        acquireFrom(e->s);
        if (!fdAt(ep)) fail("use-after-close", "the epoll descriptor was closed during epoll_wait");
        bool any = false;
        for (int i = 0; i < MAXREG; ++i) if (regReady(e->reg[i])) any = true;
        if (!any && ex) { progress(); hashIn(0); return 0; }
    }
}
} // namespace rt

using namespace rt;

namespace kernel {
void addFile(char const * path, void const * data, std::size_t size, bool regular) {
    RtGuard g;
    if (g_nfiles >= MAXFILE) fail("error", "too many files");
    File & f = g_files[g_nfiles++];
    std::memset(&f, 0, sizeof f);
    std::strncpy(f.path, path, sizeof f.path - 1);
    char * d = static_cast<char *>(rtAlloc(size + 1));
    if (size) std::memcpy(d, data, size);
    f.data = d; f.size = size; f.regular = regular;
}
void truncateAfter(char const * path, std::size_t n, std::size_t newSize) {
    RtGuard g;
    for (int i = 0; i < g_nfiles; ++i)
        if (!std::strcmp(g_files[i].path, path)) { g_files[i].trunc = true; g_files[i].truncAt = n; g_files[i].truncTo = newSize < g_files[i].size ? newSize : g_files[i].size; }
}
void makePipe(int fds[2]) { RtGuard g; makePipe2(fds, O_NONBLOCK | O_CLOEXEC, true); }
int rawWrite(int fd, void const * p, std::size_t n) {
    RtGuard g; Fd * f = fdAt(fd); if (!f) return -1;
    int const r = static_cast<int>(pipeWrite(f->o, static_cast<char const *>(p), n));
    if (r > 0) { releaseTo(f->o->pipe->s); progress(); tracef("harness writes %d bytes to %d", r, fd); }
    return r;
}
int rawRead(int fd, void * p, std::size_t n) {
    RtGuard g; Fd * f = fdAt(fd); if (!f) return -1;
    int const r = static_cast<int>(pipeRead(f->o, static_cast<char *>(p), n));
    acquireFrom(f->o->pipe->s); if (r > 0) progress();
    return r;
}
void rawClose(int fd) {
    RtGuard g; Fd * f = fdAt(fd); if (!f) return;
    Ofd * o = f->o; if (o->pipe) releaseTo(o->pipe->s); f->o = nullptr; dropOfd(o); progress();
    tracef("harness closes %d", fd);
}
void shutdownPeer(int fd) { RtGuard g; Fd * f = fdAt(fd); if (f) { f->o->rdhup = true; releaseTo(f->o->pipe->s); progress(); tracef("peer of %d shuts down writing", fd); } }
void adopt(int fd) { RtGuard g; Fd * f = fdAt(fd); if (f) f->harness = false; }
bool isOpen(int fd) { return fdAt(fd) != nullptr; }
unsigned openCount() { unsigned n = 0; for (int i = 0; i < g_nfd; ++i) n += g_fd[i].o && !g_fd[i].harness; return n; }
unsigned openAll() { unsigned n = 0; for (int i = 0; i < g_nfd; ++i) n += g_fd[i].o != nullptr; return n; }
bool dataPending(int fd) { Fd * f = fdAt(fd); return f && f->o->pipe && f->o->pipe->len; }
unsigned waitFailures() { return g_waitFailures; }
unsigned inheritable() { return g_inheritable; }
int fdOrigin(int fd) { Fd * f = fdAt(fd); return f ? f->o->id : -1; }
bool cloexec(int fd) { Fd * f = fdAt(fd); return f && f->cloexec; }
int statusFlags(int fd) { Fd * f = fdAt(fd); return f ? f->o->flags : -1; }
} // namespace kernel
} // namespace sim

using namespace sim;
using namespace sim::rt;
#define PC __builtin_return_address(0)
#define LIVE (self && !t_rt && !self->oracle)
namespace sim { namespace rt { bool isRunning(); } }

extern "C" {
int pipe2(int * fds, int flags) {
    if (!LIVE) return static_cast<int>(::syscall(SYS_pipe2, fds, flags));
    RtGuard g;
    schedPoint(48, 0);
    static int const errs[] = { EMFILE, ENFILE };
    if (permanent("pipe2", errs, 2) || transient("pipe2", true)) return -1;
    makePipe2(fds, flags, false);
    progress();
    tracef("pipe2 = %d, %d", fds[0], fds[1]);
    return 0;
}
int pipe(int * fds) { return pipe2(fds, 0); }
int eventfd(unsigned initial, int flags) noexcept {
    if (!LIVE) return static_cast<int>(::syscall(SYS_eventfd2, initial, flags));
    RtGuard g;
    schedPoint(51, 0);
    static int const errs[] = { EMFILE, ENFILE };
    if (permanent("eventfd", errs, 2)) return -1;
    Ofd * o = newOfd(T_EVENT);
    o->pipe = static_cast<PipeBuf *>(rtAlloc(sizeof(PipeBuf))); // for its order of events only
    o->count = initial; o->semaphore = flags & EFD_SEMAPHORE; o->flags = O_RDWR | (flags & O_NONBLOCK);
    int const fd = newFd(o, flags & EFD_CLOEXEC, false);
    progress();
    tracef("eventfd = %d", fd);
    return fd;
}
ssize_t writev(int fd, struct iovec const * v, int n) {
    if (!LIVE) return ::syscall(SYS_writev, fd, v, n);
    RtGuard g;
    ssize_t t = 0;
    for (int i = 0; i < n; ++i) {
        if (!v[i].iov_len) continue;
        ssize_t const r = doWrite(fd, static_cast<char const *>(v[i].iov_base), v[i].iov_len, PC);
        if (r < 0) return t ? t : r;
        t += r;
        if (static_cast<size_t>(r) < v[i].iov_len) break;
    }
    return t;
}
int epoll_create1(int flags) {
    if (!LIVE) return static_cast<int>(::syscall(SYS_epoll_create1, flags));
    RtGuard g;
    schedPoint(49, 0);
    static int const errs[] = { EMFILE, ENOMEM };
    if (permanent("epoll_create1", errs, 2)) return -1;
    Ofd * o = newOfd(T_EPOLL);
    o->reg = static_cast<Reg *>(rtAlloc(sizeof(Reg) * MAXREG));
    int const fd = newFd(o, flags & EPOLL_CLOEXEC, false);
    progress();
    tracef("epoll_create1 = %d", fd);
    return fd;
}
int epoll_create(int) { return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event * ev) {
    if (!LIVE) return static_cast<int>(::syscall(SYS_epoll_ctl, ep, op, fd, ev));
    RtGuard g;
    return doEpollCtl(ep, op, fd, ev);
}
int epoll_wait(int ep, struct epoll_event * ev, int n, int to) {
    if (!LIVE) return static_cast<int>(::syscall(SYS_epoll_wait, ep, ev, n, to));
    RtGuard g;
    return doEpollWait(ep, ev, n, to, PC);
}
int epoll_pwait(int ep, struct epoll_event * ev, int n, int to, sigset_t const *) { return epoll_wait(ep, ev, n, to); }
ssize_t read(int fd, void * b, size_t n) {
    if (!LIVE) return ::syscall(SYS_read, fd, b, n);
    RtGuard g;
    return doRead(fd, static_cast<char *>(b), n, false, 0, PC);
}
ssize_t pread(int fd, void * b, size_t n, off_t o) {
    if (!LIVE) return ::syscall(SYS_pread64, fd, b, n, o);
    RtGuard g;
    return doRead(fd, static_cast<char *>(b), n, true, static_cast<std::size_t>(o), PC);
}
ssize_t pread64(int fd, void * b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t readv(int fd, struct iovec const * v, int n) {
    if (!LIVE) return ::syscall(SYS_readv, fd, v, n);
    RtGuard g;
    ssize_t t = 0;
    for (int i = 0; i < n; ++i) {
        if (!v[i].iov_len) continue;
        ssize_t const r = doRead(fd, static_cast<char *>(v[i].iov_base), v[i].iov_len, false, 0, PC);
        if (r < 0) return t ? t : r;
        t += r;
        if (static_cast<size_t>(r) < v[i].iov_len) break;
    }
    return t;
}
ssize_t write(int fd, void const * b, size_t n) {
    if (!LIVE) return ::syscall(SYS_write, fd, b, n);
    RtGuard g;
    return doWrite(fd, static_cast<char const *>(b), n, PC);
}
int close(int fd) {
    if (!LIVE) return static_cast<int>(::syscall(SYS_close, fd));
    RtGuard g;
    return doClose(fd);
}
int open(char const * p, int fl, ...) {
    mode_t m = 0;
    if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    if (!LIVE) return static_cast<int>(::syscall(SYS_openat, AT_FDCWD, p, fl, m));
    RtGuard g;
    return doOpen(p, fl);
}
int open64(char const * p, int fl, ...) {
    mode_t m = 0;
    if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    return open(p, fl, m);
}
int openat(int d, char const * p, int fl, ...) {
    mode_t m = 0;
    if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    if (!LIVE) return static_cast<int>(::syscall(SYS_openat, d, p, fl, m));
    RtGuard g;
    return doOpen(p, fl);
}
int fstat(int fd, struct stat * st) noexcept {
    if (!LIVE) return static_cast<int>(::syscall(SYS_fstat, fd, st));
    RtGuard g;
    return doFstat(fd, st);
}
int fstat64(int fd, struct stat64 * st) noexcept { return fstat(fd, reinterpret_cast<struct stat *>(st)); }
off_t lseek(int fd, off_t o, int wh) noexcept {
    if (!LIVE) return ::syscall(SYS_lseek, fd, o, wh);
    RtGuard g;
    schedPoint(50, static_cast<u64>(fd));
    if (badFd(fd, "lseek")) return -1;
    Ofd * of = fdAt(fd)->o;
    if (of->type != T_FILE) { errno = ESPIPE; return -1; }
    static int const errs[] = { EIO };
    if (permanent("lseek", errs, 1)) return -1;
    std::int64_t const base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? static_cast<std::int64_t>(of->pos) : static_cast<std::int64_t>(of->file->size);
    if (base + o < 0) { errno = EINVAL; return -1; }
    of->pos = static_cast<std::size_t>(base + o);
    return static_cast<off_t>(of->pos);
}
int dup(int fd) noexcept {
    if (!LIVE) return static_cast<int>(::syscall(SYS_dup, fd));
    RtGuard g;
    return doFcntl(fd, F_DUPFD, 0);
}
int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long const a = va_arg(ap, long); va_end(ap);
    if (!LIVE) return static_cast<int>(::syscall(SYS_fcntl, fd, cmd, a));
    RtGuard g;
    return doFcntl(fd, cmd, static_cast<int>(a));
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long const a = va_arg(ap, long); va_end(ap);
    return fcntl(fd, cmd, a);
}
} // extern "C"
