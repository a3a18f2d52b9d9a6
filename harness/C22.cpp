// C22: descriptors are closed exactly once, system call failures are reported.
#include "common.h"
#include <cerrno>
#include <fcntl.h>
#include <sys/epoll.h>
#include <unistd.h>
#include <sharemind/Datum.h>
#include <sharemind/FileDescriptor.h>
#include <sharemind/EventLoop.h>
#include <sharemind/Posix.h>
extern "C" char const * const sim_property = "C22";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(dupFail, "duplicating failed");
SIM_PROBE_DEF(dupOk, "a descriptor was duplicated");
SIM_PROBE_DEF(self, "a descriptor was moved to itself");
SIM_PROBE_DEF(loopFail, "constructing an event loop failed");
SIM_PROBE_DEF(ctlFail, "controlling an event loop failed");
SIM_PROBE_DEF(waitFail, "running an event loop failed");
SIM_PROBE_DEF(flagFail, "changing flags failed");
SIM_PROBE_DEF(retried, "a call was retried");
SIM_PROBE_DEF(loaded, "a file was loaded");
SIM_PROBE_DEF(loadFailed, "loading a file failed");
SIM_PROBE_DEF(gaveUp, "a call failed for good");

// The error code nested in e, or -1.
template <typename E> int codeOf(E const & e) {
    try { std::rethrow_if_nested(e); }
    catch (ErrnoException const & n) {
        SIM_CHECK(!strcmp(n.what(), ErrnoException(n.errorNumber()).what()), "error-code", "the message does not belong to the code");
        return n.errorNumber();
    }
    catch (...) { return -2; }
    return -1;
}
// err: the expected error code, or 0 for the one most recently injected
template <typename E> void expectCode(E const & e, char const * what, int err, u64 before) {
    int const c = codeOf(e);
    if (err) SIM_CHECK(c == err, "error-code", "%s failed with nested code %d instead of %d", what, c, err);
    else {
        SIM_CHECK(sim::sysFaultsFired() > before, "error-kind", "%s failed although no system call did", what);
        SIM_CHECK(c == sim::lastSysErrno(), "error-code", "%s failed with nested code %d instead of %d", what, c, sim::lastSysErrno());
    }
}

// ---- FileDescriptor
struct Owner { FileDescriptor fd; int v = -1; };
int freshFd() { int p[2]; sim::kernel::makePipe(p); sim::kernel::adopt(p[0]); sim::kernel::rawClose(p[1]); return p[0]; }
void check(Owner & o) {
    SIM_CHECK(o.fd.nativeHandle() == o.v && o.fd.valid() == (o.v >= 0), "handle", "owner has %d (valid %d) instead of %d", o.fd.nativeHandle(), o.fd.valid(), o.v);
    if (o.v >= 0) SIM_CHECK(sim::kernel::isOpen(o.v), "closed-early", "descriptor %d is owned but closed", o.v);
}
void gone(int v) { if (v >= 0) SIM_CHECK(!sim::kernel::isOpen(v), "fd-leak", "descriptor %d was given up but is still open", v); }
void owners(u32 steps) {
    Owner o[3];
    while (steps--) {
        Owner & a = o[sim::choose(3)], & b = o[sim::choose(3)];
        int const av = a.v, bv = b.v;
        switch (sim::choose(9)) {
        case 0: { int const f = freshFd(); a.fd.reset(f); a.v = f; gone(av); break; }
        case 1: { int const f = freshFd(); a.fd = FileDescriptor(f); a.v = f; gone(av); break; }
        case 2: if (&a == &b) { SIM_HIT(self); FileDescriptor & r = b.fd; a.fd = std::move(r); }
                else { a.fd = std::move(b.fd); a.v = bv; b.v = -1; gone(av); }
                break;
        case 3: { FileDescriptor t(std::move(a.fd)); SIM_CHECK(t.nativeHandle() == av, "handle", "moved %d became %d", av, t.nativeHandle()); a.v = -1; check(a); if (sim::flip()) { a.fd = std::move(t); a.v = av; } else { t.close(); gone(av); t.close(); } break; }
        case 4: { int const r = a.fd.release(); SIM_CHECK(r == av, "handle", "released %d instead of %d", r, av); a.v = -1; if (r >= 0) { SIM_CHECK(sim::kernel::isOpen(r), "closed-early", "release() closed %d", r); ::close(r); } break; }
        case 5: { sim::SysFaults f; a.fd.close(); a.v = -1; break; }
        case 6: a.fd.reset(av); break;
        case 7: { sim::SysFaults f; a.fd.reset(-1); a.v = -1; break; }
        default: {
            u64 const n0 = sim::sysFaultsFired(); unsigned const open0 = sim::kernel::openCount();
            try {
                sim::SysFaults f;
                FileDescriptor d(a.fd.duplicate());
                SIM_HIT(dupOk);
                SIM_CHECK(av >= 0 && d.nativeHandle() != av && sim::kernel::fdOrigin(d.nativeHandle()) == sim::kernel::fdOrigin(av), "duplicate", "the duplicate of %d is %d", av, d.nativeHandle());
                SIM_CHECK(sim::kernel::cloexec(d.nativeHandle()), "duplicate", "the duplicate is inherited by child processes");
                if (&a != &b && sim::flip()) { int const dv = d.nativeHandle(); b.fd = std::move(d); b.v = dv; gone(bv); }
            } catch (sharemind::Exception const & e) {
                SIM_HIT(dupFail);
                expectCode(e, "duplicate()", av < 0 ? EBADF : 0, n0);
                SIM_CHECK(sim::kernel::openCount() == open0, "fd-leak", "a failed duplicate() changed the open descriptors");
            } } }
        check(a); check(b);
        gone(a.v == av ? -1 : b.v == av ? -1 : av);
    }
    int v[3] = { o[0].v, o[1].v, o[2].v };
    { Owner x[3]; for (int i = 0; i < 3; ++i) x[i].fd = std::move(o[i].fd); }
    for (int i : v) gone(i);
}

// ---- EventLoop
struct Nop final : EventLoop::EventHandler { void handleEvents(EventLoop::EventSet) noexcept override {} };
void loops(u32 steps) {
    unsigned const open0 = sim::kernel::openCount();
    std::unique_ptr<EventLoop> l;
    for (u32 tries = 0; !l; ++tries) {
        u64 const n0 = sim::sysFaultsFired();
        try {
            if (tries < 3) { sim::SysFaults f; l.reset(new EventLoop); } else l.reset(new EventLoop);
            break;
        }
        catch (EventLoop::PipeCreateException const & e) { expectCode(e, "EventLoop()", 0, n0); }
        catch (EventLoop::EpollCreateException const & e) { expectCode(e, "EventLoop()", 0, n0); }
        catch (EventLoop::EpollCtlException const & e) { expectCode(e, "EventLoop()", 0, n0); }
        SIM_HIT(loopFail);
        SIM_CHECK(sim::kernel::openCount() == open0, "fd-leak", "a failed construction left %u descriptors instead of %u", sim::kernel::openCount(), open0);
    }
    enum { N = 3 };
    int fd[N], other[N]; bool reg[N] = {};
    for (int i = 0; i < N; ++i) { int p[2]; sim::kernel::makePipe(p); fd[i] = p[0]; other[i] = p[1]; }
    Nop h;
    while (steps--) {
        u32 const i = sim::choose(N); u64 const n0 = sim::sysFaultsFired(); int expect = 0; bool now = reg[i];
        u32 const what = sim::choose(9);
        try {
            sim::SysFaults f;
            switch (what) {
            case 0: expect = reg[i] ? EEXIST : 0; l->insertDisabled(fd[i]); now = true; SIM_CHECK(!expect, "error-lost", "insertDisabled() of a registered descriptor succeeded"); break;
            case 1: expect = reg[i] ? 0 : ENOENT; l->modify(fd[i], EPOLLIN, h); SIM_CHECK(!expect, "error-lost", "modify() of an unregistered descriptor succeeded"); break;
            case 2: expect = reg[i] ? 0 : ENOENT; l->disable(fd[i]); SIM_CHECK(!expect, "error-lost", "disable() of an unregistered descriptor succeeded"); break;
            case 3: { bool const r = l->insert(fd[i], EPOLLIN, h); SIM_CHECK(r == !reg[i], "result", "insert() = %d", r); now = true; break; }
            case 4: { bool const r = l->insertOrModify(fd[i], EPOLLIN, h); SIM_CHECK(r == !reg[i], "result", "insertOrModify() = %d", r); now = true; break; }
            case 5: { bool const r = l->insertDisabledOrDisable(fd[i]); SIM_CHECK(r == !reg[i], "result", "insertDisabledOrDisable() = %d", r); now = true; break; }
            case 6: { bool const r = l->remove(fd[i]); SIM_CHECK(r == reg[i], "result", "remove() = %d", r); now = false; break; }
            case 7:
                expect = EBADF;
                switch (sim::choose(7)) {
                case 0: l->insert(-1, EPOLLIN, h); break;
                case 1: l->remove(-1); break;
                case 2: l->insertOrModify(-1, EPOLLIN, h); break;
                case 3: l->insertDisabled(-1); break;
                case 4: l->disable(-1); break;
                case 5: l->insertDisabledOrDisable(-1); break;
                default: l->modify(-1, EPOLLIN, h);
                }
                SIM_CHECK(false, "error-lost", "controlling an invalid descriptor succeeded"); break;
            default: l->stopAsync(); break;
            }
        } catch (EventLoop::EpollCtlException const & e) {
            SIM_HIT(ctlFail);
            now = reg[i]; // a failed call changes nothing
            // Which of the two was first does not matter when the call could not succeed anyway.
            if (expect && sim::sysFaultsFired() > n0) { int const c = codeOf(e); SIM_CHECK(c == expect || c == sim::lastSysErrno(), "error-code", "nested code %d instead of %d or %d", c, expect, sim::lastSysErrno()); }
            else expectCode(e, "controlling the loop", expect, n0);
        }
        reg[i] = now;
    }
    if (sim::flip()) {
        u64 const n0 = sim::sysFaultsFired();
        sim::kernel::rawWrite(other[0], "x", 1);
        l->stopAsync();
        try { sim::SysFaults f; l->run(); }
        catch (EventLoop::EpollWaitException const & e) { SIM_HIT(waitFail); expectCode(e, "run()", 0, n0); }
    }
    { sim::SysFaults f; l.reset(); }
    SIM_CHECK(sim::kernel::openCount() == open0, "fd-leak", "%u descriptors are open after an event loop instead of %u", sim::kernel::openCount(), open0);
    for (int i = 0; i < N; ++i) { sim::kernel::rawClose(fd[i]); sim::kernel::rawClose(other[i]); }
}

// ---- loading files
void loads() {
    static char const text[] = "some content of the file";
    unsigned const open0 = sim::kernel::openCount(); static int nth; char name[32];
    { sim::Oracle o; std::snprintf(name, sizeof name, "/sim/%d", ++nth); sim::kernel::addFile(name, text, sim::choose(sizeof text), !sim::chance(1, 5)); }
    bool const missing = sim::chance(1, 6);
    u64 const n0 = sim::sysFaultsFired();
    try { sim::SysFaults f; Datum d(std::string(missing ? "/sim/none" : name)); SIM_HIT(loaded); SIM_CHECK(!missing, "error-lost", "a file that does not exist was loaded"); }
    catch (Datum::LoadException const & e) {
        SIM_HIT(loadFailed);
        int const c = codeOf(e);
        if (c >= 0) SIM_CHECK(missing ? c == ENOENT || c == sim::lastSysErrno() : sim::sysFaultsFired() > n0 && c == sim::lastSysErrno(), "error-code", "nested code %d", c);
    }
    SIM_CHECK(sim::kernel::openCount() == open0, "fd-leak", "%u descriptors are open after a load instead of %u", sim::kernel::openCount(), open0);
}

// ---- flags and the generic loop
struct GetError : sharemind::Exception { char const * what() const noexcept override { return "get"; } };
struct SetError : sharemind::Exception { char const * what() const noexcept override { return "set"; } };
void flags() {
    int p[2]; sim::kernel::makePipe(p);
    int const fd = p[0];
    for (u32 k = 1 + sim::choose(4); k--;) {
        bool const closed = sim::chance(1, 6); int const on = closed ? -1 : fd;
        int const fl0 = sim::kernel::statusFlags(fd); bool const ce0 = sim::kernel::cloexec(fd);
        u64 const n0 = sim::sysFaultsFired();
        bool const fl = sim::flip(); int const add = fl ? (sim::flip() ? O_NONBLOCK : O_APPEND) : FD_CLOEXEC;
        int outcome = 0;
        try {
            sim::SysFaults f;
            if (fl) fcntlAddFl<GetError, SetError>(on, add); else fcntlAddFd<GetError, SetError>(on, add);
        } catch (GetError const & e) { outcome = 1; expectCode(e, "fcntl get", closed ? EBADF : 0, n0); }
        catch (SetError const & e) { outcome = 2; expectCode(e, "fcntl set", closed ? EBADF : 0, n0); SIM_CHECK(!closed, "error-kind", "setting was tried after getting failed"); }
        if (outcome) SIM_HIT(flagFail);
        SIM_CHECK(!closed || outcome, "error-lost", "changing the flags of an invalid descriptor succeeded");
        int const fl1 = sim::kernel::statusFlags(fd); bool const ce1 = sim::kernel::cloexec(fd);
        SIM_CHECK(fl1 == (fl && !outcome ? (fl0 | add) : fl0), "flags", "status flags %x became %x, adding %x, outcome %d", fl0, fl1, fl ? add : 0, outcome);
        SIM_CHECK(ce1 == (ce0 || (!fl && !outcome)), "flags", "close-on-exec became %d, outcome %d", ce1, outcome);
    }
    sim::kernel::rawClose(p[0]); sim::kernel::rawClose(p[1]);
}
struct CallError : sharemind::Exception { char const * what() const noexcept override { return "call"; } };
int plan[12]; u32 nplan, at; Plain * token;
int scripted(int a, Plain * t, long b) {
    SIM_CHECK(a == 7 && t == token && b == 9, "arguments", "a retry got other arguments");
    SIM_CHECK(at < nplan, "retry", "called again after it had succeeded or failed for good");
    int const e = plan[at++];
    if (!e) { errno = EIO; return 0; }
    errno = e; return -e;
}
void generic() {
    Plain t; token = &t; at = 0; nplan = 0;
    int last = 0; static int const final_[] = { 0, EIO, EBADF, EMFILE, ENOENT, EPIPE };
    for (u32 k = sim::choose(6); k--;) plan[nplan++] = sim::flip() ? EINTR : EAGAIN;
    last = plan[nplan++] = final_[sim::choose(6)];
    if (nplan > 1) SIM_HIT(retried);
    try {
        int const r = syscallLoop<CallError>(scripted, [](int r) noexcept { return r >= 0; }, 7, &t, 9l);
        SIM_CHECK(!last && r == 0, "error-lost", "a call that failed with %d was taken for a success", last);
    } catch (CallError const & e) { SIM_HIT(gaveUp); SIM_CHECK(last, "error-kind", "a successful call was taken for a failure"); expectCode(e, "the call", last, 0); }
    SIM_CHECK(at == nplan, "retry", "made %u calls, expected %u", at, nplan);
}
} // namespace

extern "C" void sim_main() {
    sim::nontrivial();
    u32 const n = 1 + sim::choose(3);
    for (u32 i = 0; i < n; ++i)
        switch (sim::choose(5)) {
        case 4: loads(); break;
        case 0: owners(1 + sim::choose(10)); break;
        case 1: loops(sim::choose(8)); break;
        case 2: flags(); break;
        default: generic(); break;
        }
    SIM_CHECK(sim::kernel::inheritable() == 0, "inherited", "%u descriptors were opened such that child processes inherit them", sim::kernel::inheritable());
    SIM_CHECK(sim::kernel::openAll() == 0, "fd-leak", "%u descriptors are still open", sim::kernel::openAll());
}
