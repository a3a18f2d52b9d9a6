// C20: the event loop delivers ready events once per arming, to the right handler.
#include "common.h"
#include <fcntl.h>
#include <sys/epoll.h>
#include <unistd.h>
#include <sharemind/EventLoop.h>
#include <sharemind/SingleThreadEventLoop.h>
extern "C" char const * const sim_property = "C20";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(called, "a handler was called");
SIM_PROBE_DEF(hup, "a hang-up or error was delivered");
SIM_PROBE_DEF(out, "writability was delivered");
SIM_PROBE_DEF(shutPeer, "a peer shut down writing");
SIM_PROBE_DEF(superseded, "a handler of a superseded arming was called from an event fetched before");
SIM_PROBE_DEF(inHandler, "a handler controlled the loop");
SIM_PROBE_DEF(refused, "insert() of a registered descriptor");
SIM_PROBE_DEF(absent, "remove() of an unregistered descriptor");
SIM_PROBE_DEF(barred, "a descriptor was disabled or removed for good");
SIM_PROBE_DEF(large, "more ready descriptors than one batch");
SIM_PROBE_DEF(unready, "armed but never ready");

enum { MAXCH = 160, MAXARM = 400 };
using ES = EventLoop::EventSet;
struct Arming; struct Chan;
EventLoop * loop;
u32 nch;

struct Arming {
    Chan * ch; ES mask, must; u64 readsAt; u32 action, arg; int seq;
    bool called, forbidden; Plain data;
    EventLoop::EventHandler * h;
};
struct Chan {
    int fd, other; bool isOut;        // fd is registered, other is the harness' end
    std::mutex m;                     // serialises control of this descriptor
    bool registered, hung, shut; Arming * now; u64 reads, written;
    u32 index;
};
Chan chans[MAXCH];
Arming * arms; int narms, calls; bool loopEnded; int handlerThread = -1;

ES readyNow(Chan & c) {
    if (c.isOut) return (c.hung ? ES(EPOLLERR) : ES(0)) | ES(EPOLLOUT);
    return (sim::kernel::dataPending(c.fd) || c.shut ? ES(EPOLLIN) : ES(0)) | (c.shut ? ES(EPOLLRDHUP) : ES(0)) | (c.hung ? ES(EPOLLHUP) : ES(0));
}
void act(Arming & a);
void fired(Arming & a, ES ev, bool known = true) noexcept { // known: the events are

    Chan & c = *a.ch;
    {
        sim::Oracle o;
        SIM_CHECK(!loopEnded, "late-call", "a handler was called after the loop had ended");
        SIM_CHECK(handlerThread < 0 || handlerThread == sim::tid(), "wrong-thread", "a handler was called by thread %d, which does not run the loop", sim::tid());
    }
    SIM_CHECK(a.data.get() == a.seq, "visibility", "the handler does not see what was written before arming");
    bool again = false;
    {
        std::lock_guard<std::mutex> g(c.m);
        sim::Oracle o;
        SIM_CHECK(!a.called, "called-twice", "arming %d of channel %u was delivered twice", a.seq, c.index);
        SIM_CHECK(!a.forbidden, "late-call", "channel %u: arming %d was delivered although it had been disabled, removed or superseded in an earlier iteration", c.index, a.seq);
        if (!known) ev = a.must; // createSimpleHandler() does not pass the events on
        SIM_CHECK(ev || !known, "wrong-events", "no events delivered");
        SIM_CHECK(!(ev & ~(a.mask | EPOLLERR | EPOLLHUP)), "wrong-events", "channel %u: events %x delivered, armed for %x", c.index, ev, a.mask);
        SIM_CHECK(!(ev & EPOLLRDHUP) || c.shut, "wrong-events", "channel %u: a shut down peer reported but it is not", c.index);
        SIM_CHECK(!(ev & EPOLLIN) || c.written || c.shut, "wrong-events", "channel %u: input reported but none was ever written", c.index);
        SIM_CHECK(!(ev & (EPOLLHUP | EPOLLERR)) || c.hung, "wrong-events", "channel %u: hang-up reported but the peer is open", c.index);
        if (c.reads == a.readsAt) SIM_CHECK((ev & a.must) == a.must, "wrong-events", "channel %u: events %x delivered, %x were ready when it was armed", c.index, ev, a.must);
        a.called = true; ++calls;
        SIM_HIT(called); if (ev & (EPOLLHUP | EPOLLERR)) SIM_HIT(hup); if (ev & EPOLLOUT) SIM_HIT(out);
        if (c.now == &a) { c.now = nullptr; again = true; } else SIM_HIT(superseded);
    }
    if (sim::flip()) dawdle(sim::choose(6));
    if (again || a.action < 3) act(a);
}
Arming & newArming(Chan & c, ES mask) { // c.m is held
    Arming * a; u32 action = sim::choose(9), arg = sim::choose(nch); int seq;
    { sim::Oracle o; SIM_CHECK(narms < MAXARM, "harness", "too many armings"); seq = narms; a = &arms[narms++]; a->ch = &c; a->mask = mask; a->must = readyNow(c) & mask; a->readsAt = c.reads; a->action = action; a->arg = arg; a->seq = seq; }
    a->data.set(seq);
    switch (sim::choose(4)) {
    case 0: a->h = EventLoop::createHandler([a](ES ev) noexcept { fired(*a, ev); }).release(); break;
    case 1: { // the handler owns its function
        struct F { Arming * a; NObj o; void operator()(ES ev) noexcept { SIM_CHECK(o.value() == a->seq, "handler-state", "the handler's function is damaged"); fired(*a, ev); } };
        a->h = EventLoop::createHandler(F{a, NObj(seq)}).release();
        break; }
    case 2: {
        struct F { Arming * a; NObj o; void operator()() noexcept { SIM_CHECK(o.value() == a->seq, "handler-state", "the handler's function is damaged"); fired(*a, 0, false); } };
        if (sim::flip()) a->h = EventLoop::createSimpleHandler(F{a, NObj(seq)}).release();
        else { F f{a, NObj(seq)}; a->h = EventLoop::createSimpleHandler(f).release(); }
        break; }
    default:
        struct H final : EventLoop::EventHandler { Arming * a; H(Arming * a_) : a(a_) {} void handleEvents(ES ev) noexcept override { fired(*a, ev); } };
        a->h = new H(a);
    }
    return *a;
}
void arm(Chan & c) {
    bool room; { sim::Oracle o; room = narms < MAXARM - 170; }
    if (!room) return;
    static ES const ins[] = { EPOLLIN, EventLoop::ALL_INPUT_EVENTS, EventLoop::INPUT_FATAL_EVENTS, EventLoop::INPUT_DATA_EVENTS, EventLoop::ALL_EVENTS, EPOLLRDHUP };
    static ES const outs[] = { EPOLLOUT, EventLoop::ALL_OUTPUT_EVENTS, EventLoop::OUTPUT_FATAL_EVENTS, EventLoop::OUTPUT_DATA_EVENTS, EventLoop::ALL_EVENTS, EPOLLET | EPOLLOUT };
    ES const mask = (c.isOut ? outs : ins)[sim::choose(6)];
    u32 const how = sim::choose(3);
    std::lock_guard<std::mutex> g(c.m);
    bool const was = c.registered;
    Arming & a = newArming(c, mask);
    if (how == 0 && was) {
        ORACLE c.now = &a;
        loop->modify(c.fd, mask, *a.h);
    } else if (how == 1 && sim::flip()) {
        if (!was) ORACLE c.now = &a;
        bool const r = loop->insert(c.fd, mask, *a.h);
        SIM_CHECK(r == !was, "wrong-result", "insert() returned %d, registered was %d", r, was);
        if (was) { SIM_HIT(refused); ORACLE a.forbidden = true; } // never in force
    } else {
        ORACLE c.now = &a;
        bool const r = loop->insertOrModify(c.fd, mask, *a.h);
        SIM_CHECK(r == !was, "wrong-result", "insertOrModify() returned %d, registered was %d", r, was);
    }
    c.registered = true;
}
// Returns the number of armings made so far: none of them is in force any more.
int disarm(Chan & c, u32 how) {
    std::lock_guard<std::mutex> g(c.m);
    bool const was = c.registered;
    switch (how) {
    case 0: if (was) { loop->disable(c.fd); break; } // fall through
    case 1: { bool const r = loop->insertDisabledOrDisable(c.fd); SIM_CHECK(r == !was, "wrong-result", "insertDisabledOrDisable() returned %d, registered was %d", r, was); c.registered = true; break; }
    case 2: if (!was) { loop->insertDisabled(c.fd); c.registered = true; break; } // fall through
    default: { bool const r = loop->remove(c.fd); SIM_CHECK(r == was, "wrong-result", "remove() returned %d, registered was %d", r, was); if (!was) SIM_HIT(absent); c.registered = false; break; }
    }
    sim::Oracle o;
    c.now = nullptr;
    return narms;
}
void feed(Chan & c) {
    if (c.isOut) { char b[64]; sim::kernel::rawRead(c.other, b, sizeof b); return; }
    sim::Oracle o; if (!c.hung && c.written < 1000) { ++c.written; sim::kernel::rawWrite(c.other, "x", 1); }
}
void drain(Chan & c) {
    std::lock_guard<std::mutex> g(c.m);
    ORACLE ++c.reads;
    char b[64];
    if (c.isOut) { ssize_t r = ::write(c.fd, b, 1 + sim::choose(64)); (void) r; }
    else { ssize_t r = ::read(c.fd, b, 1 + sim::choose(64)); (void) r; }
    ORACLE ++c.reads;
}
void hangUp(Chan & c) { std::lock_guard<std::mutex> g(c.m); sim::Oracle o; if (!c.hung) { c.hung = true; sim::kernel::rawClose(c.other); } }
void shutDown(Chan & c) { std::lock_guard<std::mutex> g(c.m); sim::Oracle o; if (!c.hung && !c.shut) { SIM_HIT(shutPeer); c.shut = true; sim::kernel::shutdownPeer(c.fd); } }
void act(Arming & a) { // from the handler
    Chan & other = chans[a.arg];
    if (a.action) SIM_HIT(inHandler);
    switch (a.action) {
    default: break;
    case 1: drain(*a.ch); break;
    case 2: drain(*a.ch); arm(*a.ch); break;
    case 3: arm(*a.ch); break;
    case 4: disarm(*a.ch, sim::choose(4)); break;
    case 5: arm(other); break;
    case 6: feed(other); break;
    case 7: disarm(other, sim::choose(4)); break;
    }
}
void forbid(Chan & c, int upTo) { // after a barrier
    for (int i = 0; i < upTo; ++i) if (arms[i].ch == &c && &arms[i] != c.now) arms[i].forbidden = true;
}
void control(u32 steps) {
    while (steps--) {
        Chan & c = chans[sim::choose(nch)];
        switch (sim::choose(8)) {
        case 0: case 1: case 2: arm(c); break;
        case 3: case 4: feed(c); break;
        case 5: { // for good: nothing armed so far may be delivered by a later iteration
            int const upTo = disarm(c, sim::choose(4));
            if (sim::flip()) break;
            if (sim::flip()) loop->spinUntilLoopIterationEnd(); else loop->yieldUntilLoopIterationEnd();
            SIM_HIT(barred);
            sim::Oracle o; forbid(c, upTo);
            break; }
        case 6: if (sim::chance(1, 3)) hangUp(c); else if (!c.isOut && sim::flip()) shutDown(c); break;
        default: dawdle(sim::choose(8)); if (sim::chance(1, 4)) sim::sleepNs(sim::choose(100) * MS);
        }
    }
}
} // namespace

extern "C" void sim_setup() {
    sim::config.softCap = 8000; sim::config.hardCap = 200000; sim::config.eio = false;
    static u32 const caps[] = { 0, 0, 2, 8 }; sim::config.pipeCap = caps[sim::choose(4)];
}
extern "C" void sim_main() {
    sim::nontrivial();
    bool const big = sim::chance(1, 40);
    if (big) SIM_HIT(large);
    nch = big ? 129 + sim::choose(20) : 1 + sim::choose(5);
    { sim::Oracle o; arms = new Arming[MAXARM](); }
    for (u32 i = 0; i < nch; ++i) {
        int p[2]; sim::kernel::makePipe(p);
        Chan & c = chans[i];
        c.index = i; c.isOut = sim::choose(3) == 2;
        c.fd = c.isOut ? p[1] : p[0]; c.other = c.isOut ? p[0] : p[1];
    }
    std::unique_ptr<SingleThreadEventLoop> st; std::unique_ptr<EventLoop> l; std::thread runner;
    bool const single = !big && sim::flip();
    if (single) { if (sim::flip()) { auto const f = []() noexcept {}; st.reset(new SingleThreadEventLoop(f)); } else st.reset(new SingleThreadEventLoop); loop = st.get(); } else { l.reset(new EventLoop); loop = l.get(); }
    auto const start = [&] { if (!single) { EventLoop * e = l.get(); runner = std::thread([e] { ORACLE handlerThread = sim::tid(); e->run(); ORACLE loopEnded = true; }); } };
    bool const late = big || sim::flip();
    if (!late) start();
    if (big) for (u32 i = 0; i < nch; ++i) { feed(chans[i]); arm(chans[i]); }
    else if (late) control(sim::choose(5));
    if (late) start();
    {
        Threads ts;
        for (u32 n = big ? 0 : sim::choose(3); n--;) { u32 const k = 1 + sim::choose(10); ts.add([k] { control(k); }); }
        if (!big) control(sim::choose(12));
        ts.join();
    }
    // What is armed and ready is delivered.
    for (u32 i = 0; i < nch; ++i) if (sim::chance(1, 3)) feed(chans[i]);
    sim::calmNow();
    for (u32 tries = 0;; ++tries) {
        bool waiting = false; u32 which = 0;
        for (u32 i = 0; i < nch; ++i) {
            Chan & c = chans[i];
            std::lock_guard<std::mutex> g(c.m);
            if (!c.now) continue;
            sim::Oracle o;
            ES const r = (readyNow(c) & (c.now->mask | EPOLLERR | EPOLLHUP));
            // A full pipe is not writable.
            if (r && !(c.isOut && !c.hung && !(c.now->mask & EPOLLOUT))) { waiting = true; which = i; }
            else SIM_HIT(unready);
        }
        if (!waiting) break;
        SIM_CHECK(tries < 200, "lost-event", "channel %u is armed and ready but its handler is not called", which);
        sim::sleepNs(10 * MS);
    }
    loop->stop();
    if (runner.joinable()) runner.join();
    st.reset();
    { sim::Oracle o; loopEnded = true; }
    l.reset();
    for (int i = 0; i < narms; ++i) delete arms[i].h;
    for (u32 i = 0; i < nch; ++i) { sim::kernel::rawClose(chans[i].fd); if (!chans[i].hung) sim::kernel::rawClose(chans[i].other); }
}
