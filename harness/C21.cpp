// C21: the event loop's iteration barrier and stop are safe and always terminate.
#include "common.h"
#include <fcntl.h>
#include <sys/epoll.h>
#include <unistd.h>
#include <sharemind/EventLoop.h>
#include <sharemind/SingleThreadEventLoop.h>
extern "C" char const * const sim_property = "C21";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(barIdle, "a barrier on a loop that was not running");
SIM_PROBE_DEF(barBusy, "a barrier while a handler was running");
SIM_PROBE_DEF(barMany, "two barriers at once");
SIM_PROBE_DEF(barStop, "a barrier while the loop was being stopped or ending");
SIM_PROBE_DEF(freed, "a handler was destroyed after a barrier");
SIM_PROBE_DEF(stopMany, "two stops at once");
SIM_PROBE_DEF(stopHandler, "a handler asked the loop to stop");
SIM_PROBE_DEF(runFailed, "the loop ended with an exception");
SIM_PROBE_DEF(rerun, "the loop was run again");
SIM_PROBE_DEF(early, "stopped before the loop was run");
SIM_PROBE_DEF(failedRuns, "the thread of a single-thread loop ended with an exception");
SIM_PROBE_DEF(woken, "a sleeping loop was woken up by a barrier or a stop");
SIM_PROBE_DEF(leftOver, "events were ready when the loop was stopped");
SIM_PROBE_DEF(published, "something was published by stopping the loop");
SIM_PROBE_DEF(fullPipe, "more wake-ups than the pipe can hold");
SIM_PROBE_DEF(destroyed, "the loop was destroyed right after the last call, its thread not yet joined");

using ES = EventLoop::EventSet;
enum { MAXCH = 5, MAXCALL = 600 };
EventLoop * loop;
u32 nch;
// Model
bool strict;                         // no stale loads in this run
int nloops = 1;                      // threads running the loop
bool inCall[MAXCALL]; int ncalls, active, bars, stops, running; bool stopped, asked, stopReturned, ending; u32 afterStop[MAXCH]; u64 callsTotal; int rearms;
std::atomic<int> begun{0};           // handler calls begun, as the users of the loop can know

struct Chan;
struct Handler final : EventLoop::EventHandler {
    Chan * ch; Plain seen; u32 style; NObj o{1};
    explicit Handler(Chan * c, u32 s) : ch(c), style(s) {}
    void handleEvents(ES ev) noexcept override;
};
struct Chan {
    int fd, other; u32 index; std::mutex m; bool registered = false, dead = false; std::unique_ptr<Handler> h;
};
Chan chans[MAXCH];

void Handler::handleEvents(ES ev) noexcept {
    int me;
    {
        sim::Oracle g;
        SIM_CHECK(!stopReturned, "call-after-stop", "a handler was called after stop() had returned");
        SIM_CHECK(active == 0, "two-loops", "two handlers at once");
        SIM_CHECK(ncalls < MAXCALL, "called-twice", "handlers are called more often than they were armed");
        me = ncalls++; inCall[me] = true; ++active; ++callsTotal;
        if (asked) SIM_CHECK(++afterStop[ch->index] <= static_cast<u32>(nloops) * ((strict ? 2 : 14) + nch), "no-stop", "handler of channel %u called %u times after the stop request", ch->index, afterStop[ch->index]);
    }
    begun.store(me + 1, std::memory_order_release);
    SIM_CHECK(o.value() == 1, "handler-state", "damaged handler");
    seen.set(seen.get() + 1);
    u32 const s = style;
    if (s & 1) dawdle(1 + sim::choose(12));
    bool again; { sim::Oracle g; again = (s & 6) == 2 && rearms < (stopped ? 200 : 40); rearms += again; }
    if (again) { std::lock_guard<std::mutex> g(ch->m); if (!ch->dead) loop->modify(ch->fd, EPOLLIN, *this); } // always ready again
    if ((s & 6) == 4 && sim::chance(1, 4)) { SIM_HIT(stopHandler); ORACLE stopped = true; loop->stopAsync(); ORACLE asked = true; }
    if (s & 8) sim::sleepNs(sim::choose(80) * MS);
    seen.set(seen.get() + 1);
    sim::Oracle g;
    inCall[me] = false; --active;
    (void) ev;
}
void barrier(bool spin) {
    int const n = begun.load(std::memory_order_acquire); bool wasBusy;
    { sim::Oracle g; wasBusy = active > 0; if (wasBusy) SIM_HIT(barBusy); if (bars++) SIM_HIT(barMany); if (!running) SIM_HIT(barIdle); if (stopped || ending) SIM_HIT(barStop); }
    if (spin) loop->spinUntilLoopIterationEnd(); else loop->yieldUntilLoopIterationEnd();
    sim::Oracle g;
    --bars;
    for (int i = 0; i < n; ++i) SIM_CHECK(!inCall[i], "barrier-early", "the barrier returned while a handler call that was in progress when it was invoked still is");
}
void arm(Chan & c) {
    u32 const style = sim::choose(16); bool const ready = sim::chance(3, 4);
    std::lock_guard<std::mutex> g(c.m);
    if (c.dead) return;
    if (!c.h) c.h.reset(new Handler(&c, style));
    loop->insertOrModify(c.fd, EPOLLIN, *c.h);
    c.registered = true;
    if (ready && !sim::kernel::dataPending(c.fd)) sim::kernel::rawWrite(c.other, "x", 1);
}
// Takes a handler out and destroys it.
void retire(Chan & c) {
    bool const spin = sim::flip(); u32 const how = sim::choose(2);
    std::unique_ptr<Handler> h;
    {
        std::lock_guard<std::mutex> g(c.m);
        if (!c.h) return;
        c.dead = true; // the handler may not arm itself again
        if (how) loop->disable(c.fd); else { bool const r = loop->remove(c.fd); SIM_CHECK(r == c.registered, "wrong-result", "remove() = %d", r); c.registered = false; }
        h = std::move(c.h);
    }
    barrier(spin);
    SIM_HIT(freed);
    // No call is in progress or can come: plain access and destruction are fine.
    int const v = h->seen.get(); SIM_CHECK(v % 2 == 0, "barrier-early", "the handler is still being called");
    h.reset();
    std::lock_guard<std::mutex> g(c.m);
    c.dead = false;
}
void stop(bool async) {
    { sim::Oracle g; if (!running) SIM_HIT(early); if (stops++) SIM_HIT(stopMany); stopped = true; }
    if (async || sim::flip()) { loop->stopAsync(); ORACLE asked = true; }
    if (!async) {
        loop->stop();
        sim::Oracle g;
        SIM_CHECK(active == 0, "stop-early", "stop() returned while a handler was running");
    }
    sim::Oracle g; --stops;
}
void control(u32 steps, bool mayStop) {
    while (steps--) {
        Chan & c = chans[sim::choose(nch)];
        switch (sim::choose(10)) {
        case 0: case 1: case 2: case 3: arm(c); break;
        case 4: case 5: barrier(sim::flip()); break;
        case 6: case 7: retire(c); break;
        case 8: if (mayStop && sim::chance(1, 3)) stop(sim::flip()); break;
        default: dawdle(sim::choose(10)); if (sim::chance(1, 4)) sim::sleepNs(sim::choose(120) * MS);
        }
    }
}
void runLoop(EventLoop * e, bool faults, u32 times) {
    for (u32 i = 0; i < times; ++i) {
        if (i) SIM_HIT(rerun);
        ORACLE ++running;
        sim::clearSysErrno();
        try {
            if (faults) { sim::SysFaults f; e->run(); } else e->run();
            // Only a failing epoll_wait() gives these.
            SIM_CHECK(sim::lastSysErrno() != EINVAL && sim::lastSysErrno() != EFAULT, "error-lost", "waiting for events failed but run() did not");
        }
        catch (EventLoop::EpollWaitException const &) { SIM_HIT(runFailed); SIM_CHECK(faults && sim::sysFaultsFired(), "error-kind", "run() failed without a failure"); }
        sim::Oracle g; --running; ending = true;
    }
}
// ---- a loop with nothing to do
void barrierOf(EventLoop & e) { if (sim::flip()) e.spinUntilLoopIterationEnd(); else e.yieldUntilLoopIterationEnd(); }
struct Count final : EventLoop::EventHandler {
    Plain n; std::atomic<u32> calls{0};
    void handleEvents(ES) noexcept override { n.set(n.get() + 1); calls.fetch_add(1); }
};
// Waking up: neither a barrier nor a stop waits until the loop's wait times out.
void wakeUp() {
    EventLoop e;
    std::thread t([&e] { e.run(); });
    for (u32 k = 1 + sim::choose(4); k--;) {
        sim::sleepNs(1 + sim::choose(130) * MS);
        bool const last = k == 0 && sim::flip();
        u64 const t0 = sim::now(), s0 = sim::step();
        if (last) e.stop(); else if (sim::flip()) e.spinUntilLoopIterationEnd(); else e.yieldUntilLoopIterationEnd();
        SIM_HIT(woken);
        // At most 50 us per step: the rest was spent waiting.
        if (!sim::faultRun()) SIM_CHECK(sim::now() - t0 <= 5 * MS + (sim::step() - s0) * 50000, "slow", "%s took %llu us although the loop was idle", last ? "stopping" : "the barrier", static_cast<unsigned long long>((sim::now() - t0) / 1000));
    }
    e.stop();
    t.join();
}
// What was done before stopping is visible to who ran the loop.
void publish() {
    EventLoop e; Plain p;
    std::thread t([&] { dawdle(sim::choose(20)); p.set(7); e.stopAsync(); dawdle(sim::choose(5)); });
    e.run();
    SIM_CHECK(p.get() == 7, "visibility", "what was done before stopping is not visible");
    SIM_HIT(published);
    t.join();
}
// A loop that is stopped loses no event: what it has not delivered is delivered when it runs again.
void leftOvers() {
    enum { N = 5 };
    EventLoop e; Count h[N]; int fd[N], other[N]; bool armed[N];
    u32 const n = 1 + sim::choose(N), when = sim::choose(3);
    for (u32 i = 0; i < n; ++i) { int p[2]; sim::kernel::makePipe(p); fd[i] = p[0]; other[i] = p[1]; }
    auto const go = [&] { for (u32 i = 0; i < n; ++i) { armed[i] = sim::chance(3, 4); if (armed[i]) e.insertOrModify(fd[i], EPOLLIN, h[i]); sim::kernel::rawWrite(other[i], "x", 1); } };
    if (when == 0) go();
    std::thread t([&] { if (sim::flip()) e.stopAsync(); e.run(); });
    if (when == 1) go();
    dawdle(sim::choose(20));
    e.stopAsync();
    if (when == 2) go();
    if (sim::flip()) e.stopAsync();
    t.join();
    SIM_HIT(leftOver);
    sim::calmNow();
    for (u32 i = 0; i < N; ++i) e.run(); // one iteration each
    for (u32 i = 0; i < n; ++i) {
        u32 const c = h[i].calls.load();
        SIM_CHECK(c == armed[i], "lost-event", "event %u was delivered %u times although it was armed %d times and ready", i, c, armed[i]);
        sim::kernel::rawClose(fd[i]); sim::kernel::rawClose(other[i]);
    }
}
// Many wake-ups while nobody takes them.
void flood() {
    EventLoop e; Count h; int p[2]; sim::kernel::makePipe(p);
    u32 const cap = sim::config.pipeCap ? sim::config.pipeCap : 16, runnersN = sim::choose(2);
    SIM_HIT(fullPipe);
    struct Slow final : EventLoop::EventHandler { std::atomic<bool> in{false}; void handleEvents(ES) noexcept override { in.store(true); sim::sleepNs(sim::choose(100) * MS); dawdle(sim::choose(20)); } } slow;
    e.insert(p[0], EPOLLIN, slow);
    sim::kernel::rawWrite(p[1], "x", 1);
    Threads ts;
    if (runnersN) ts.add([&e] { e.run(); });
    for (u32 k = 1 + sim::choose(2); k--;) { bool const spin = sim::flip(); u32 const n = 1 + sim::choose(2); ts.add([&e, spin, n] { for (u32 i = 0; i < n; ++i) { if (spin) e.spinUntilLoopIterationEnd(); else e.yieldUntilLoopIterationEnd(); } }); }
    dawdle(sim::choose(10));
    for (u32 i = cap + sim::choose(3); i--;) e.stopAsync();
    ts.join();
    e.stop();
    sim::kernel::rawClose(p[0]); sim::kernel::rawClose(p[1]);
}
// The loop's own thread ends with the failure, which is handed to the exception handler once.
void failing() {
    sim::config.waitFaults = true;
    int called = 0;
    {
        std::unique_ptr<SingleThreadEventLoop> st;
        u32 const k = sim::choose(3);
        struct F { int * called; NObj o; void operator()() const noexcept { SIM_CHECK(o.value() == 5, "handler-state", "the exception handler is damaged"); ORACLE ++*called; } };
        if (k == 2) { F g{&called, NObj(5)}; st.reset(new SingleThreadEventLoop(g)); }
        else if (k) st.reset(new SingleThreadEventLoop(F{&called, NObj(5)}));
        else st.reset(new SingleThreadEventLoop);
        if (!k) called = -1;
        for (u32 i = sim::choose(4); i--;) { if (sim::flip()) barrierOf(*st); else sim::sleepNs(sim::choose(200) * MS); }
        if (sim::flip()) st->stop();
    }
    unsigned const fails = sim::kernel::waitFailures();
    if (fails) SIM_HIT(failedRuns);
    SIM_CHECK(fails <= 1, "error-lost", "the loop went on after a failure");
    if (called >= 0) SIM_CHECK(called == static_cast<int>(fails), "error-lost", "%u failures, the exception handler was called %d times", fails, called);
}
} // namespace

extern "C" void sim_setup() {
    sim::config.softCap = 5000; sim::config.hardCap = 60000;
    strict = sim::flip(); if (strict) sim::config.staleReads = false;
    static u32 const caps[] = { 0, 0, 1, 3, 8 }; sim::config.pipeCap = caps[sim::choose(5)];
}
extern "C" void sim_main() {
    sim::nontrivial();
    switch (sim::choose(12)) {
    case 0: return wakeUp();
    case 1: return publish();
    case 2: return leftOvers();
    case 3: return flood();
    case 4: return failing();
    default: break;
    }
    nch = 1 + sim::choose(MAXCH);
    for (u32 i = 0; i < nch; ++i) { int p[2]; sim::kernel::makePipe(p); chans[i].fd = p[0]; chans[i].other = p[1]; chans[i].index = i; }
    u32 const kind = sim::choose(5); // 0: SingleThreadEventLoop, 1: with exception handler, 2: one runner, 3: two runners or runs, 4: no runner at first
    bool const sysFaults = sim::chance(1, 3);
    std::unique_ptr<SingleThreadEventLoop> st; std::unique_ptr<EventLoop> l;
    bool failedRun = false;
    if (kind == 0) { st.reset(new SingleThreadEventLoop); loop = st.get(); }
    else if (kind == 1) { auto f = [&failedRun]() noexcept { failedRun = true; SIM_HIT(runFailed); }; st.reset(new SingleThreadEventLoop(f)); loop = st.get(); }
    else { l.reset(new EventLoop); loop = l.get(); }
    if (st) ORACLE running = 1;
    bool const mayStop = sim::flip();
    Threads runners;
    if (kind == 4) control(sim::choose(4), mayStop);
    if (kind >= 2) {
        EventLoop * e = l.get();
        u32 const times = kind == 3 ? 1 + sim::choose(2) : 1;
        nloops = 2 * times;
        runners.add([e, sysFaults, times] { runLoop(e, sysFaults, times); });
        if (kind == 3 && sim::flip()) runners.add([e] { runLoop(e, false, 1); });
    }
    {
        Threads ts;
        for (u32 n = sim::choose(4); n--;) { u32 const k = 1 + sim::choose(7); ts.add([k, mayStop] { control(k, mayStop); }); }
        control(sim::choose(9), mayStop);
        ts.join();
    }
    bool started; { sim::Oracle g; started = callsTotal > 0; }
    if (kind == 2 && started && sim::flip()) {
        // run() was entered: once the destructor's stop has returned nothing of the loop is used.
        SIM_HIT(destroyed);
        { sim::Oracle g; stopped = true; }
        l.reset();
        { sim::Oracle g; stopReturned = true; SIM_CHECK(active == 0, "stop-early", "the loop was destroyed while a handler was running"); }
    } else if (st) {
        { sim::Oracle g; stopped = true; }
        if (sim::flip()) {
            stop(false);
            if (started) {
                // The loop had been entered, hence it has ended for good.
                { sim::Oracle g; stopReturned = true; }
                for (u32 n = sim::choose(3); n--;) { arm(chans[sim::choose(nch)]); if (sim::flip()) sim::sleepNs(sim::choose(100) * MS); }
            }
        }
        if (sim::flip()) barrier(sim::flip());
        st.reset();
        { sim::Oracle g; stopReturned = true; SIM_CHECK(active == 0, "stop-early", "the loop was destroyed while a handler was running"); }
    } else {
        stop(sim::flip());
        if (sim::flip()) barrier(sim::flip());
        runners.join();
        { sim::Oracle g; SIM_CHECK(active == 0, "stop-early", "run() returned while a handler was running"); }
        stop(false);
        { sim::Oracle g; stopReturned = true; }
        barrier(sim::flip());
        l.reset();
    }
    runners.join();
    for (u32 i = 0; i < nch; ++i) { chans[i].h.reset(); sim::kernel::rawClose(chans[i].fd); sim::kernel::rawClose(chans[i].other); }
    SIM_CHECK(NObj::live == 0, "leak", "%d handlers", NObj::live);
}
