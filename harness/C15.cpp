// C15: latches and simple waits release every waiter, and only when due.
#include "common.h"
#include <sharemind/Latch.h>
#include <sharemind/SimpleWait.h>
#include <sharemind/Stoppable.h>
extern "C" char const * const sim_property = "C15";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(destroyedAtOnce, "destroyed by the waiter right after its wait");
SIM_PROBE_DEF(waitedLate, "a wait began after the release");
SIM_PROBE_DEF(stopped, "a wait was stopped by its stop test");
SIM_PROBE_DEF(polled, "a stop test let a wait continue");
SIM_PROBE_DEF(renotified, "notified more than once");
SIM_PROBE_DEF(reset, "a stop request was withdrawn");

u32 started, finished, lasts;   // count-downs begun / returned / reported last
int data[8];                    // plain, one slot per counting thread

template <typename C> void latch() {
    u32 const n = 1 + sim::choose(5), nw = sim::choose(3);
    u32 const threads = 1 + sim::choose(std::min<u32>(n, 3));
    bool const doomed = sim::flip();
    auto * l = new Latch<C>(static_cast<C>(n));
    started = finished = lasts = 0;
    SIM_CHECK(!l->isReady(), "early", "a new latch of %u is ready", n);
    auto released = [n](char const * what) {
        sim::Oracle o;
        SIM_CHECK(started >= n, "early", "%s released after %u of %u count-downs began", what, started, n);
    };
    auto checkData = [threads] { for (u32 i = 0; i < threads; ++i) SIM_CHECK(data[i] == 10 + static_cast<int>(i), "not-visible", "thread %u's writes are not visible after the release", i); };
    // The last count-down of a thread may block (countDownAndWait).
    Threads ts; u32 per[3] = {}; for (u32 i = 0; i < n; ++i) ++per[i % threads];
    u32 waitersOnThreads = 0;
    for (u32 i = 0; i < threads; ++i) {
        bool const andWait = sim::flip();
        u32 const cnt = per[i], d = sim::choose(10);
        if (andWait) ++waitersOnThreads;
        ts.add([=] {
            for (u32 k = 0; k < cnt; ++k) {
                dawdle(sim::choose(4) + (k ? 0 : d));
                if (k == cnt - 1) data[i] = 10 + static_cast<int>(i);
                { sim::Oracle o; ++started; }
                if (k == cnt - 1 && andWait) {
                    l->countDownAndWait();
                    released("countDownAndWait"); checkData();
                } else {
                    bool const last = l->countDown();
                    sim::Oracle o;
                    if (last) { ++lasts; SIM_CHECK(started == n && lasts == 1, "last", "a count-down reported last after %u of %u", started, n); }
                }
                sim::Oracle o; ++finished;
            }
        });
    }
    for (u32 w = 0; w < nw; ++w) {
        bool const poll = sim::flip(); u32 const d = sim::choose(20);
        ts.add([=] {
            dawdle(d);
            { bool late; { sim::Oracle o; late = finished == n; } if (late) SIM_HIT(waitedLate); }
            if (poll) { while (!l->isReady()) std::this_thread::yield(); } else l->wait();
            released("waiter"); checkData();
            SIM_CHECK(l->isReady(), "not-ready", "a released latch is not ready");
        });
    }
    if (doomed && !nw && !waitersOnThreads) {
        // The usual fork-join: the latch goes away as soon as its waiter returns.
        l->wait(); released("waiter"); checkData(); SIM_HIT(destroyedAtOnce);
        delete l; l = nullptr;
        ts.join();
    } else {
        if (sim::flip()) { l->wait(); released("waiter"); checkData(); }
        ts.join();
        SIM_CHECK(l->isReady(), "not-ready", "latch not ready after all count-downs");
        l->wait(); // returns at once
        delete l;
    }
    // Exactly one count-down brings the counter to zero; countDownAndWait does not report.
    sim::Oracle o;
    SIM_CHECK(finished == n, "lost", "%u of %u count-downs returned", finished, n);
    SIM_CHECK(lasts == 1 || (lasts == 0 && waitersOnThreads), "last", "%u count-downs reported last", lasts);
}

bool notifyStarted, notifyDone; u64 notifiedAt;
int payload;
template <typename D> void waitOr(SimpleWait & w, D d, u64 loopNs, bool stops, u32 after) {
    u32 polls = 0; bool thrown = false; u64 last = sim::now(), t0 = last;
    auto test = [&] {
        u64 const t = sim::now();
        SIM_CHECK(!thrown, "stop-again", "stop test called again after it threw");
        if (steadyRun && !sim::config.spurious) SIM_CHECK(t - last < loopNs + 60 * SEC, "poll-late", "stop test not called for %llu s, interval %llu s", (unsigned long long) ((t - last) / SEC), (unsigned long long) (loopNs / SEC));
        last = t;
        if (stops && polls >= after) { thrown = true; throw UserError{17}; }
        ++polls; SIM_HIT(polled);
    };
    try {
        w.waitOrStop(test, d);
        SIM_CHECK(!thrown, "swallowed", "the stop test's exception was swallowed");
        u64 const t1 = sim::now();
        SIM_CHECK(payload == 99, "not-visible", "writes before the notification are not visible");
        sim::Oracle o;
        SIM_CHECK(notifyStarted, "early", "released before the notification");
        if (steadyRun && !sim::config.spurious) SIM_CHECK(t1 - last < loopNs + 60 * SEC, "poll-late", "stop test not called for %llu s, interval %llu s", (unsigned long long) ((t1 - last) / SEC), (unsigned long long) (loopNs / SEC));
        if (steadyRun && notifyDone) { u64 const f = std::max(t0, notifiedAt); SIM_CHECK(t1 < f + 60 * SEC, "late", "released %llu s after the notification", (unsigned long long) ((t1 - f) / SEC)); }
    } catch (UserError const & e) { SIM_CHECK(thrown && e.id == 17, "exception", "unexpected exception"); SIM_HIT(stopped); }
}
void simpleWait() {
    auto * w = new SimpleWait;
    notifyStarted = notifyDone = false; payload = 0;
    u32 const nw = 1 + sim::choose(3), d = sim::choose(30); bool const twice = sim::chance(1, 4);
    static u64 const loops[] = { 3 * MS, 1, SEC, 20000 * SEC };
    u64 const stall = sim::chance(1, 3) ? loops[sim::choose(4)] : 0;
    bool const doomed = sim::flip() && nw == 1;
    Threads ts;
    auto notifier = [=] {
        dawdle(d); if (stall) sim::sleepNs(stall * 3);
        payload = 99;
        { sim::Oracle o; notifyStarted = true; }
        w->notifyReady();
        { sim::Oracle o; notifyDone = true; notifiedAt = sim::now(); }
        if (twice && !doomed) { SIM_HIT(renotified); w->notifyReady(); }
    };
    auto waiter = [=](u32 kind, u64 loop, bool stops, u32 after, u32 dd) {
        dawdle(dd);
        { bool late; { sim::Oracle o; late = notifyDone; } if (late) SIM_HIT(waitedLate); }
        if (kind == 0) {
            u64 const t0 = sim::now(); w->wait(); u64 const t1 = sim::now();
            SIM_CHECK(payload == 99, "not-visible", "writes before the notification are not visible");
            sim::Oracle o; SIM_CHECK(notifyStarted, "early", "released before the notification");
            if (steadyRun && notifyDone) { u64 const f = std::max(t0, notifiedAt); SIM_CHECK(t1 < f + 60 * SEC, "late", "released late"); }
        } else if (kind == 1) { auto dur = std::chrono::nanoseconds(loop); waitOr(*w, dur, loop, stops, after); }
        else { StaticLoopDuration<5u> dur; waitOr(*w, dur, 5 * MS, stops, after); }
    };
    ts.add(notifier);
    for (u32 i = 0; i < nw; ++i) {
        u32 const kind = sim::choose(3), after = sim::choose(4), dd = sim::choose(20); u64 loop = loops[sim::choose(4)]; bool const stops = sim::chance(1, 3);
        if (stall) loop = std::max(loop, stall / 4);
        if (kind == 2 && stall > SEC) { waiter(0, 0, false, 0, dd); continue; }
        if (doomed) {
            if (stops && kind) break; // it may leave before the notification
            waiter(kind, loop, false, after, dd); SIM_HIT(destroyedAtOnce); delete w; w = nullptr; break;
        }
        if (i == nw - 1) waiter(kind, loop, stops, after, dd); else ts.add([=] { waiter(kind, loop, stops, after, dd); });
    }
    ts.join();
    if (w) { w->wait(); delete w; }
}

struct Stop { int v; std::string why = "a reason that does not fit into the string object"; explicit Stop(int v_) : v(v_) {} };
struct StopNow {};
void stoppable() {
    Stoppable s;
    SIM_CHECK(!s.stopRequested(), "stop", "stop requested from the start");
    Threads ts;
    u32 const n = 1 + sim::choose(3);
    bool requested = false;
    // Pollers that only end when they see the request.
    for (u32 i = 0; i < n; ++i) {
        u32 const kind = sim::choose(5);
        ts.add([&s, kind, &requested] {
            Stoppable::TestActor<StopNow> t(s);
            Stop mine(6);
            for (bool go = true; go;) {
                switch (kind) {
                case 0: go = !s.stopRequested(); break;
                case 1: try { s.throwIfStopRequested<StopNow>(); } catch (StopNow const &) { go = false; } break;
                case 2: try { s.throwIfStopRequested(Stop{5}); } catch (Stop const & e) { SIM_CHECK(e.v == 5 && !e.why.empty(), "exception", "wrong exception"); go = false; } break;
                case 3: {
                    // The same exception object is used again and again.
                                        try { s.throwIfStopRequested(mine); } catch (Stop const & e) { SIM_CHECK(e.v == 6 && e.why == mine.why, "exception", "wrong exception"); go = false; }
                    SIM_CHECK(mine.v == 6 && mine.why == Stop(0).why, "moved-from", "the exception given was changed");
                    try { s.throwIfStopRequested(static_cast<Stop const &>(mine)); } catch (Stop const & e) { SIM_CHECK(e.v == 6 && e.why == mine.why, "exception", "wrong exception"); go = false; }
                    break;
                }
                default: try { t(); } catch (StopNow const &) { go = false; } break;
                }
                if (go) std::this_thread::yield();
            }
            sim::Oracle o; SIM_CHECK(requested, "early", "a stop was seen before it was requested");
        });
    }
    dawdle(sim::choose(20));
    { sim::Oracle o; requested = true; }
    s.stop();
    SIM_CHECK(s.stopRequested(), "lost", "own stop request not seen");
    ts.join();
    SIM_CHECK(s.stopRequested(), "lost", "stop request lost");
    if (sim::flip()) {
        // Handed over to another thread, properly ordered: it must see it.
        bool want = true;
        if (sim::flip()) { s.reset(); want = false; SIM_HIT(reset); }
        std::thread t([&s, want] {
            SIM_CHECK(s.stopRequested() == want, "stale", "a poll after a %s says the opposite", want ? "stop" : "reset");
            bool threw = false;
            try { s.throwIfStopRequested<StopNow>(); } catch (StopNow const &) { threw = true; }
            SIM_CHECK(threw == want, "stale", "throwIfStopRequested after a %s", want ? "stop" : "reset");
            if (sim::flip()) s.stop();
            else s.reset();
        });
        t.join();
    }
}
} // namespace

extern "C" void sim_setup() { STEADY_SETUP(); if (steadyRun && sim::flip()) sim::config.spurious = false; }
extern "C" void sim_main() {
    sim::nontrivial();
    switch (sim::choose(5)) {
    case 0: latch<unsigned>(); break;
    case 1: latch<unsigned char>(); break;
    case 2: case 3: simpleWait(); break;
    default: stoppable(); break;
    }
}
