// C10: participatory pool calls honour status, deadline, task count and join.
#include "common.h"
#include <sharemind/ThreadPool.h>
#include <sharemind/ParticipatoryThreadPool.h>
extern "C" char const * const sim_property = "C10";
using namespace sharemind;
using Pool = ParticipatoryThreadPool;

namespace {
SIM_PROBE_DEF(timeouts, "a call with a deadline timed out");
SIM_PROBE_DEF(stops, "a call returned because of a stop");
SIM_PROBE_DEF(ran, "a one-task call ran a task");
SIM_PROBE_DEF(sysClock, "a deadline on the system clock");
SIM_PROBE_DEF(past, "a deadline that had already passed");
SIM_PROBE_DEF(behind, "a deadline passed while another participant waited without one");
SIM_PROBE_DEF(joinLive, "a join while participants came and went");
SIM_PROBE_DEF(destroyed, "destroyed with participants inside");
SIM_PROBE_DEF(pending, "tasks were pending at the stop");

struct Rec { bool started = false, done = false; u64 at = 0, startStep = 0; };
Rec rec[96]; int nrec;
int running_, inCall[64];        // tasks executed in the current call, by thread
u64 lastEnd;                     // when the last task ended
bool stopBegun, stopDone; u64 stopAt;
bool closed;                     // a join after a stop has returned
bool haveServer; u64 serverSince; int unlimitedWaiting;
bool jumps;
Pool * pool;

void submitTask(u32 work, bool sleeps, u32 children) {
    int i; { sim::Oracle o; i = nrec++; rec[i] = Rec(); rec[i].at = sim::now(); }
    pool->submit(ThreadPool::createSimpleTask([i, work, sleeps, children, payload = NObj(i)] {
        {
            sim::Oracle o;
            Rec & r = rec[i];
            SIM_CHECK(!r.started, "ran-twice", "task %d ran twice", i);
            SIM_CHECK(!closed, "after-join", "task %d started after a stop and join", i);
            r.started = true; r.startStep = sim::step(); ++running_; ++inCall[sim::tid()];
            if (steadyRun && haveServer && !stopBegun) {
                u64 const from = std::max(std::max(r.at, lastEnd), serverSince);
                SIM_CHECK(sim::now() < from + 60 * SEC, "stalled", "task %d started %llu s after it could", i, (unsigned long long) ((sim::now() - from) / SEC));
            }
        }
        SIM_CHECK(payload.value() == i, "callable", "task %d sees other data", i);
        dawdle(work);
        if (sleeps) sim::sleepNs(5 * SEC);
        for (u32 k = 0; k < children; ++k) submitTask(0, false, 0);
        sim::Oracle o; rec[i].done = true; --running_; lastEnd = sim::now();
    }));
}
void doStop() {
    { sim::Oracle o; stopBegun = true; }
    pool->notifyStop();
    sim::Oracle o; if (!stopDone) { stopDone = true; stopAt = sim::now(); }
}

template <typename TP> ThreadPool::Status until(bool once, TP const & tp) {
    return once ? pool->participateOnceUntil(tp) : pool->participateUntil(tp);
}
// One call of a participant; returns false when the pool is known to be stopped.
bool call(u32 kind) {
    u64 const t0 = sim::now(); bool timed = true, sys = false; u64 deadline = 0;
    int & n = inCall[sim::tid()];
    { sim::Oracle o; n = 0; }
    static std::int64_t const durs[] = { 100 * (std::int64_t) SEC, 0, 1, (std::int64_t) MS, 2000 * (std::int64_t) SEC, -5 * (std::int64_t) SEC };
    std::int64_t const d = durs[sim::choose(6)];
    bool const once = sim::flip();
    if (kind && d <= 0) SIM_HIT(past);
    ThreadPool::Status st = ThreadPool::Ok; bool one = false;
    std::chrono::nanoseconds const dur(d);
    u64 const real0 = static_cast<u64>(std::chrono::system_clock::now().time_since_epoch().count());
    switch (kind) {
    case 0:
        timed = false;
        { sim::Oracle o; ++unlimitedWaiting; }
        if (once) one = pool->participateOnce(); else pool->participate();
        { sim::Oracle o; --unlimitedWaiting; }
        break;
    case 1:
        deadline = t0 + static_cast<u64>(d); // unsigned wrap-around of negative durations is fine here
        st = once ? pool->participateOnceFor(dur) : pool->participateFor(dur);
        break;
    case 2: {
        auto const tp = std::chrono::steady_clock::now() + dur;
        deadline = static_cast<u64>(tp.time_since_epoch().count());
        st = until(once, tp);
        break; }
    default: {
        sys = true; SIM_HIT(sysClock);
        auto const tp = std::chrono::system_clock::now() + dur;
        deadline = static_cast<u64>(tp.time_since_epoch().count());
        st = until(once, tp);
        break; }
    }
    u64 const t1 = sim::now();
    u64 const real1 = static_cast<u64>(std::chrono::system_clock::now().time_since_epoch().count());
    sim::Oracle o;
    sim::note("call kind %u once %d status %d ran %d", kind, once, timed ? (int) st : one, n);
    if (!timed) {
        if (once) SIM_CHECK(n == (one ? 1 : 0), "count", "participateOnce returned %d after %d tasks", one, n);
        if (!once || !one) { SIM_CHECK(stopBegun, "status", "an unlimited call returned %d tasks without a stop", n); SIM_HIT(stops); }
        else SIM_HIT(ran);
    } else {
        switch (st) {
        case ThreadPool::Ok:
            SIM_CHECK(once, "status", "a call for any number of tasks returned Ok");
            SIM_CHECK(n == 1, "count", "a one-task call reported success after %d tasks", n); SIM_HIT(ran);
            break;
        case ThreadPool::Timeout: {
            SIM_HIT(timeouts);
            if (once) SIM_CHECK(n == 0, "count", "a one-task call reported a timeout after %d tasks", n);
            u64 const at = sys ? real1 : t1;
            if (!sys || !jumps) SIM_CHECK(static_cast<std::int64_t>(at - deadline) >= 0, "early-timeout", "timeout %llu ns before the deadline", (unsigned long long) (deadline - at));
            if (unlimitedWaiting) SIM_HIT(behind);
            break; }
        case ThreadPool::StopNotified:
            SIM_HIT(stops);
            if (once) SIM_CHECK(n == 0, "count", "a one-task call reported a stop after %d tasks", n);
            SIM_CHECK(stopBegun, "status", "a stop was reported without one");
            break;
        }
        if (steadyRun && (!sys || !jumps)) {
            u64 const dl = sys ? (static_cast<std::int64_t>(deadline - real0) > 0 ? t0 + (deadline - real0) : t0) : static_cast<std::int64_t>(deadline - t0) > 0 ? deadline : t0;
            u64 const from = std::max(dl, lastEnd);
            SIM_CHECK(t1 < from + 60 * SEC, "late", "a call returned %llu s after its deadline with no task executing", (unsigned long long) ((t1 - from) / SEC));
        }
    }
    if (steadyRun && stopDone) {
        u64 const from = std::max(std::max(stopAt, t0), lastEnd);
        SIM_CHECK(t1 < from + 60 * SEC, "late-stop", "a call returned %llu s after the stop", (unsigned long long) ((t1 - from) / SEC));
    }
    return !stopBegun;
}
void participant(u32 calls) { for (u32 k = 0; k < calls; ++k) if (!call(sim::choose(4)) && sim::flip()) return; }

void normal() {
    Pool p; pool = &p;
    Threads ts, submitters; ClockJumper j;
    j.start(); jumps = j.t.joinable();
    u32 const np = 1 + sim::choose(4);
    haveServer = sim::flip();
    if (haveServer) { serverSince = sim::now(); ts.add([] { { sim::Oracle o; ++unlimitedWaiting; } pool->participate(); { sim::Oracle o; --unlimitedWaiting; SIM_CHECK(stopBegun, "status", "participate returned without a stop"); } SIM_HIT(stops); }); }
    for (u32 i = 0; i < np; ++i) { u32 const n = 1 + sim::choose(4); ts.add([n] { participant(n); }); }
    u32 const ns = sim::choose(3);
    for (u32 i = 0; i < ns; ++i) {
        u32 const n = 1 + sim::choose(4);
        submitters.add([n] {
            for (u32 k = 0; k < n; ++k) {
                dawdle(sim::choose(12));
                if (sim::chance(1, 4)) sim::sleepNs(50 * SEC);
                submitTask(sim::choose(8), sim::chance(1, 5), sim::chance(1, 4) ? 1 : 0);
            }
        });
    }
    if (sim::chance(1, 3)) // somebody who only looks
        submitters.add([] {
            for (u32 k = 1 + sim::choose(6); k--;) {
                bool before; { sim::Oracle o; before = stopDone; }
                bool const r = pool->stopNotified();
                { sim::Oracle o; SIM_CHECK(r ? stopBegun : !before, "stop-state", "stopNotified is %d, a stop has %s", r, before ? "been made" : "not been made"); }
                dawdle(sim::choose(12));
                if (sim::flip()) sim::sleepNs(200 * SEC);
            }
        });
    u32 const nj = sim::choose(2);
    for (u32 i = 0; i < nj; ++i)
        submitters.add([] {
            dawdle(sim::choose(40));
            u64 const from = sim::step();
            pool->join();
            sim::Oracle o;
            SIM_HIT(joinLive);
            for (int k = 0; k < nrec; ++k) SIM_CHECK(!(rec[k].started && !rec[k].done && rec[k].startStep < from), "join-early", "join returned although task %d, started before, was still running", k);
        });
    for (u32 k = 1 + sim::choose(4); k--;) {
        dawdle(sim::choose(20));
        if (sim::flip()) sim::sleepNs((sim::flip() ? 3000 : 150) * SEC);
        if (sim::flip()) submitTask(sim::choose(8), false, 0);
    }
    if (haveServer && sim::flip()) { // nothing is lost: everything is run without a stop
        for (u32 k = 0; k < 3; ++k) { // joiners only return after the stop when there is a server
            sim::sleepNs(500 * SEC);
        }
        sim::Oracle o;
        for (int i = 0; i < nrec; ++i) if (steadyRun && rec[i].at + 100 * SEC < sim::now() && lastEnd + 100 * SEC < sim::now()) SIM_CHECK(rec[i].started, "lost-task", "task %d was not run although a participant was there", i);
    }
    doStop();
    SIM_CHECK(p.stopNotified(), "stop-state", "stopNotified is false after notifyStop");
    if (sim::flip()) {
        p.join();
        sim::Oracle o;
        SIM_CHECK(running_ == 0, "join-early", "%d tasks running after a stop and join", running_);
        closed = true;
    }
    submitters.join();
    ts.join();
    { sim::Oracle o; int left = 0; for (int i = 0; i < nrec; ++i) { SIM_CHECK(rec[i].started == rec[i].done, "unfinished", "task %d started but did not finish", i); left += !rec[i].started; } if (left) SIM_HIT(pending); }
}
// The pool is destroyed while participants are inside: they must have left
// before it is gone.
void destroyInside() {
    auto p(std::make_unique<Pool>()); pool = p.get();
    u32 const np = 1 + sim::choose(3);
    Threads ts;
    struct S { std::mutex m; std::condition_variable c; u32 in = 0; } s;
    for (u32 i = 0; i < np; ++i) {
        u32 const kind = sim::choose(3);
        ts.add([kind] {
            Pool * const q = pool;
            auto const tp = std::chrono::steady_clock::now() + std::chrono::hours(500);
            if (kind == 0 || !steadyRun) q->participate();
            else if (kind == 1) { auto const r = q->participateUntil(tp); SIM_CHECK(r == ThreadPool::StopNotified, "status", "status %d", (int) r); }
            else q->participate();
        });
    }
    for (u32 i = 0; i < np; ++i)
        p->submit(ThreadPool::createSimpleTask([&s, np, o = NObj(1)] {
            std::unique_lock<std::mutex> l(s.m);
            ++s.in; s.c.notify_all();
            while (s.in < np) s.c.wait(l);
        }));
    { std::unique_lock<std::mutex> l(s.m); while (s.in < np) s.c.wait(l); }
    for (u32 k = sim::choose(3); k--;) p->submit(ThreadPool::createSimpleTask([o = NObj(2)] { dawdle(5); }));
    dawdle(sim::choose(12));
    SIM_HIT(destroyed);
    if (sim::flip()) p->stopAndJoin();
    p.reset();
    ts.join();
}
} // namespace

extern "C" void sim_setup() { STEADY_SETUP(); }
extern "C" void sim_main() {
    sim::nontrivial();
    if (sim::chance(1, 4)) destroyInside(); else normal();
    SIM_CHECK(NObj::live == 0, "leak", "%d tasks alive", NObj::live);
}
