// C05: stopping a timeouts thread terminates it and releases every task.
#include "common.h"
#include <sharemind/TimeoutsThread.h>
extern "C" char const * const sim_property = "C05";
using sharemind::TimeoutsThread;
using Clock = TimeoutsThread::Clock;

namespace {
SIM_PROBE_DEF(far, "stopped with a task due far in the future");
SIM_PROBE_DEF(running, "stopped while a task was running");
SIM_PROBE_DEF(afterStop, "a task was added after the stop");
SIM_PROBE_DEF(stopInTask, "stopped from a task");
SIM_PROBE_DEF(failedCtor, "constructing the timeouts thread failed");
SIM_PROBE_DEF(explicitStop, "stopped explicitly before destruction");
SIM_PROBE_DEF(overdue, "stopped while a task keeps adding itself with a deadline that has passed");
SIM_PROBE_DEF(selfAdding, "stopped while a task keeps adding itself");

bool over; bool inTask; u64 inTaskUntil; u64 busyTotal;
TimeoutsThread * tt;
bool taskStops;
u64 pickDelay() {
    static u64 const ds[] = { 0, 1, 2000, MS, SEC, 1000 * SEC, 5000 * SEC, 90000 * SEC };
    return ds[sim::choose(8)];
}
struct Body {
    u64 busy; bool stops; Obj payload;
    void enter() {
        { sim::Oracle o; SIM_CHECK(!over, "late-run", "a task ran after the destructor returned"); SIM_CHECK(!inTask, "overlap", "two tasks overlap"); inTask = true; }
        SIM_CHECK(payload.value() == 3, "callable", "task object damaged");
        if (busy) { u64 const t = sim::now(); sim::sleepNs(busy); u64 const e = sim::now(); sim::Oracle o; busyTotal += e - t; }
        if (stops) { SIM_HIT(stopInTask); tt->stop(); }
        SIM_CHECK(payload.value() == 3, "callable", "task object damaged");
        sim::Oracle o; inTask = false;
        SIM_CHECK(!over, "late-run", "a task was still running after the destructor returned");
    }
};
struct Once { Body b; void operator()() noexcept { b.enter(); } };
struct Again {
    Body b; u32 times; u64 period;
    void operator()(std::unique_ptr<TimeoutsThread::Task> && self) noexcept {
        b.enter();
        if (times) { --times; tt->addTimeoutTask(std::chrono::nanoseconds(period), std::move(self)); }
        else if (sim::flip()) { auto mine(std::move(self)); } // takes and drops itself
    }
};
// Always due: only a stop that takes precedence ends it.
int stopper = -1; u32 startedMeanwhile;
struct Overdue {
    Body b; u32 times; u64 due;
    void operator()(std::unique_ptr<TimeoutsThread::Task> && self) noexcept {
        {
            sim::Oracle o;
            if (stopper >= 0 && sim::threadBlocked(stopper)) ++startedMeanwhile;
            SIM_CHECK(startedMeanwhile < 30, "stop-stuck", "%u tasks have started while the destructor was waiting", startedMeanwhile);
        }
        b.enter();
        if (times--) tt->addTask(Clock::time_point(std::chrono::nanoseconds(due)), std::move(self));
    }
};
bool farTask, foreverTask;
void addOne(bool stops) {
    u64 const busy = sim::chance(1, 4) ? pickDelay() : 0;
    u64 const d = pickDelay();
    if (d > 900 * SEC) { sim::Oracle o; farTask = true; }
    std::unique_ptr<TimeoutsThread::Task> t;
    if (sim::flip()) t = TimeoutsThread::createOneShotTask(Once{Body{busy, stops, Obj(3)}});
    else {

        bool const forever = sim::chance(1, 3); if (forever) { sim::Oracle o; foreverTask = true; }
        u64 const period = pickDelay() + (forever ? MS : 0);
        u32 const times = forever ? 40 : sim::choose(3);
        t = TimeoutsThread::createReusableTask(Again{Body{busy, stops, Obj(3)}, times, period});
    }
    if (sim::chance(1, 10)) return; // never added: destroyed here
    if (sim::chance(1, 6)) tt->addTask(Clock::time_point::max(), std::move(t));
    else tt->addTimeoutTask(std::chrono::nanoseconds(d), std::move(t));
}
} // namespace

extern "C" void sim_setup() { STEADY_SETUP(); }
extern "C" void sim_main() {
    sim::nontrivial();
    ClockJumper j; j.start();
    std::unique_ptr<TimeoutsThread> t;
    try { sim::ThreadFaults tf; sim::AllocFaults af; t = std::make_unique<TimeoutsThread>(); }
    catch (std::system_error const &) { SIM_HIT(failedCtor); }
    catch (std::bad_alloc const &) { SIM_HIT(failedCtor); }
    if (t) {
        tt = t.get();
        taskStops = sim::chance(1, 4);
        bool const explicitStop = !taskStops && sim::chance(1, 3);
        Threads ts;
        u32 const na = sim::choose(3);
        for (u32 i = 0; i < na; ++i) {
            u32 const n = 1 + sim::choose(3);
            ts.add([n] { for (u32 k = 0; k < n; ++k) { if (sim::chance(1, 4)) sim::sleepNs(pickDelay()); else dawdle(sim::choose(16)); addOne(false); } });
        }
        if (!taskStops && sim::chance(1, 6)) {
            SIM_HIT(overdue);
            u64 const due = sim::flip() ? 5 * SEC : sim::now();
            tt->addTask(Clock::time_point(std::chrono::nanoseconds(due)), TimeoutsThread::createReusableTask(Overdue{Body{0, false, Obj(3)}, 90, due}));
        }
        u32 const n = sim::choose(3);
        for (u32 k = 0; k < n; ++k) addOne(false);
        if (taskStops) { // exactly one task stops the thread; it is waited for
            std::mutex m; std::condition_variable c; bool done = false;
            struct Stopper { std::mutex & m; std::condition_variable & c; bool & done; Body b;
                void operator()() noexcept { b.enter(); std::lock_guard<std::mutex> g(m); done = true; c.notify_all(); } };
            u64 const d = pickDelay();
            tt->addTimeoutTask(std::chrono::nanoseconds(d), TimeoutsThread::createOneShotTask(Stopper{m, c, done, Body{0, true, Obj(3)}}));
            std::unique_lock<std::mutex> l(m);
            while (!done) c.wait(l);
        }
        if (sim::chance(1, 3)) sim::sleepNs(pickDelay()); else dawdle(sim::choose(40));
        if (explicitStop) {
            SIM_HIT(explicitStop);
            t->stop();
            if (sim::flip()) { SIM_HIT(afterStop); addOne(false); }
            if (sim::flip()) sim::sleepNs(pickDelay());
            if (sim::flip()) t->stop();
        }
        bool const joinFirst = true;
        if (joinFirst) ts.join();
        if (farTask) SIM_HIT(far);
        if (foreverTask) SIM_HIT(selfAdding);
        u64 t0, b0; bool r;
        t0 = sim::now(); { sim::Oracle o; b0 = busyTotal; r = inTask; }
        if (r) SIM_HIT(running);
        { sim::Oracle o; stopper = sim::tid(); }
        t.reset();
        u64 const t1 = sim::now();
        { sim::Oracle o; over = true; SIM_CHECK(!inTask, "late-run", "a task is running after the destructor returned"); }
        // One task (the longest is 90000 s) may be running and is finished
        // first; otherwise only what was due before the stop could run.
        if (steadyRun) {
            u64 busy; { sim::Oracle o; busy = busyTotal - b0; }
            SIM_CHECK(t1 - t0 < busy + 60 * SEC, "slow-stop", "destruction took %llu s with %llu s spent in tasks", (unsigned long long) ((t1 - t0) / SEC), (unsigned long long) (busy / SEC));
        }
    }
    SIM_CHECK(Obj::live == 0, "leak", "%d task payloads alive", Obj::live);
    if (sim::flip()) sim::sleepNs(100000 * SEC);
}
