// C09: stopping a simple thread pool terminates; failed construction is clean.
#include "common.h"
#include <sharemind/ThreadPool.h>
#include <sharemind/SimpleThreadPool.h>
extern "C" char const * const sim_property = "C09";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(ctorFailed, "constructing the pool failed");
SIM_PROBE_DEF(ctorFailedLate, "constructing the pool failed after some workers started");
SIM_PROBE_DEF(taskFailed, "creating a task failed");
SIM_PROBE_DEF(neverRan, "tasks were pending when the pool was stopped");
SIM_PROBE_DEF(fromTask, "the stop was requested by a task");
SIM_PROBE_DEF(twice, "several threads stopped the pool at once");
SIM_PROBE_DEF(joinFirst, "a join was waiting when the stop was requested");
SIM_PROBE_DEF(afterStop, "a task was submitted after the stop");
SIM_PROBE_DEF(running, "a task was running when the stop was requested");
SIM_PROBE_DEF(longQueue, "hundreds of tasks were pending at destruction");

struct Rec { bool submitted = false, started = false, done = false; };
Rec rec[64]; int nrec;
int running_, startedByThread[64];
bool stopDone, joined;              // a notifyStop()/stopAndJoin() returned / a join returned
int startedAfterStop[64];           // by simulated thread
SimpleThreadPool * pool;
bool taskMayStop;

void stopReturned() { sim::Oracle o; stopDone = true; if (running_) SIM_HIT(running); }
void joinReturned() {
    sim::Oracle o; joined = true;
    SIM_CHECK(running_ == 0, "join-early", "join returned while %d tasks were running", running_);
}
int make(ThreadPool::Task & out, u32 work, bool stops) {
    int i; { sim::Oracle o; i = nrec++; rec[i] = Rec(); }
    auto f = [i, work, stops, payload = NObj(i)] {
        {
            sim::Oracle o;
            SIM_CHECK(!rec[i].started, "ran-twice", "task %d ran twice", i);
            SIM_CHECK(!joined, "after-join", "task %d started after join had returned", i);
            rec[i].started = true; ++running_;
            if (stopDone) {
                // It may have been popped before the stop; the next one was not.
                SIM_CHECK(++startedAfterStop[sim::tid()] <= 1, "after-stop", "a worker started two tasks after the stop");
            }
        }
        SIM_CHECK(payload.value() == i, "callable", "task %d sees other data", i);
        dawdle(work);
        if (stops) {
            SIM_HIT(fromTask); pool->notifyStop(); stopReturned();
            SIM_CHECK(pool->stopNotified(), "stop-state", "stopNotified is false after notifyStop");
        }
        dawdle(work);
        sim::Oracle o; rec[i].done = true; --running_;
    };
    out = sim::flip() ? ThreadPool::createSimpleTask(std::move(f))
                      : ThreadPool::createTask([g = std::move(f)](ThreadPool::Task && self) mutable {
                            SIM_CHECK(self, "no-self", "a task was not given itself"); g(); });
    return i;
}
void submitter(u32 n) {
    for (u32 k = 0; k < n; ++k) {
        if (sim::flip()) dawdle(sim::choose(10));
        ThreadPool::Task t;
        bool ok = true;
        u32 const work = sim::choose(10); bool const stops = taskMayStop && sim::chance(1, 6);
        try { sim::AllocFaults f; make(t, work, stops); }
        catch (std::bad_alloc const &) { ok = false; SIM_HIT(taskFailed); }
        if (!ok) continue;
        { sim::Oracle o; if (stopDone) SIM_HIT(afterStop); }
        pool->submit(std::move(t));
        SIM_CHECK(!t, "not-taken", "submit did not take the task");
    }
}
void lifecycle() {
    u32 const workers = sim::choose(4), nsub = sim::choose(3), nstop = sim::choose(3);
    taskMayStop = sim::flip();
    unsigned const before = sim::liveThreads();
    std::unique_ptr<SimpleThreadPool> p;
    try { sim::AllocFaults a; sim::ThreadFaults f; p.reset(new SimpleThreadPool(workers)); }
    catch (std::bad_alloc const &) { SIM_CHECK(sim::allocFaultsFired(), "error-kind", "bad_alloc without a failed allocation"); }
    catch (std::system_error const & e) { SIM_CHECK(sim::threadFaultsFired(), "error-kind", "system_error without a failed thread creation"); SIM_CHECK(e.code() == std::errc::resource_unavailable_try_again, "error-kind", "wrong error %d", e.code().value()); }
    if (!p) {
        SIM_HIT(ctorFailed); if (sim::threadFaultsFired() && workers > 1) SIM_HIT(ctorFailedLate);
        SIM_CHECK(sim::liveThreads() == before, "left-running", "%u workers still alive after the constructor failed", sim::liveThreads() - before);
        return;
    }
    SIM_CHECK(!sim::allocFaultsFired() && !sim::threadFaultsFired(), "swallowed", "the constructor succeeded although creating a worker failed");
    pool = p.get();
    SIM_CHECK(sim::liveThreads() == before + workers, "workers", "%u of %u workers", sim::liveThreads() - before, workers);
    if (!taskMayStop) SIM_CHECK(!pool->stopNotified(), "stop-state", "stopped from the start");
    Threads ts;
    for (u32 i = 0; i < nsub; ++i) { u32 const n = 1 + sim::choose(5); ts.add([n] { submitter(n); }); }
    for (u32 i = 0; i < nstop; ++i) {
        u32 const kind = sim::choose(4), d = sim::choose(40);
        ts.add([kind, d] {
            switch (kind) {
            case 0: dawdle(d); pool->notifyStop(); stopReturned(); break;
            case 1: dawdle(d / 4); SIM_HIT(joinFirst); pool->join(); joinReturned(); break;
            case 2: dawdle(d); pool->stopAndJoin(); stopReturned(); joinReturned(); SIM_HIT(twice); break;
            default: dawdle(d); pool->notifyStop(); stopReturned(); pool->join(); joinReturned(); break;
            }
        });
    }
    submitter(sim::choose(5));
    dawdle(sim::choose(60));
    u32 const how = sim::choose(4);
    if (how == 0) { pool->notifyStop(); stopReturned(); SIM_CHECK(pool->stopNotified(), "stop-state", "stopNotified is false after notifyStop"); pool->join(); joinReturned(); }
    else if (how == 1) { pool->stopAndJoin(); stopReturned(); joinReturned(); if (sim::flip()) pool->stopAndJoin(); }
    else if (how == 2) { pool->notifyStop(); stopReturned(); }
    if (nsub + nstop) {
        if (how == 3) { pool->notifyStop(); stopReturned(); } // lets joining threads end
        ts.join();
    }
    p.reset();
    joinReturned();
    SIM_CHECK(sim::liveThreads() == before, "left-running", "%u workers still alive after destruction", sim::liveThreads() - before);
    int pending = 0;
    for (int i = 0; i < nrec; ++i) { SIM_CHECK(rec[i].started == rec[i].done, "unfinished", "task %d was started but not finished", i); pending += !rec[i].started; }
    if (pending) SIM_HIT(neverRan);
    SIM_CHECK(NObj::live == 0, "leak", "%d tasks alive after the pool is gone", NObj::live);
}
// Many pending tasks: destroying them must not need stack in proportion (the
// real thing crashes at some number of pending tasks).
char * lowest; char * highest;
struct Probe {
    bool on = true;
    Probe() {}
    Probe(Probe && o) : on(o.on) { o.on = false; }
    Probe(Probe const & o) : on(o.on) {}
    ~Probe() {
        if (!on) return;
        char * const here = static_cast<char *>(__builtin_frame_address(0));
        sim::Oracle o;
        if (!lowest || here < lowest) lowest = here;
        if (!highest || here > highest) highest = here;
    }
};
void manyPending() {
    SIM_HIT(longQueue);
    u32 const n = 800;
    {
        SimpleThreadPool p(0);
        sim::calmNow();
        for (u32 i = 0; i < n; ++i)
            p.submit(ThreadPool::createSimpleTask([o = NObj(static_cast<int>(i)), q = Probe()] { SIM_CHECK(o.value() < 0, "ran", "no worker"); }));
        lowest = highest = nullptr;
    }
    SIM_CHECK(highest - lowest < 8192, "stack", "destroying %u pending tasks took %ld bytes of stack between the tasks: it overflows with more of them", n, static_cast<long>(highest - lowest));
}
} // namespace

extern "C" void sim_main() {
    sim::nontrivial();
    if (sim::chance(1, 150)) manyPending(); else lifecycle();
    SIM_CHECK(NObj::live == 0, "leak", "%d tasks alive", NObj::live);
}
