// C12: stopping a strand waits for its running task and starts none afterwards.
#include "common.h"
#include <sharemind/ThreadPool.h>
#include <sharemind/SimpleThreadPool.h>
#include <sharemind/ParticipatoryThreadPool.h>
#include <sharemind/Strand.h>
extern "C" char const * const sim_property = "C12";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(running, "a task was running when the stop was requested");
SIM_PROBE_DEF(neverRan, "tasks were pending at the stop");
SIM_PROBE_DEF(inside, "stopAndMaybeJoin from one of the strand's tasks");
SIM_PROBE_DEF(nested, "stopAndMaybeJoin from a task run inside one of the strand's tasks");
SIM_PROBE_DEF(outside, "stopAndMaybeJoin from outside");
SIM_PROBE_DEF(otherStrand, "stopped from a task of another strand");
SIM_PROBE_DEF(poolTask, "stopped from a plain task of the pool");
SIM_PROBE_DEF(several, "stopped by several threads");
SIM_PROBE_DEF(dtor, "stopped by the destructor alone");
SIM_PROBE_DEF(late, "submitted after the stop");
SIM_PROBE_DEF(ctorFailed, "constructing the strand failed");
SIM_PROBE_DEF(lastRef, "the strand held the last reference to its pool");
SIM_PROBE_DEF(endless, "stopped while a task kept submitting itself again");
SIM_PROBE_DEF(longQueue, "hundreds of tasks were pending at destruction");

struct Rec { bool started = false, done = false; };
Rec rec[64]; int nrec;
bool stopped; // stopAndMaybeJoin has returned in a task
int running_ = -1; bool stopBegun, joined; u32 handedBack; u32 startedAfterJoin;
u32 workers;
Strand * strand;
ThreadPool * rawPool; bool participatory;

void gotPool(std::shared_ptr<ThreadPool> const & p) {
    if (!p) return;
    sim::Oracle o;
    SIM_CHECK(p.get() == rawPool, "wrong-pool", "another pool was handed back");
    SIM_CHECK(++handedBack == 1, "handed-back", "the pool was handed back %u times", handedBack);
}
void stopBegins() { sim::Oracle o; if (running_ >= 0) SIM_HIT(running); stopBegun = true; }
// A stop that waits has returned.
void joinReturned(char const * what) {
    sim::Oracle o;
    SIM_CHECK(running_ < 0, "join-early", "%s returned while task %d was running", what, running_);
    joined = true;
}
void stopJoin() { stopBegins(); auto p(strand->stopAndJoin()); joinReturned("stopAndJoin"); gotPool(p); }
void stopMaybe() { SIM_HIT(outside); stopBegins(); auto p(strand->stopAndMaybeJoin()); joinReturned("stopAndMaybeJoin"); gotPool(p); }

ThreadPool::Task makeTask(u32 work, u32 inner) {
    int i; { sim::Oracle o; i = nrec++; rec[i] = Rec(); }
    return ThreadPool::createSimpleTask([i, work, inner, payload = NObj(i)] {
        {
            sim::Oracle o;
            SIM_CHECK(!rec[i].started, "ran-twice", "task %d ran twice", i);
            SIM_CHECK(running_ < 0, "overlap", "task %d starts while %d is running", i, running_);
            SIM_CHECK(!joined, "after-join", "task %d started after the stop had returned", i);
            SIM_CHECK(!stopped, "after-stop", "task %d started after stopAndMaybeJoin had returned in another one", i);
            rec[i].started = true; running_ = i;
        }
        SIM_CHECK(payload.value() == i, "callable", "task %d sees other data", i);
        dawdle(work);
        if (inner == 1) {
            SIM_HIT(inside);
            stopBegins();
            auto p(strand->stopAndMaybeJoin()); // must not block
            { sim::Oracle o; stopped = true; }
            gotPool(p);
            SIM_CHECK(!strand->stopAndMaybeJoin(), "handed-back", "the pool was handed back again");
        } else if (inner == 2 && participatory) {
            // Serve the pool from inside the strand's task.
            auto * const q = static_cast<ParticipatoryThreadPool *>(rawPool);
            std::shared_ptr<ThreadPool> got;
            bool ran = false; int const me = sim::tid();
            q->submit(ThreadPool::createSimpleTask([&got, &ran, me] {
                if (sim::tid() != me) return;
                SIM_HIT(nested); ran = true;
                stopBegins();
                got = strand->stopAndMaybeJoin(); // still inside: must not block
            }));
            // Somebody else may serve the task; it refers to this frame.
            struct Sync { std::mutex m; std::condition_variable c; bool done = false; };
            auto s(std::make_shared<Sync>());
            q->submit(ThreadPool::createSimpleTask([s] { std::lock_guard<std::mutex> g(s->m); s->done = true; s->c.notify_all(); }));
            q->participateOnceFor(std::chrono::seconds(0));
            // FIFO: once the second has been started the first was popped; wait for both.
            q->participateOnceFor(std::chrono::seconds(0));
            { std::unique_lock<std::mutex> l(s->m); while (!s->done) s->c.wait(l); }
            if (ran) gotPool(got);
        }
        dawdle(work);
        sim::Oracle o; rec[i].done = true; running_ = -1;
    });
}
void submitOne(bool mayInside) {
    u32 const work = sim::choose(8);
    u32 const inner = mayInside && sim::chance(1, 4) ? 1 : 0;
    ThreadPool::Task t;
    try { sim::AllocFaults f; t = makeTask(work, inner); } catch (std::bad_alloc const &) { return; }
    { sim::Oracle o; if (joined) SIM_HIT(late); }
    strand->submit(std::move(t));
}
// A task that submits itself again keeps the strand busy, but not a stop waiting.
void endlessTask() {
    workers = 1 + sim::choose(2);
    auto pool(std::make_shared<SimpleThreadPool>(workers));
    rawPool = pool.get();
    Strand s(pool); strand = &s;
    static u32 again, waited; static int stopper;
    again = 0; waited = 0; stopper = -1;
    struct Again {
        Obj o{7}; u32 work;
        void operator()(ThreadPool::Task && self) const {
            {
                sim::Oracle o2;
                SIM_CHECK(!joined, "after-join", "a task started after the stop had returned");
                if (stopBegun && sim::threadBlocked(stopper)) ++waited;
                SIM_CHECK(waited < 40, "stop-stuck", "%u tasks have started while a stop was waiting", waited);
            }
            SIM_CHECK(o.value() == 7, "callable", "the task is damaged");
            dawdle(work);
            if (++again < 200) strand->submit(std::move(self));
        }
    };
    for (u32 n = 1 + sim::choose(2); n--;) { Again a; a.work = sim::choose(3); s.submit(ThreadPool::createTask(std::move(a))); }
    dawdle(sim::choose(40));
    { sim::Oracle o; stopper = sim::tid(); }
    SIM_HIT(endless);
    if (sim::flip()) stopJoin(); else stopMaybe();
}
void body(std::shared_ptr<ThreadPool> pool, bool dropRef) {
    rawPool = pool.get();
    std::unique_ptr<Strand> s;
    try { sim::AllocFaults f; s.reset(new Strand(pool)); }
    catch (std::bad_alloc const &) { SIM_HIT(ctorFailed); return; }
    strand = s.get();
    bool const mayInside = !dropRef && sim::flip(); // such a task may be handed the pool: not the last reference to it
    Threads ts;
    u32 const nsub = sim::choose(3), nstop = sim::choose(3);
    for (u32 i = 0; i < nsub; ++i) { u32 const n = 1 + sim::choose(4); ts.add([=] { for (u32 k = 0; k < n; ++k) { dawdle(sim::choose(10)); submitOne(mayInside); } }); }
    for (u32 i = 0; i < nstop; ++i) { u32 const kind = sim::choose(2), d = sim::choose(40); ts.add([=] { dawdle(d); SIM_HIT(several); if (kind) stopMaybe(); else stopJoin(); }); }
    for (u32 k = sim::choose(5); k--;) { submitOne(mayInside); dawdle(sim::choose(6)); }
    // From the pool itself, when another worker remains to serve the strand.
    std::mutex m; std::condition_variable c; u32 waiting = 0;
    std::unique_ptr<Strand> other;
    if (workers > 1 && sim::chance(1, 3)) {
        bool const fromStrand = sim::flip(); u32 const kind = sim::choose(2);
        ++waiting;
        auto t(ThreadPool::createSimpleTask([&, fromStrand, kind] {
            if (fromStrand) SIM_HIT(otherStrand); else SIM_HIT(poolTask);
            if (kind) stopMaybe(); else stopJoin();
            std::lock_guard<std::mutex> g(m); --waiting; c.notify_all();
        }));
        if (fromStrand) { other.reset(new Strand(pool)); other->submit(std::move(t)); }
        else pool->submit(std::move(t));
    }
    dawdle(sim::choose(60));
    u32 const how = sim::choose(4);
    if (how == 0) stopJoin();
    else if (how == 1) stopMaybe();
    else if (how == 2) { stopJoin(); stopJoin(); if (sim::flip()) submitOne(false); }
    { std::unique_lock<std::mutex> l(m); while (waiting) c.wait(l); }
    ts.join();
    other.reset();
    bool const already = handedBack;
    if (how == 3 && !stopBegun) SIM_HIT(dtor);
    if (dropRef) { SIM_HIT(lastRef); pool.reset(); }
    s.reset();
    joinReturned("the destructor");
    (void) already;
    u32 pending = 0;
    for (int i = 0; i < nrec; ++i) { SIM_CHECK(rec[i].started == rec[i].done, "unfinished", "task %d started but did not finish", i); pending += !rec[i].started; }
    if (pending) SIM_HIT(neverRan);
}
char * lowest; char * highest;
struct Probe {
    bool on = true;
    Probe() {}
    Probe(Probe && o) : on(o.on) { o.on = false; }
    Probe(Probe const & o) : on(o.on) {}
    ~Probe() {
        if (!on) return;
        char * const here = static_cast<char *>(__builtin_frame_address(0));
        sim::Oracle o;
        if (!lowest || here < lowest) lowest = here;
        if (!highest || here > highest) highest = here;
    }
};
void manyPending() {
    SIM_HIT(longQueue);
    u32 const n = 500;
    sim::calmNow();
    auto p(std::make_shared<SimpleThreadPool>(0u));
    {
        auto s(std::make_unique<Strand>(p));
        s->stopAndJoin();
        for (u32 i = 0; i < n; ++i)
            s->submit(ThreadPool::createSimpleTask([o = NObj(static_cast<int>(i)), q = Probe()] { SIM_CHECK(o.value() < 0, "ran", "the strand is stopped"); }));
        lowest = highest = nullptr;
    }
    SIM_CHECK(highest - lowest < 6144, "stack", "destroying %u pending tasks took %ld bytes of stack between the tasks: it overflows with more of them", n, static_cast<long>(highest - lowest));
}
// A task of the strand serves the pool, and the task it serves stops the strand.
void nestedStop() {
    participatory = true;
    auto p(std::make_shared<ParticipatoryThreadPool>());
    rawPool = p.get(); workers = 1;
    Strand s(p); strand = &s;
    std::thread t([&p] { p->participate(); });
    for (u32 k = sim::choose(3); k--;) { s.submit(makeTask(sim::choose(4), 0)); }
    s.submit(makeTask(sim::choose(4), 2));
    for (u32 k = sim::choose(3); k--;) { s.submit(makeTask(sim::choose(4), 0)); dawdle(sim::choose(8)); }
    dawdle(sim::choose(100));
    if (sim::flip()) stopJoin(); else stopMaybe();
    // The tasks the strand's task has put into the pool must be gone first.
    sim::awaitQuiescence();
    p->notifyStop();
    t.join();
}
} // namespace

extern "C" void sim_main() {
    sim::nontrivial();
    u32 const what = sim::choose(150);
    if (what == 1) manyPending();
    else if (what >= 110) nestedStop();
    else if (what >= 100) endlessTask();
    else {
        workers = 1 + sim::choose(3);
        if (sim::flip()) {
            auto p(std::make_shared<SimpleThreadPool>(workers));
            bool const drop = sim::flip();
            body(drop ? std::move(p) : p, drop);
        } else {
            participatory = true;
            auto p(std::make_shared<ParticipatoryThreadPool>());
            Threads ts;
            ParticipatoryThreadPool * const q = p.get();
            for (u32 i = 0; i < workers; ++i) ts.add([q] { q->participate(); });
            body(p, false);
            p->notifyStop();
            ts.join();
        }
    }
    SIM_CHECK(Obj::live == 0, "leak", "%d tasks alive", Obj::live);
    SIM_CHECK(NObj::live == 0, "leak", "%d task payloads alive", NObj::live);
}
