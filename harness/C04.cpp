// C04: timeout tasks fire once, in deadline order, never early, promptly.
#include "common.h"
#include <sharemind/TimeoutsThread.h>
extern "C" char const * const sim_property = "C04";
using sharemind::TimeoutsThread;
using Clock = TimeoutsThread::Clock;
static_assert(Clock::is_steady, "");

namespace {
SIM_PROBE_DEF(rearmed, "a task was added again from its own callback");
SIM_PROBE_DEF(earlier, "a task with an earlier deadline was added while the thread slept");
SIM_PROBE_DEF(same, "two tasks with the same deadline");
SIM_PROBE_DEF(past, "a deadline in the past");
SIM_PROBE_DEF(fromTask, "a task was added by another task");
SIM_PROBE_DEF(overlapDeadline, "a task ran after a deadline of another had passed");

struct Arm {                    // one arming of a task
    u64 lo, hi;                 // the deadline lies in [lo, hi]
    u64 addStart = 0, addDone = 0; // steps; 0: not yet
    u64 addDoneAt = 0, addStartAt = 0; // time
    int runs = 0;
};
std::vector<Arm> * arms;
std::mutex * mtx; std::condition_variable * cnd;
u32 pending;                    // under *mtx
int loopTid = -1;
u64 prevEndStep, prevEndAt;     // end of the previous task
int shared = 0;                 // plain: only ever touched by tasks
TimeoutsThread * tt;

u64 toNs(Clock::time_point t) { return static_cast<u64>(std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count()); }

void ranCheck(size_t id) {
    ++shared; // a data race here means two tasks run concurrently
    u64 const t = sim::now();
    sim::Oracle o;
    Arm & a = (*arms)[id];
    sim::note("task %u runs", (unsigned) id);
    SIM_CHECK(++a.runs == 1, "ran-twice", "arming %u ran %d times", (unsigned) id, a.runs);
    if (loopTid < 0) loopTid = sim::tid();
    SIM_CHECK(loopTid == sim::tid(), "wrong-thread", "tasks run on threads %d and %d", loopTid, sim::tid());
    SIM_CHECK(t >= a.lo, "early", "task %u ran %llu ns before its deadline", (unsigned) id, (unsigned long long) (a.lo - t));
    for (size_t i = 0; i < arms->size(); ++i) {
        Arm const & b = (*arms)[i];
        if (i == id || b.runs || !b.addDone || b.hi >= a.lo) continue;
        // b was certainly pending when a was taken: added before the thread
        // came back from the previous task, or before a was due.
        SIM_CHECK(!(b.addDone < prevEndStep || b.addDoneAt < a.lo), "order",
                  "task %u (due %llu ns) ran before pending task %u (due %llu ns)", (unsigned) id,
                  (unsigned long long) a.lo, (unsigned) i, (unsigned long long) b.hi);
    }
    if (steadyRun) {
        u64 from = a.hi; // a task may run before its addTask returns: then from its start
        if (a.addDoneAt > from) from = a.addDoneAt;
        if (a.addStartAt > from) from = a.addStartAt;
        if (prevEndAt > from) from = prevEndAt;
        SIM_CHECK(t < from + 60 * SEC, "late", "task %u ran %llu s after it could have", (unsigned) id, (unsigned long long) ((t - from) / SEC));
    }
    if (t > a.hi + SEC) SIM_HIT(overlapDeadline);
}
void endTask() {
    { sim::Oracle o; prevEndStep = sim::step(); }
    prevEndAt = sim::now();
    std::lock_guard<std::mutex> g(*mtx);
    if (!--pending) cnd->notify_all();
}

std::unique_ptr<TimeoutsThread::Task> makeTask(u32 kind, size_t id, u32 rearm, u64 busy);
void addNew(u32 depth, bool first);
void addArmed(std::unique_ptr<TimeoutsThread::Task> t, size_t id, u64 d, bool absolute);

struct Once {
    size_t id; u64 busy; u32 depth; Obj payload;
    void operator()() noexcept {
        SIM_CHECK(payload.value() == 5, "callable", "task object damaged");
        ranCheck(id);
        if (busy) sim::sleepNs(busy);
        if (depth) { SIM_HIT(fromTask); addNew(depth - 1, false); }
        endTask();
    }
};
struct Again {
    size_t id; u64 busy; u32 times; u64 period; Obj payload;
    void operator()(std::unique_ptr<TimeoutsThread::Task> && self) noexcept {
        SIM_CHECK(payload.value() == 5, "callable", "task object damaged");
        SIM_CHECK(self, "no-self", "a reusable task was not given itself");
        ranCheck(id);
        if (busy) sim::sleepNs(busy);
        if (times) {
            SIM_HIT(rearmed);
            --times;
            { sim::Oracle o; arms->emplace_back(); id = arms->size() - 1; }
            { std::lock_guard<std::mutex> g(*mtx); ++pending; }
            addArmed(std::move(self), id, period, false);
        }
        endTask();
    }
};

void addArmed(std::unique_ptr<TimeoutsThread::Task> t, size_t id, u64 d, bool absolute) {
    u64 const before = sim::now();
    {
        sim::Oracle o;
        Arm & a = (*arms)[id];
        a.lo = before + d; a.hi = ~u64(0) >> 1; a.addStart = sim::step(); a.addStartAt = sim::now();
        for (size_t i = 0; i < arms->size(); ++i) if (i != id && !(*arms)[i].runs && (*arms)[i].lo > a.lo && (*arms)[i].addDone) SIM_HIT(earlier);
    }
    if (absolute) {
        Clock::time_point const tp = Clock::now() + std::chrono::nanoseconds(d);
        { sim::Oracle o; Arm & a = (*arms)[id]; a.lo = a.hi = toNs(tp); }
        tt->addTask(tp, std::move(t));
    } else {
        tt->addTimeoutTask(std::chrono::nanoseconds(d), std::move(t));
    }
    u64 const after = sim::now();
    sim::Oracle o;
    Arm & a = (*arms)[id];
    if (!absolute) a.hi = after + d;
    a.addDone = sim::step(); a.addDoneAt = after;
}

u64 pickDelay() {
    static u64 const ds[] = { 0, 1, 2000, MS, 5 * MS, SEC, 1000 * SEC, 1000 * SEC + 1, 5000 * SEC, 90000 * SEC };
    return ds[sim::choose(10)];
}

std::unique_ptr<TimeoutsThread::Task> makeTask(u32 kind, size_t id, u32 n, u64 busy) {
    if (kind == 0) return TimeoutsThread::createOneShotTask(Once{id, busy, n, Obj(5)});
    u64 const period = pickDelay();
    return TimeoutsThread::createReusableTask(Again{id, busy, n, period, Obj(5)});
}
Clock::time_point const * commonDeadline;
void addNew(u32 depth, bool) {
    u32 const kind = sim::choose(3) == 2;
    u64 const busy = sim::chance(1, 4) ? pickDelay() : 0;
    u32 const n = kind ? sim::choose(3) : (sim::chance(1, 4) ? depth : 0);
    size_t id;
    { sim::Oracle o; arms->emplace_back(); id = arms->size() - 1; arms->back().lo = arms->back().hi = ~u64(0) >> 1; }
    { std::lock_guard<std::mutex> g(*mtx); ++pending; }
    auto t(makeTask(kind, id, n, busy));
    u32 const how = sim::choose(8);
    if (how == 0) { // a deadline shared by several tasks
        SIM_HIT(same);
        { sim::Oracle o; Arm & a = (*arms)[id]; a.lo = a.hi = toNs(*commonDeadline); a.addStart = sim::step(); a.addStartAt = sim::now(); }
        tt->addTask(*commonDeadline, std::move(t));
        u64 const after = sim::now();
        sim::Oracle o; Arm & a = (*arms)[id]; a.addDone = sim::step(); a.addDoneAt = after;
    } else if (how == 1) { // already past
        SIM_HIT(past);
        Clock::time_point const tp = Clock::now() - std::chrono::nanoseconds(sim::choose(3) * 1000);
        { sim::Oracle o; Arm & a = (*arms)[id]; a.lo = a.hi = toNs(tp); a.addStart = sim::step(); a.addStartAt = sim::now(); }
        tt->addTask(tp, std::move(t));
        u64 const after = sim::now();
        sim::Oracle o; Arm & a = (*arms)[id]; a.addDone = sim::step(); a.addDoneAt = after;
    } else addArmed(std::move(t), id, pickDelay(), how >= 5);
}
} // namespace

extern "C" void sim_setup() { STEADY_SETUP(); }
extern "C" void sim_main() {
    sim::nontrivial();
    { sim::Oracle o; arms = new std::vector<Arm>; arms->reserve(64); }
    std::mutex m; std::condition_variable c; mtx = &m; cnd = &c;
    ClockJumper j; j.start();
    Clock::time_point const cd = Clock::now() + std::chrono::nanoseconds(pickDelay());
    commonDeadline = &cd;
    {
        TimeoutsThread t;
        tt = &t;
        Threads ts;
        u32 const na = 1 + sim::choose(3);
        for (u32 i = 0; i < na; ++i) {
            u32 const n = 1 + sim::choose(4);
            auto body = [n] {
                for (u32 k = 0; k < n; ++k) {
                    if (sim::chance(1, 3)) sim::sleepNs(pickDelay()); else dawdle(sim::choose(16));
                    addNew(2, true);
                }
            };
            if (i) ts.add(body); else body();
        }
        ts.join();
        { std::unique_lock<std::mutex> l(m); while (pending) c.wait(l); }
    }
    for (size_t i = 0; i < arms->size(); ++i)
        SIM_CHECK((*arms)[i].runs == 1, "lost-task", "arming %u ran %d times", (unsigned) i, (*arms)[i].runs);
    SIM_CHECK(Obj::live == 0, "leak", "%d task payloads alive", Obj::live);
    sim::Oracle o; delete arms;
}
