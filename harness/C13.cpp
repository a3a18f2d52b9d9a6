// C13: the ticket spin lock is a fair mutual exclusion lock.
#include "common.h"
#include <sharemind/TicketSpinLock.h>
extern "C" char const * const sim_property = "C13";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(contended, "a thread waited for the lock");
SIM_PROBE_DEF(queue3, "three threads waited for the lock at once");
SIM_PROBE_DEF(order, "two waiting threads with a known order");
SIM_PROBE_DEF(warm8, "the lock had been taken more than 256 times");
SIM_PROBE_DEF(warm16, "the lock had been taken more than 65536 times");
SIM_PROBE_DEF(nested, "two locks held at once");
SIM_PROBE_DEF(cond, "used with a condition variable");

// What is known about each thread's wait.
struct Wait { bool active = false; u64 begin = 0, own = 0; u32 overtaken = 0; };
struct Lock {
    TicketSpinLock l;
    int holder = -1;                 // oracle
    Wait w[16];                      // oracle
    long a = 0, b = 0;               // protected by the lock alone
    std::vector<int> log;            // protected by the lock alone
};
// After this many of its own scheduling points inside lock() a thread has
// certainly asked for the lock.
u32 const ASKED = 20;

void lock(Lock & L) {
    int const me = sim::tid();
    int known[16]; int nk = 0;
    {
        sim::Oracle o;
        u32 waiting = 0;
        for (int t = 0; t < 16; ++t)
            if (L.w[t].active) { ++waiting; if (sim::threadSteps(t) - L.w[t].own >= ASKED) known[nk++] = t; }
        if (waiting >= 3) SIM_HIT(queue3);
        if (L.holder >= 0) SIM_HIT(contended);
        if (nk) SIM_HIT(order);
        L.w[me].active = true; L.w[me].begin = sim::step(); L.w[me].own = sim::threadSteps(me); L.w[me].overtaken = 0;
    }
    u64 begins[16]; for (int i = 0; i < nk; ++i) begins[i] = L.w[known[i]].begin;
    L.l.lock();
    {
        sim::Oracle o;
        SIM_CHECK(L.holder < 0, "exclusion", "thread %d acquires the lock while thread %d holds it", me, L.holder);
        L.holder = me; L.w[me].active = false;
        for (int i = 0; i < nk; ++i)
            SIM_CHECK(!(L.w[known[i]].active && L.w[known[i]].begin == begins[i]), "fairness", "thread %d acquires the lock before thread %d, which was waiting for it when thread %d asked", me, known[i], me);
        // Nobody is overtaken more often than there are other threads.
        for (int t = 0; t < 16; ++t)
            if (L.w[t].active && sim::threadSteps(t) - L.w[t].own >= ASKED) { ++L.w[t].overtaken; SIM_CHECK(L.w[t].overtaken <= 8, "starvation", "thread %d was overtaken %u times", t, L.w[t].overtaken); }
    }
}
void unlock(Lock & L) {
    { sim::Oracle o; SIM_CHECK(L.holder == sim::tid(), "exclusion", "the lock was passed on while it was held"); L.holder = -1; }
    L.l.unlock();
}
void critical(Lock & L, u32 work) {
    // Plain data: the lock must order it.
    SIM_CHECK(L.a == L.b && L.log.size() == static_cast<size_t>(L.a), "not-visible", "protected data damaged: %ld %ld %zu", L.a, L.b, L.log.size());
    ++L.a;
    L.log.push_back(sim::tid());
    dawdle(work);
    ++L.b;
}
struct Guarded { // for std::condition_variable_any
    Lock & L; void lock() { ::lock(L); } void unlock() { ::unlock(L); }
};
} // namespace

extern "C" void sim_setup() { sim::config.hardCap = 600000; }
extern "C" void sim_main() {
    sim::nontrivial();
    Lock A, B;
    u32 const n = 2 + sim::choose(4), rounds = 1 + sim::choose(5);
    bool const two = sim::chance(1, 4), cv = sim::chance(1, 4), shuttle = sim::flip();
    if (sim::chance(1, 3)) {
        // Counters of 8 or 16 bits would wrap around here.
        u32 times = 250 + sim::choose(12);
        if (sim::chance(1, 1000)) { times = 65530 + sim::choose(12); SIM_HIT(warm16); } else SIM_HIT(warm8);
        for (u32 i = 0; i < times; ++i) { A.l.lock(); A.l.unlock(); }
    }
    long total = 0;
    std::condition_variable_any c; int turn = 0;
    Threads ts;
    auto body = [&](u32 me) {
        for (u32 k = 0; k < rounds; ++k) {
            if (!shuttle) dawdle(sim::choose(16)); else if (sim::chance(1, 3)) dawdle(sim::choose(40));
            lock(A);
            critical(A, sim::choose(10));
            if (two && sim::flip()) { SIM_HIT(nested); lock(B); critical(B, sim::choose(4)); unlock(B); }
            unlock(A);
        }
        if (cv) {
            SIM_HIT(cond);
            Guarded g{A};
            g.lock();
            while (turn != static_cast<int>(me)) c.wait(g);
            critical(A, 1);
            ++turn;
            c.notify_all();
            g.unlock();
        }
    };
    for (u32 i = 1; i < n; ++i) ts.add([&body, i] { body(i); });
    body(0);
    ts.join();
    total = static_cast<long>(n) * (rounds + (cv ? 1 : 0));
    lock(A);
    SIM_CHECK(A.a == total && A.b == total, "not-visible", "%ld of %ld critical sections", A.a, total);
    for (u32 i = 0; i < 1; ++i) unlock(A);
}
