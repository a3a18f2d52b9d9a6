// C07: blocking circular buffer waits wake up, and stop tests stop them.
#include "common.h"
#include <sharemind/CircBufferSCSP.h>
#include <sharemind/Durations.h>
extern "C" char const * const sim_property = "C07";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(stoppedData, "a wait for data was stopped");
SIM_PROBE_DEF(stoppedSpace, "a wait for space was stopped");
SIM_PROBE_DEF(polled, "a stop test let a wait continue");
SIM_PROBE_DEF(both, "both sides block");
SIM_PROBE_DEF(flagBefore, "a stop had been requested before the wait");
SIM_PROBE_DEF(flagDuring, "a stop was requested during a wait nobody else ended");
SIM_PROBE_DEF(longLoop, "the loop interval is far longer than the wait");

u32 wroteStarted, wroteDone, readDone, readStarted;
u64 wroteDoneAt, readDoneAt; // time of the last transfer

u32 pauses, small; // how often to pause (1 in), transfer single elements
u64 stall; // of the other side, in proportion to the loop intervals
// How one side waits.
struct How { u32 kind; u64 loopNs; bool stops; u32 stopAfter; };
How pick() {
    static u64 const loops[] = { 3 * MS, 1, SEC, 20000 * SEC, 30 * SEC };
    How h; h.kind = sim::flip() ? 0 : 1 + sim::choose(2); h.loopNs = loops[sim::choose(5)]; h.stops = sim::chance(1, 3); h.stopAfter = sim::choose(4);
    return h;
}
// Runs one wait. True: it returned n; false: its stop test threw.
template <typename W0, typename W1> bool doWait(How & h, size_t & n, bool data, W0 plain, W1 withStop) {
    if (h.kind == 0) { n = plain(); return true; }
    u32 polls = 0; u64 last = sim::now(); u32 const id = 1000 + h.stopAfter; bool thrown = false;
    u64 const loop = h.loopNs; bool const stops = h.stops; u32 const after = h.stopAfter;
    if (loop > 900 * SEC) SIM_HIT(longLoop);
    auto test = [&polls, &last, &thrown, loop, stops, after, id] {
        u64 const t = sim::now();
        SIM_CHECK(!thrown, "stop-again", "the stop test was called again after it threw");
        if (steadyRun) SIM_CHECK(t - last < loop + 60 * SEC, "poll-late", "the stop test was not called for %llu s with an interval of %llu s", (unsigned long long) ((t - last) / SEC), (unsigned long long) (loop / SEC));
        last = t;
        if (stops && polls >= after) { thrown = true; throw UserError{static_cast<int>(id)}; }
        ++polls;
        SIM_HIT(polled);
    };
    try { n = withStop(test, std::chrono::nanoseconds(loop)); SIM_CHECK(!thrown, "swallowed", "the stop test's exception was swallowed"); }
    catch (UserError const & e) {
        SIM_CHECK(thrown && e.id == static_cast<int>(id), "exception", "unexpected exception %d", e.id);
        if (data) SIM_HIT(stoppedData); else SIM_HIT(stoppedSpace);
        h.stops = false; // later waits go on
        return false;
    }
    u64 const t = sim::now();
    if (steadyRun) SIM_CHECK(t - last < loop + 60 * SEC, "poll-late", "the stop test was not called for %llu s with an interval of %llu s", (unsigned long long) ((t - last) / SEC), (unsigned long long) (loop / SEC));
    return true;
}

template <typename B> void consumer(B & b, u32 total, How h) {
    for (u32 next = 0; next < total;) {
        u64 const t0 = sim::now();
        size_t n = 0;
        bool const ok = doWait(h, n, true, [&b] { return b.waitDataAvailable(); },
                               [&b](auto & st, auto const & d) { return b.waitDataAvailable(st, d); });
        u64 const t1 = sim::now();
        { // something was there to return for
            sim::Oracle o;
            if (ok) SIM_CHECK(n > 0 && n <= b.bufferSize() && n <= wroteStarted - next, "early", "a wait for data returned %zu with at most %u written", n, wroteStarted - next);
            if (steadyRun && wroteDone > next) { // woken promptly, not by the loop interval
                u64 from = wroteDoneAt > t0 ? wroteDoneAt : t0;
                SIM_CHECK(t1 < from + 60 * SEC, "late", "a wait for data returned %llu s after there was some", (unsigned long long) ((t1 - from) / SEC));
            }
        }
        if (!ok) continue;
        dawdle(sim::choose(6));
        if (sim::chance(1, pauses)) sim::sleepNs(stall * (1 + sim::choose(3)));
        int v[16];
        size_t const want = small & 1 ? 1 : 1 + sim::choose(static_cast<u32>(n) + 2);
        { sim::Oracle o; readStarted = next + static_cast<u32>(want); }
        size_t const r = b.read(v, want);
        SIM_CHECK(r >= std::min(want, n) && r <= want, "short", "read %zu of %zu with %zu available", r, want, n);
        for (size_t i = 0; i < r; ++i) SIM_CHECK(v[i] == static_cast<int>(next + i), "fifo", "element %d instead of %u", v[i], (unsigned) (next + i));
        next += static_cast<u32>(r);
        sim::Oracle o; readStarted = readDone = next; readDoneAt = sim::now();
    }
}
template <typename B> void producer(B & b, u32 total, How h) {
    for (u32 next = 0; next < total;) {
        u64 const t0 = sim::now();
        size_t n = 0;
        bool const ok = doWait(h, n, false, [&b] { return b.waitSpaceAvailable(); },
                               [&b](auto & st, auto const & d) { return b.waitSpaceAvailable(st, d); });
        u64 const t1 = sim::now();
        {
            sim::Oracle o;
            long const cap = static_cast<long>(b.bufferSize());
            if (ok) SIM_CHECK(n > 0 && static_cast<long>(n) <= cap && static_cast<long>(n) <= cap - (static_cast<long>(next) - static_cast<long>(readStarted)), "early", "a wait for space returned %zu, %u used of %ld", n, next - readStarted, cap);
            if (steadyRun && static_cast<long>(next) - static_cast<long>(readDone) < cap) {
                u64 const from = readDoneAt > t0 ? readDoneAt : t0;
                SIM_CHECK(t1 < from + 60 * SEC, "late", "a wait for space returned %llu s after there was some", (unsigned long long) ((t1 - from) / SEC));
            }
        }
        if (!ok) continue;
        dawdle(sim::choose(6));
        if (sim::chance(1, pauses)) sim::sleepNs(stall * (1 + sim::choose(3)));
        int v[16];
        size_t const want = small & 2 ? 1 : std::min<size_t>(1 + sim::choose(static_cast<u32>(n) + 2), total - next);
        for (size_t i = 0; i < want; ++i) v[i] = static_cast<int>(next + i);
        { sim::Oracle o; wroteStarted = next + static_cast<u32>(want); }
        size_t const r = b.write(v, want);
        SIM_CHECK(r >= std::min(want, n) && r <= want, "short", "wrote %zu of %zu with %zu available", r, want, n);
        next += static_cast<u32>(r);
        sim::Oracle o; wroteStarted = wroteDone = next; wroteDoneAt = sim::now();
    }
}
template <typename M> void run() {
    u32 const cap = 1 + sim::choose(5), total = 1 + sim::choose(14);
    How const hp = pick(), hc = pick();
    stall = 1000 * SEC;
    pauses = sim::flip() ? 12 : 2; small = sim::choose(4);
    // Long enough for an interval to be missed, short enough for the number of polls.
    if (hp.kind) stall = std::min(stall, hp.loopNs * (hp.loopNs == 30 * SEC ? 7 : 2));
    if (hc.kind) stall = std::min(stall, hc.loopNs * (hc.loopNs == 30 * SEC ? 7 : 2));
    if (!hp.kind && !hc.kind) SIM_HIT(both);
    CircBufferSCSP<int, CircBufferScspLocking<M>> b(cap);
    std::thread p([&] { producer(b, total, hp); });
    consumer(b, total, hc);
    p.join();
    SIM_CHECK(b.empty(), "count", "not empty at the end");
}
// Nobody reads or writes: only the stop test ends the wait.
template <typename M> void stopOnly() {
    u32 const cap = 1 + sim::choose(5);
    CircBufferSCSP<int, CircBufferScspLocking<M>> b(cap);
    bool const data = sim::flip(); // waits for data in an empty buffer, or for space in a full one
    int v[8]; for (u32 i = 0; i < cap; ++i) v[i] = static_cast<int>(i);
    for (u32 k = sim::choose(3); k--;) { int x[8]; (void) b.write(v, 1 + sim::choose(cap)); (void) b.read(x, cap); }
    if (!data) { size_t const r = b.write(v, cap); SIM_CHECK(r == cap, "short", "wrote %zu of %u", r, cap); }
    static u64 const loops[] = { 5 * MS, SEC, 40 * SEC, 30000 * SEC };
    u64 const loop = loops[sim::choose(4)];
    bool const before = sim::chance(1, 3);
    std::atomic<bool> flag(before); u64 setAt = 0; bool thrown = false;
    std::thread t;
    if (!before) { u64 const d = loop / 2 * sim::choose(5); t = std::thread([&, d] { sim::sleepNs(d); dawdle(3); { sim::Oracle o; setAt = sim::now(); } flag = true; }); SIM_HIT(flagDuring); }
    else { setAt = sim::now(); SIM_HIT(flagBefore); }
    auto test = [&] { SIM_CHECK(!thrown, "stop-again", "the stop test was called again after it threw"); if (flag) { thrown = true; throw UserError{77}; } };
    try {
        size_t const n = data ? b.waitDataAvailable(test, std::chrono::nanoseconds(loop)) : b.waitSpaceAvailable(test, std::chrono::nanoseconds(loop));
        SIM_CHECK(false, "early", "a wait returned %zu although nothing was available", n);
    } catch (UserError const & e) { SIM_CHECK(thrown && e.id == 77, "exception", "unexpected exception %d", e.id); }
    if (t.joinable()) t.join();
    if (steadyRun) {
        u64 const late = sim::now() - setAt;
        SIM_CHECK(late < (before ? 0 : loop) + 60 * SEC, "poll-late", "the wait took %llu s to notice the stop, with an interval of %llu s", (unsigned long long) (late / SEC), (unsigned long long) (loop / SEC));
    }
    // The buffer is still usable.
    SIM_CHECK(b.dataAvailable() == (data ? 0 : cap), "count", "%zu available after a stopped wait", b.dataAvailable());
    if (data) { size_t const r = b.write(v, cap); SIM_CHECK(r == cap, "short", "wrote %zu of %u", r, cap); }
    int x[8]; size_t const r = b.read(x, cap);
    SIM_CHECK(r == cap && x[0] == 0 && x[cap - 1] == static_cast<int>(cap - 1), "fifo", "read %zu of %u after a stopped wait", r, cap);
}
} // namespace

extern "C" void sim_setup() { STEADY_SETUP(); }
extern "C" void sim_main() {
    sim::nontrivial();
    if (sim::chance(1, 5)) { if (sim::chance(1, 4)) stopOnly<std::recursive_mutex>(); else stopOnly<std::mutex>(); }
    else if (sim::chance(1, 4)) run<std::recursive_mutex>(); else run<std::mutex>();
}
