// C16: a no-start thread runs its function at most once and only after start.
#include "common.h"
#include <sharemind/NoStartThread.h>
extern "C" char const * const sim_property = "C16";
using sharemind::NoStartThread;

namespace {
SIM_PROBE_DEF(neverStarted, "never started");
SIM_PROBE_DEF(failed, "construction failed");
SIM_PROBE_DEF(noFunction, "started without a function");
SIM_PROBE_DEF(stopWhileRunning, "stopped while the function was running");
SIM_PROBE_DEF(replaced, "the function was replaced before the start");

int runs; bool started, running, over, ended; int before; int runTid;
struct Fn {
    int which; u32 work; Obj payload;
    void operator()() noexcept {
        SIM_CHECK(before == 55, "not-visible", "the starter's earlier writes are not visible");
        SIM_CHECK(payload.value() == which, "callable", "the function object is damaged");
        {
            sim::Oracle o;
            SIM_CHECK(started, "early", "the function ran before the start");
            SIM_CHECK(++runs == 1, "twice", "the function ran %d times", runs);
            SIM_CHECK(!over, "late-run", "the function runs after the thread was stopped");
            running = true;
        }
        if (sim::flip()) sim::sleepNs(1000 * SEC); 
        dawdle(work);
        before = 56;
        sim::Oracle o; running = false; ended = true;
        SIM_CHECK(!over, "late-run", "the function was still running after the thread was stopped");
    }
};
} // namespace

extern "C" void sim_main() {
    sim::nontrivial();
    u32 const how = sim::choose(3), work = sim::choose(20);
    std::unique_ptr<NoStartThread> t;
    int expect = 1;
    try {
        sim::ThreadFaults tf; sim::AllocFaults af;
        if (how == 0) t = std::make_unique<NoStartThread>(Fn{1, work, Obj(1)});
        else t = std::make_unique<NoStartThread>();
    } catch (std::system_error const &) { SIM_HIT(failed); }
    catch (std::bad_alloc const &) { SIM_HIT(failed); }
    if (t) {
        dawdle(sim::choose(20));
        if (how == 1) t->setFunction(Fn{1, work, Obj(1)});
        if (how == 2) { SIM_HIT(noFunction); expect = 0; }
        if (how != 2 && sim::chance(1, 4)) { SIM_HIT(replaced); t->setFunction(Fn{2, work, Obj(2)}); }
        SIM_CHECK(t->joinable(), "joinable", "not joinable before the start");
        u32 const end = sim::choose(5);
        bool const start = sim::choose(4) != 3;
        auto doStart = [&] { before = 55; { sim::Oracle o; started = true; } t->start(); };
        if (start) {
            if (sim::chance(1, 4)) { std::thread s(doStart); s.join(); } else doStart();
            dawdle(sim::choose(20));
        } else { SIM_HIT(neverStarted); expect = 0; }
        { bool r; { sim::Oracle o; r = running; } if (r) SIM_HIT(stopWhileRunning); }
        if (start && end == 0) { t->join(); SIM_CHECK(!t->joinable(), "joinable", "joinable after join"); }
        else if (end == 1 || end == 2) {
            t->stop(); SIM_CHECK(!t->joinable(), "joinable", "joinable after stop");
            if (end == 2) t->stop();
        } else if (end == 3) { std::thread s([&t] { t->stop(); }); s.join(); }
        else t.reset();
        { sim::Oracle o; SIM_CHECK(!running, "late-run", "the function is still running"); over = true; }
        if (expect) SIM_CHECK(before == 56, "not-visible", "the function's writes are not visible after the end");
        t.reset();
        sim::Oracle o;
        SIM_CHECK(runs == expect && (!expect || ended), "count", "the function ran %d times instead of %d", runs, expect);
    }
    SIM_CHECK(Obj::live == 0, "leak", "%d function payloads alive", Obj::live);
}
