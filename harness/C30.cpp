// C30: wall-clock microsecond time is exact or reports failure.
#include "common.h"
#include <sharemind/MicrosecondTime.h>
extern "C" char const * const sim_property = "C30";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(read, "the time was read");
SIM_PROBE_DEF(failed, "the clock failed");
SIM_PROBE_DEF(threw, "the chosen exception was thrown");
SIM_PROBE_DEF(jumped, "the clock was stepped during a reading");
SIM_PROBE_DEF(rolled, "the second rolled over during a reading");
SIM_PROBE_DEF(ambiguous, "the failure value was a possible time");
SIM_PROBE_DEF(early, "the clock showed a time close to the epoch");

int jumps;                                    // in oracle scopes only
typedef std::int64_t i64;
struct View { i64 real; u64 mono; int jumps; };
View look() { sim::Oracle o; return View{ sim::realNow(), sim::now(), jumps }; }
bool within(i64 us, i64 lo, i64 hi) { return us >= lo / 1000 && us <= hi / 1000; }

struct Choice { int a; std::string s; };
// Is it a value the clock showed between the two looks?
void check(UsTime t, View const & b, View const & e) {
    SIM_HIT(read);
    i64 const us = static_cast<i64>(t), d = static_cast<i64>(e.mono - b.mono);
    if (b.real / static_cast<i64>(SEC) != e.real / static_cast<i64>(SEC)) SIM_HIT(rolled);
    if (b.real < 4 * static_cast<i64>(SEC)) SIM_HIT(early);
    if (b.jumps == e.jumps) SIM_CHECK(within(us, b.real, e.real), "wrong-time", "%lld us was returned, the clock showed %lld to %lld ns", (long long) us, (long long) b.real, (long long) e.real);
    else {
        SIM_HIT(jumped);
        if (e.jumps - b.jumps == 1) SIM_CHECK(within(us, b.real, b.real + d) || within(us, e.real - d, e.real), "wrong-time", "%lld us was returned, the clock showed %lld to %lld or %lld to %lld ns", (long long) us, (long long) b.real, (long long) (b.real + d), (long long) (e.real - d), (long long) e.real);
    }
}
void readings(u32 n) {
    while (n--) {
        u64 const before = sim::sysFaultsFired(); (void) before;
        sim::clearSysErrno();
        bool const faults = sim::flip();
        u32 const how = sim::choose(4);
        UsTime const onFail = how == 1 ? 0 : sim::choose(3) == 0 ? ~UsTime(0) : static_cast<UsTime>(sim::choose(1000) + (sim::flip() ? 1700000000000000ull : 0));
        UsTime t = 0; bool threw = false;
        std::unique_ptr<sim::SysFaults> f; { if (faults) f.reset(new sim::SysFaults); }
        View const b = look();
        if (how == 0) t = getUsTime(onFail);
        else if (how == 1) t = getUsTime();
        else if (how == 2) { try { t = getUsTimeOrThrow(42); } catch (int x) { threw = true; SIM_CHECK(x == 42, "error-kind", "%d was thrown", x); } }
        else { try { t = getUsTimeOrThrow(Choice{ 7, "the clock that failed, and more" }); } catch (Choice const & c) { threw = true; SIM_CHECK(c.a == 7 && c.s == "the clock that failed, and more", "error-kind", "another exception was thrown"); } }
        View const e = look();
        f.reset();
        bool const bad = sim::lastSysErrno() != 0;
        if (!faults) SIM_CHECK(!bad, "harness", "unexpected fault");
        if (bad) {
            SIM_HIT(failed);
            if (how < 2) { if (onFail > 1600000000000000ull && onFail != ~UsTime(0)) SIM_HIT(ambiguous); SIM_CHECK(t == onFail, "error-lost", "the clock failed, %llu was returned instead of %llu", (unsigned long long) t, (unsigned long long) onFail); }
            else { SIM_CHECK(threw, "error-lost", "the clock failed, nothing was thrown"); SIM_HIT(threw); }
        } else {
            SIM_CHECK(!threw, "error-kind", "thrown although the clock did not fail");
            check(t, b, e);
        }
        if (sim::flip()) dawdle(sim::choose(4));
        if (sim::chance(1, 4)) sim::sleepNs(sim::choose(3) ? sim::choose(2000) : SEC - sim::choose(100));
    }
}
void jump(i64 to) { sim::Oracle o; i64 const by = to - sim::realNow(); sim::jumpRealtime(by); ++jumps; }
// Times with something special about them.
i64 special() {
    static i64 const secs[] = { 1700000000ll, 0, 1, 2, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll, 4294ll, 4295ll, 9000000000ll };
    static i64 const ns[] = { 0, 999, 1000, 999999999ll, 999999000ll, 999998999ll, 500000000ll, 999999900ll };
    i64 const t = secs[sim::choose(11)] * static_cast<i64>(SEC) + ns[sim::choose(8)] - static_cast<i64>(sim::choose(3)) * 20;
    return t < 0 ? 0 : t;
}
} // namespace

extern "C" void sim_main() {
    sim::nontrivial();
    Threads ts;
    u32 const n = sim::choose(3);
    if (sim::flip()) jump(special());
    for (u32 i = 0; i < n; ++i) { u32 const k = 1 + sim::choose(8); ts.add([k] { readings(k); }); }
    u32 const js = sim::choose(6);
    if (js) ts.add([js] { for (u32 j = 0; j < js; ++j) { dawdle(sim::choose(12)); jump(special()); if (sim::flip()) readings(1); } });
    readings(1 + sim::choose(6));
    ts.join();
}
