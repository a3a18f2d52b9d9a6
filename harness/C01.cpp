// C01: a promise's outcome reaches its future and every waiter exactly once.
#include "common.h"
#include <sharemind/Future.h>
extern "C" char const * const sim_property = "C01";
using namespace sharemind;

namespace {
enum Outcome { VALUE, EXCEPTION, EXCEPTION_PTR, ABANDON, DESTROY, OVERWRITE, MOVE_THEN_SET, NOUTCOME };
char const * const names[] = { "value", "exception", "exception_ptr", "abandon", "destroy", "overwrite", "move-then-set" };

SIM_PROBE_DEF(timedout, "a timed wait gave up");
SIM_PROBE_DEF(timedready, "a timed wait saw the outcome");
SIM_PROBE_DEF(late, "future taken after the outcome was set");
SIM_PROBE_DEF(several, "several blocking waiters on one future");
SIM_PROBE_DEF(broken, "took a broken promise");
// History, kept by the oracle.
bool setStarted, setDone; u64 setDoneAt;
bool jumps;
int before = 0;             // plain data written by the producer before it sets

void startSet() { before = 41; sim::Oracle o; setStarted = true; }
void endSet() { sim::Oracle o; setDone = true; setDoneAt = sim::now(); sim::note("outcome set"); }

template <typename T> struct Val { static void set(Promise<T> & p) { p.setValue(T(42)); } static void check(Future<T> & f) { T v(f.takeValue()); SIM_CHECK(v.value() == 42, "wrong-value", "took %d", v.value()); } };
template <> struct Val<void> { static void set(Promise<void> & p) { if (sim::now() & 1) p.setReady(); else p.setValue(); } static void check(Future<void> & f) { f.takeValue(); } };

template <typename T> void produce(Promise<T> p, Outcome o, u32 delay) {
    dawdle(delay);
    startSet();
    switch (o) {
    case VALUE: Val<T>::set(p); break;
    case EXCEPTION: p.setException(UserError{7}); break;
    case EXCEPTION_PTR: p.setException(std::make_exception_ptr(UserError{7})); break;
    case ABANDON: p.abandon(); break;
    case DESTROY: { Promise<T> d(std::move(p)); } break;
    case OVERWRITE: { Promise<T> d; p = std::move(d); } break;
    case MOVE_THEN_SET: { Promise<T> d(std::move(p)); SIM_CHECK(!p.isValid(), "moved-from", "moved-from promise is valid"); Promise<T> e; e.swap(d); Val<T>::set(e); } break;
    default: break;
    }
    endSet();
}

template <typename T> void waiterOps(Future<T> const & f, u32 op, u64 dur, u32 delay) {
    dawdle(delay);
    bool doneBefore; { sim::Oracle o; doneBefore = setDone; }
    u64 const t0 = sim::now();
    bool ready = true;
    switch (op) {
    case 0: f.wait(); break;
    case 1: ready = f.waitFor(std::chrono::nanoseconds(dur)); break;
    case 2: ready = f.waitUntil(std::chrono::steady_clock::now() + std::chrono::nanoseconds(dur)); break;
    case 3: ready = f.waitUntil(std::chrono::system_clock::now() + std::chrono::nanoseconds(dur)); break;
    case 4: ready = f.isReady(); break;
    case 5: while (!f.isReady()) std::this_thread::yield(); break;
    }
    u64 const t1 = sim::now();
    if (ready) {
        SIM_CHECK(before == 41, "not-visible", "the producer's earlier write is not visible");
        SIM_CHECK(f.isReady(), "not-ready", "a future that was ready is not any more");
        if (op >= 1 && op <= 3) SIM_HIT(timedready);
        sim::Oracle o;
        SIM_CHECK(setStarted, "too-early", "the future is ready before anything was set");
        if (steadyRun && setDone && (op <= 3)) {
            u64 const from = setDoneAt > t0 ? setDoneAt : t0;
            SIM_CHECK(t1 < from + 60 * SEC, "late-wakeup", "a waiter returned %llu s after the outcome was set", (unsigned long long) ((t1 - from) / SEC));
        }
    } else {
        sim::Oracle o;
        SIM_CHECK(!doneBefore, "lost-ready", "operation %u says not ready after the outcome was set", op);
        if (op == 1 || op == 2 || (op == 3 && !jumps)) // a system clock deadline may jump closer
            SIM_CHECK(t1 >= t0 + dur, "early-timeout", "timed wait of %llu ns gave up after %llu ns", (unsigned long long) dur, (unsigned long long) (t1 - t0));
        SIM_HIT(timedout);
    }
}

template <typename T> void scenario() {
    Outcome const o = static_cast<Outcome>(sim::choose(NOUTCOME));
    sim::note("outcome: %s", names[o]);
    u32 const nw = sim::choose(4);
    bool const takeLate = sim::chance(1, 6);
    bool const takeInThread = sim::flip();
    u32 const pd = sim::choose(24);
    static u64 const durs[] = { 0, 1, 3000, 2 * MS, 10000 * SEC, 100000 * SEC };
    Threads ts;
    Future<T> f;
    Promise<T> p;
    SIM_CHECK(p.isValid() && p.hasFuture(), "promise", "a new promise is not valid");
    if (takeLate && (o == VALUE || o == EXCEPTION || o == EXCEPTION_PTR || o == ABANDON)) {
        startSet();
        switch (o) { case VALUE: Val<T>::set(p); break; case EXCEPTION: p.setException(UserError{7}); break;
            case EXCEPTION_PTR: p.setException(std::make_exception_ptr(UserError{7})); break; default: p.abandon(); }
        endSet();
        SIM_CHECK(!p.isValid(), "promise", "a promise that was set is still valid");
        f = p.takeFuture();
        SIM_HIT(late);
    } else {
        f = p.takeFuture();
        SIM_CHECK(f.isValid() && !p.hasFuture(), "promise", "takeFuture state");
        ts.add([pp = std::move(p), o, pd]() mutable { produce<T>(std::move(pp), o, pd); });
    }
    u32 concurrentBlocked = 0;
    for (u32 i = 0; i < nw; ++i) {
        u32 const op = sim::choose(6); u64 const dur = durs[sim::choose(6)]; u32 const d = sim::choose(16);
        if (op == 0 || dur > SEC) ++concurrentBlocked;
        ts.add([&f, op, dur, d] { waiterOps(f, op, dur, d); });
    }
    if (concurrentBlocked > 1) SIM_HIT(several);
    auto take = [&f, o] {
        Future<T> g(std::move(f));
        SIM_CHECK(!f.isValid() && g.isValid(), "moved-from", "future move");
        try {
            Val<T>::check(g);
            SIM_CHECK(o == VALUE || o == MOVE_THEN_SET, "wrong-outcome", "took a value, outcome set was %s", names[o]);
        } catch (UserError const & e) {
            SIM_CHECK((o == EXCEPTION || o == EXCEPTION_PTR) && e.id == 7, "wrong-outcome", "took an exception, outcome set was %s", names[o]);
        } catch (BrokenPromiseException const &) {
            SIM_HIT(broken);
            SIM_CHECK(o == ABANDON || o == DESTROY || o == OVERWRITE, "wrong-outcome", "took a broken promise, outcome set was %s", names[o]);
        } catch (std::exception const & e) {
            SIM_CHECK(false, "wrong-outcome", "took %s, outcome set was %s", e.what(), names[o]);
        }
        SIM_CHECK(before == 41, "not-visible", "the producer's earlier write is not visible");
        SIM_CHECK(!g.isValid(), "future", "a taken future is still valid");
    };
    if (nw) { ts.join(); take(); }
    else if (takeInThread) { ts.add(take); ts.join(); }
    else { take(); ts.join(); }
}

// Packaged tasks: the same outcome rules.
void packaged() {
    bool const thr = sim::flip();
    u32 const d1 = sim::choose(10);
    bool const drop = sim::chance(1, 4);
    PackagedTask<int(int)> t([thr](int x) { if (thr) throw UserError{9}; return x + 1; });
    if (sim::flip()) { t.reset(); SIM_PROBE("packaged task reset"); }
    Future<int> f(t.takeFuture());
    std::thread th([tt = std::move(t), drop, d1]() mutable {
        dawdle(d1);
        startSet();
        if (!drop) tt(4); else { PackagedTask<int(int)> o; o = std::move(tt); }
        SIM_CHECK(!tt.isValid(), "packaged", "task still valid");
        endSet();
    });
    if (sim::flip()) waiterOps(f, sim::choose(6), 5 * MS, 0);
    try { int const v = f.takeValue(); SIM_CHECK(!thr && !drop && v == 5, "wrong-outcome", "packaged task gave %d", v); }
    catch (UserError const & e) { SIM_CHECK(thr && !drop && e.id == 9, "wrong-outcome", "packaged task threw"); }
    catch (BrokenPromiseException const &) { SIM_CHECK(drop, "wrong-outcome", "packaged task broke its promise"); }
    SIM_CHECK(before == 41, "not-visible", "the producer's earlier write is not visible");
    th.join();
}
// Futures that are made with their outcome, and swapped, before another thread takes them.
struct TextError { std::string text; };
void made() {
    u32 const how = sim::choose(9), delay = sim::choose(4); bool const swapped = sim::flip(), byThread = sim::flip();
    std::string const text("an outcome that does not fit into a small string"); TextError const fixedError{text}; TextError error{text};
    Future<std::string> f; std::string kept(text); bool isVoid = false; Future<void> v;
    switch (how) {
    case 0: f = makeReadyFuture(std::string(text)); break;
    case 1: f = makeReadyFuture(kept); SIM_CHECK(kept == text, "wrong-value", "makeReadyFuture() changed its argument"); break;
    case 2: { Promise<std::string> p; p.emplaceValue(text.size(), 'x'); f = p.takeFuture(); kept.assign(text.size(), 'x'); break; }
    case 3: f = makeExceptionalFuture<std::string>(std::make_exception_ptr(error)); break;
    case 4: f = makeExceptionalFuture<std::string>(TextError{text}); break;
    case 5: f = makeExceptionalFuture<std::string>(error); SIM_CHECK(error.text == text, "wrong-value", "makeExceptionalFuture() changed its argument"); break;
    case 6: f = makeExceptionalFuture<std::string>(fixedError); break;
    case 7: f = makeBrokenFuture<std::string>(); break;
    default: isVoid = true; v = makeReadyFuture(); break;
    }
    startSet();
    Future<std::string> other; if (swapped) { std::swap(f, other); SIM_CHECK(!f.isValid() && other.isValid() != isVoid, "future", "swapping futures"); f.swap(other); }
    auto check = [&] {
        dawdle(delay);
        SIM_CHECK(isVoid ? v.isReady() : f.isReady(), "lost-ready", "a future made with its outcome is not ready");
        try {
            if (isVoid) { v.takeValue(); return; }
            std::string const got(f.takeValue());
            SIM_CHECK(how < 3 && got == kept, "wrong-value", "took \"%s\"", got.c_str());
        } catch (TextError const & e) { SIM_CHECK(how >= 3 && how <= 6 && e.text == text, "wrong-outcome", "took an exception, made with %u", how); }
        catch (BrokenPromiseException const &) { SIM_HIT(broken); SIM_CHECK(how == 7, "wrong-outcome", "took a broken promise, made with %u", how); }
        SIM_CHECK(!f.isValid() && !v.isValid(), "future", "a taken future is still valid");
    };
    if (byThread) { std::thread t(check); t.join(); } else check();
}
// Promises and tasks that change places before their outcomes are set.
void swappedSides() {
    Promise<std::unique_ptr<int> > p[2]; Future<std::unique_ptr<int> > f[2] = { p[0].takeFuture(), p[1].takeFuture() };
    int at[2] = { 0, 1 }; // which future the promise belongs to
    for (u32 k = sim::choose(4); k--;) switch (sim::choose(3)) {
        case 0: p[0].swap(p[1]); std::swap(at[0], at[1]); break;
        case 1: std::swap(p[0], p[1]); std::swap(at[0], at[1]); break;
        default: { auto t(std::move(p[0])); SIM_CHECK(!p[0].isValid(), "moved-from", "moved-from promise is valid"); p[0] = std::move(t); break; }
    }
    u32 const kind[2] = { sim::choose(3), sim::choose(3) };
    Threads ts;
    for (int i = 0; i < 2; ++i) { u32 const d = sim::choose(6); ts.add([pp = std::move(p[i]), i, d, k = kind[i]]() mutable { dawdle(d); if (k == 0) pp.setValue(std::make_unique<int>(i)); else if (k == 1) pp.setException(UserError{i}); }); }
    for (int i = 0; i < 2; ++i) {
        try { auto v(f[at[i]].takeValue()); SIM_CHECK(kind[i] == 0 && v && *v == i, "wrong-value", "promise %d: wrong value", i); }
        catch (UserError const & e) { SIM_CHECK(kind[i] == 1 && e.id == i, "wrong-outcome", "promise %d: wrong exception", i); }
        catch (BrokenPromiseException const &) { SIM_CHECK(kind[i] == 2, "wrong-outcome", "promise %d: broken", i); }
    }
    ts.join();
    {   // The source of an assignment does not keep the overwritten promise alive.
        Promise<int> from, to; auto f1(from.takeFuture()); auto f2(to.takeFuture());
        std::thread t([&f2] { try { f2.takeValue(); SIM_CHECK(false, "wrong-outcome", "a value nobody set"); } catch (BrokenPromiseException const &) {} });
        to = std::move(from);
        SIM_CHECK(to.isValid() && !from.isValid() && !from.hasFuture(), "promise", "wrong state after a move assignment");
        t.join(); // from still exists
        to.setValue(3);
        SIM_CHECK(f1.takeValue() == 3, "wrong-value", "after a move assignment");
    }
    PackagedTask<int(int &)> a([](int & x) { return ++x; }), b([](int & x) { return x -= 10; });
    auto fa(a.takeFuture()), fb(b.takeFuture()); bool const sw = sim::flip(); int x = 5, y = 5;
    if (sw) { if (sim::flip()) a.swap(b); else std::swap(a, b); }
    std::thread t([&] { a(x); }); b(y); t.join();
    SIM_CHECK(fa.takeValue() == 6 && fb.takeValue() == -5 && (sw ? x : y) == -5 && (sw ? y : x) == 6, "wrong-outcome", "swapped packaged tasks");
}
} // namespace

extern "C" void sim_setup() { STEADY_SETUP(); }
extern "C" void sim_main() {
    sim::nontrivial();
    ClockJumper j; j.start(); jumps = j.t.joinable();
    switch (sim::choose(12)) {
    case 0: case 1: case 5: case 6: scenario<Obj>(); break;
    case 2: case 3: case 7: case 8: scenario<void>(); break;
    case 10: made(); break;
    case 11: swappedSides(); break;
    default: packaged(); break;
    }
    SIM_CHECK(Obj::live == 0, "leak", "%d values alive at the end", Obj::live);
}
