// C03: nothing leaks, is destroyed twice or used after destruction; a value
// whose construction throws leaves the promise unset.
#include "common.h"
#include <sharemind/Future.h>
extern "C" char const * const sim_property = "C03";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(threwInSet, "constructing the value inside the promise threw");
SIM_PROBE_DEF(threwInEmplace, "emplacing the value inside the promise threw");
SIM_PROBE_DEF(threwInTake, "moving the value out of the future threw");
SIM_PROBE_DEF(oomPromise, "out of memory making a promise");
SIM_PROBE_DEF(oomThen, "out of memory attaching a continuation");
SIM_PROBE_DEF(oomTask, "out of memory making a packaged task");
SIM_PROBE_DEF(retried, "a promise was set after a failed attempt");
SIM_PROBE_DEF(earlyGone, "a promise was destroyed as soon as its future was ready");
SIM_PROBE_DEF(goneInside, "a promise was destroyed by a continuation of its future");
SIM_PROBE_DEF(overwriteSet, "a set promise was overwritten");

template <typename T> struct Thing;
template <> struct Thing<Obj> {
    static bool set(Promise<Obj> & p) { // true if it was set
        try {
            switch (sim::choose(4)) {
            case 0: p.setValue(Obj(5)); break;
            case 1: { Obj const o(5); p.setValue(o); } break;
            case 2: p.emplaceValue(5); break;
            default: { Obj o(5); p.emplaceValue(std::move(o)); } break;
            }
            return true;
        } catch (UserError const &) { SIM_HIT(threwInSet); return false; }
        catch (std::bad_alloc const &) { SIM_HIT(threwInEmplace); return false; }
    }
    static void take(Future<Obj> & f) { Obj o(f.takeValue()); SIM_CHECK(o.value() == 5, "wrong-value", "took %d", o.value()); }
};
template <> struct Thing<NObj> {
    static bool set(Promise<NObj> & p) {
        try { if (sim::flip()) p.emplaceValue(5); else p.setValue(NObj(5)); return true; }
        catch (std::bad_alloc const &) { return false; }
    }
    static void take(Future<NObj> & f) { NObj o(f.takeValue()); SIM_CHECK(o.value() == 5, "wrong-value", "took %d", o.value()); }
};
template <> struct Thing<void> {
    static bool set(Promise<void> & p) { p.setReady(); return true; }
    static void take(Future<void> & f) { f.takeValue(); }
};

enum Set { DONE, FAILED, EXC, BROKEN };
enum Finish { F_RETRY, F_EXCEPTION, F_ABANDON, F_DESTROY, F_OVERWRITE, NF };

// Sets the promise one way or another; returns what the future must show.
template <typename T> Set deliver(Promise<T> & p) {
    switch (sim::choose(6)) {
    case 0: p.setException(UserError{3}); return EXC;
    case 1: p.abandon(); return BROKEN;
    case 2: { Promise<T> d(std::move(p)); } return BROKEN;
    default: break;
    }
    if (Thing<T>::set(p)) { SIM_CHECK(!p.isValid(), "promise", "a set promise is still valid"); return DONE; }
    SIM_CHECK(p.isValid(), "not-unset", "constructing the value threw, but the promise is not unset");
    switch (sim::choose(NF)) {
    case F_RETRY:
        for (int i = 0; i < 3; ++i)
            if (Thing<T>::set(p)) { SIM_HIT(retried); return DONE; }
        p.abandon(); return BROKEN;
    case F_EXCEPTION: p.setException(UserError{3}); return EXC;
    case F_ABANDON: p.abandon(); return BROKEN;
    case F_OVERWRITE: p = Promise<T>(std::move(p)); { Promise<T> d(std::move(p)); } return BROKEN;
    default: { Promise<T> d(std::move(p)); } return BROKEN;
    }
}

template <typename T> void consume(Future<T> & f, Set const * s) {
    try {
        Thing<T>::take(f);
        SIM_CHECK(!s || *s == DONE, "wrong-outcome", "took a value that was never set");
    } catch (BrokenPromiseException const &) { SIM_CHECK(!s || *s == BROKEN, "wrong-outcome", "took a broken promise"); }
    catch (UserError const & e) {
        if (e.id == -1) { SIM_HIT(threwInTake); SIM_CHECK(!s || *s == DONE, "wrong-outcome", "moved a value out that was never set"); }
        else SIM_CHECK(!s || *s == EXC, "wrong-outcome", "took an error that was not set");
    } catch (std::bad_alloc const &) { SIM_HIT(threwInTake); }
}

struct Fn { // a callable with accounted copies
    Obj o; u32 mode;
    explicit Fn(u32 m) : o(9), mode(m) {}
    template <typename T> Obj operator()(Future<T> f) {
        SIM_CHECK(o.value() == 9, "callable", "the callable is damaged");
        if (mode == 0) throw UserError{4};
        if (mode == 1) consume(f, nullptr);
        return Obj(5); // or drops the future untouched
    }
    int operator()(int x) { if (mode == 0) throw UserError{4}; return x + o.value(); }
};

template <typename T> void one() {
    Threads ts;
    sim::AllocFaults af;
    Obj::throwing = sim::flip();
    try {
        Promise<T> p;
        if (sim::chance(1, 8)) { Promise<T> q; p = std::move(q); SIM_CHECK(p.isValid() && !q.isValid(), "promise", "move assignment"); }
        Future<T> f;
        if (!sim::chance(1, 8)) f = p.takeFuture(); // else: never taken
        u32 const use = f.isValid() ? sim::choose(5) : 4;
        u32 const d1 = sim::choose(12), d2 = sim::choose(12);
        Set how = BROKEN;
        Promise<T> * pp = &p;
        bool const threaded = sim::flip();
        if (threaded) { sim::NoAllocFaults n; ts.add([pp, d1, &how] { sim::AllocFaults a; dawdle(d1); how = deliver(*pp); }); }
        else if (sim::flip()) how = deliver(*pp);
        dawdle(d2);
        switch (use) {
        case 0: // take
            if (!threaded && p.isValid()) how = deliver(*pp);
            { Future<T> g(std::move(f)); consume(g, threaded ? nullptr : &how); }
            break;
        case 1: case 2: { // chain
            u32 const m = sim::choose(3);
            try {
                Future<Obj> g(f.then(Fn(m)));
                if (sim::flip()) {
                    if (!threaded && p.isValid()) how = deliver(*pp);
                    Future<Obj> h(sim::flip() ? std::move(g) : g.then(Fn(1)));
                    if (sim::flip()) consume(h, nullptr);
                }
            } catch (std::bad_alloc const &) { SIM_HIT(oomThen); }
            catch (UserError const &) {}
        } break;
        case 3: { // move around and drop
            Future<T> g; g.swap(f); f = std::move(g); Future<T> h(std::move(f)); h = Future<T>();
        } break;
        default: break; // not taken at all
        }
        ts.join();
        if (f.isValid() && f.isReady()) {
            if (!p.isValid()) consume(f, &how);
        }
        if (sim::chance(1, 4)) { bool const was = p.isValid(); Promise<T> q; p = std::move(q); if (!was) SIM_HIT(overwriteSet); if (f.isValid() && was) { SIM_CHECK(f.isReady(), "stuck", "the overwritten promise left its future unready"); } }
    } catch (std::bad_alloc const &) { SIM_HIT(oomPromise); }
    ts.join();
    Obj::throwing = false;
}

void task() {
    Obj::throwing = sim::flip();
    Threads ts;
    Future<int> f;
    bool made = false;
    {
        sim::AllocFaults af;
        try {
            PackagedTask<int(int)> t(Fn(sim::choose(3)));
            if (sim::chance(1, 4)) { PackagedTask<int(int)> u(std::move(t)); SIM_CHECK(!t.isValid(), "task", "moved-from task is valid"); t = std::move(u); }
            f = t.takeFuture();
            made = true;
            if (sim::chance(1, 3)) { try { t.reset(); f = t.takeFuture(); } catch (std::bad_alloc const &) {} }
            u32 const m = sim::choose(3);
            if (m == 0) { sim::NoAllocFaults n; ts.add([tt = std::move(t)]() mutable { dawdle(3); tt(1); }); }
            else if (m == 1) t(1);
        } catch (std::bad_alloc const &) { SIM_HIT(oomTask); }
        catch (UserError const &) {}
    }
    Obj::throwing = false;
    if (made && sim::flip()) {
        try { int const v = f.takeValue(); SIM_CHECK(v == 10, "wrong-value", "task gave %d", v); }
        catch (UserError const & e) { SIM_CHECK(e.id == 4, "wrong-outcome", "error %d", e.id); }
        catch (BrokenPromiseException const &) {}
    }
    ts.join();
}

// Whoever sees the future ready may destroy the promise, even though the call that set it has not
// returned yet.
template <typename T> void early() {
    Threads ts;
    auto * const p = new Promise<T>();
    Future<T> f(p->takeFuture());
    u32 const kind = sim::choose(4), d = sim::choose(12), mode = sim::choose(3);
    Set const how = kind == 3 ? BROKEN : kind ? EXC : DONE;
    auto const set = [p, kind, d] {
        dawdle(d);
        switch (kind) {
        case 0: Thing<T>::set(*p); break;
        case 1: p->setException(UserError{3}); break;
        case 2: p->setException(std::make_exception_ptr(UserError{3})); break;
        default: p->abandon(); break;
        }
    };
    if (mode == 2) {
        Future<void> g;
        bool const before = sim::flip();
        if (!before) ts.add(set);
        g = f.then([p, how](Future<T> x) { SIM_HIT(goneInside); delete p; consume(x, &how); });
        if (before) { if (sim::flip()) ts.add(set); else set(); }
        g.takeValue();
    } else {
        ts.add(set);
        dawdle(sim::choose(12));
        if (mode == 0) f.wait(); else while (!f.isReady()) std::this_thread::yield();
        SIM_HIT(earlyGone);
        delete p;
        consume(f, &how);
    }
    ts.join();
}

void makers() {
    sim::AllocFaults af;
    try {
        switch (sim::choose(5)) {
        case 0: { auto f(makeReadyFuture()); f.takeValue(); } break;
        case 1: { auto f(makeReadyFuture(Obj(5))); Obj o(f.takeValue()); SIM_CHECK(o.value() == 5, "wrong-value", "ready future"); } break;
        case 2: { auto f(makeExceptionalFuture<Obj>(UserError{3})); Set s = EXC; consume(f, &s); } break;
        case 3: { auto f(makeBrokenFuture<Obj>()); Set s = BROKEN; consume(f, &s); } break;
        default: { auto f(makeExceptionalFuture<int>(std::make_exception_ptr(UserError{3}))); try { f.takeValue(); SIM_CHECK(false, "wrong-outcome", "value from an exceptional future"); } catch (UserError const &) {} } break;
        }
    } catch (std::bad_alloc const &) {}
}
} // namespace

extern "C" void sim_main() {
    sim::nontrivial();
    switch (sim::choose(9)) {
    case 8: { u32 const t = sim::choose(3); if (t == 0) early<Obj>(); else if (t == 1) early<NObj>(); else early<void>(); } break;
    case 0: case 1: case 2: one<Obj>(); break;
    case 3: one<NObj>(); break;
    case 4: one<void>(); break;
    case 5: case 6: task(); break;
    default: makers(); break;
    }
    SIM_CHECK(Obj::live == 0, "leak", "%d values alive at the end", Obj::live);
    SIM_CHECK(NObj::live == 0, "leak", "%d values alive at the end", NObj::live);
}
