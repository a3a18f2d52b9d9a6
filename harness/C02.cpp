// C02: continuations run exactly once and propagate results and exceptions.
#include "common.h"
#include <sharemind/Future.h>
extern "C" char const * const sim_property = "C02";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(attachedBefore, "attached before the outcome was set");
SIM_PROBE_DEF(attachedAfter, "attached after the outcome was set");
SIM_PROBE_DEF(unwrapPending, "a continuation returned a future that was not ready yet");
SIM_PROBE_DEF(unwrapInvalid, "a continuation returned an invalid future");
SIM_PROBE_DEF(dropped, "the last future of a chain was dropped");
SIM_PROBE_DEF(timedtake, "waited for the chain with a timed wait");

// The expected outcome of a step.
struct Exp { enum Kind { VALUE, ERROR, BROKEN } kind; int v; };
struct Stage { int runs = 0; Exp in{Exp::VALUE, 0}; };
std::vector<Stage> * stages;
std::vector<std::thread> * helpers;
bool rootSet, rootStarted;
u32 nStages;
int plain;                     // written by the producer before it sets

template <typename T> void setTo(Promise<T> & p, Exp const e);
template <> void setTo<Obj>(Promise<Obj> & p, Exp const e) {
    switch (e.kind) {
    case Exp::VALUE: p.setValue(Obj(e.v)); break;
    case Exp::ERROR: p.setException(UserError{e.v}); break;
    default: if (e.v & 1) p.abandon(); else { Promise<Obj> d(std::move(p)); } break;
    }
}
template <> void setTo<void>(Promise<void> & p, Exp const e) {
    switch (e.kind) {
    case Exp::VALUE: p.setReady(); break;
    case Exp::ERROR: p.setException(UserError{e.v}); break;
    default: if (e.v & 1) p.abandon(); else { Promise<void> d(std::move(p)); } break;
    }
}
template <typename T> struct Take { static int get(Future<T> & f) { Obj o(f.takeValue()); return o.value(); } };
template <> struct Take<void> { static int get(Future<void> & f) { f.takeValue(); return 0; } };

char const * kindName(Exp const e) { return e.kind == Exp::VALUE ? "value" : e.kind == Exp::ERROR ? "error" : "broken"; }

template <typename T> Exp takeFrom(Future<T> & f) {
    try { return Exp{Exp::VALUE, Take<T>::get(f)}; }
    catch (UserError const & e) { return Exp{Exp::ERROR, e.id}; }
    catch (BrokenPromiseException const &) { return Exp{Exp::BROKEN, 0}; }
}
template <typename T> void expect(Future<T> & f, Exp const e, char const * who, int idx) {
    Exp const g = takeFrom(f);
    SIM_CHECK(g.kind == e.kind && (e.kind != Exp::VALUE || std::is_void<T>::value || g.v == e.v) && (e.kind != Exp::ERROR || g.v == e.v),
              "wrong-outcome", "%s %d got %s %d instead of %s %d", who, idx, kindName(g), g.v, kindName(e), e.v);
}

// Common part of every continuation: checks what it is given, exactly once.
template <typename T> void enter(int idx, Future<T> & f) {
    Exp in;
    {
        sim::Oracle o;
        Stage & s = (*stages)[idx];
        SIM_CHECK(++s.runs == 1, "ran-twice", "continuation %d ran %d times", idx, s.runs);
        SIM_CHECK(rootStarted, "too-early", "continuation %d ran before the outcome was set", idx);
        in = s.in;
        sim::note("continuation %d runs", idx);
    }
    SIM_CHECK(f.isValid(), "invalid-future", "continuation %d got an invalid future", idx);
    SIM_CHECK(f.isReady(), "not-ready", "continuation %d got a future that is not ready", idx);
    SIM_CHECK(plain == 77, "not-visible", "the producer's earlier write is not visible to continuation %d", idx);
    expect(f, in, "continuation", idx);
}

// How a continuation ends.
enum How { RETURN, THROW, PASS, NHOW };

template <typename Out> struct Ret;
template <> struct Ret<Obj> { static Obj make(int v) { return Obj(v); } };
template <> struct Ret<void> { static void make(int) {} };

template <typename In, typename Out> struct Plainly { // returns Out
    int idx; How how; int v; Exp in; Obj payload;
    Out operator()(Future<In> f) {
        SIM_CHECK(payload.value() == idx, "callable", "the callable of continuation %d is damaged", idx);
        enter(idx, f);
        if (how == THROW) throw UserError{v};
        if (how == PASS) {
            if (in.kind == Exp::ERROR) throw UserError{in.v};
            if (in.kind == Exp::BROKEN) throw BrokenPromiseException();
        }
        return Ret<Out>::make(v);
    }
};
template <typename In, typename Out> struct Wrapped { // returns Future<Out>
    int idx; How how; int v; Future<Out> inner;
    Wrapped(int i, How h, int v_, Future<Out> && f) : idx(i), how(h), v(v_), inner(std::move(f)) {}
    Wrapped(Wrapped &&) = default;
    Future<Out> operator()(Future<In> f) {
        enter(idx, f);
        if (how == THROW) throw UserError{v};
        if (inner.isValid() && !inner.isReady()) SIM_HIT(unwrapPending);
        if (!inner.isValid()) SIM_HIT(unwrapInvalid);
        return std::move(inner);
    }
};

template <typename T> void finish(Future<T> f, Exp e);
template <typename T> void chain(Future<T> f, Exp e, u32 depth);

template <typename In, typename Out> void attach(Future<In> f, Exp e, u32 depth) {
    int idx; bool wasSet;
    {
        sim::Oracle o; idx = static_cast<int>(stages->size()); stages->emplace_back(); stages->back().in = e; wasSet = rootSet;
    }
    if (wasSet) SIM_HIT(attachedAfter); else SIM_HIT(attachedBefore);
    How const how = static_cast<How>(sim::choose(NHOW));
    int const v = 100 + idx;
    if (sim::choose(5) < 3) {
        Exp const out = how == THROW ? Exp{Exp::ERROR, v} : (how == PASS && e.kind != Exp::VALUE) ? e : Exp{Exp::VALUE, v};
        Plainly<In, Out> c{idx, how, v, e, Obj(idx)};
        Future<Out> n(sim::flip() ? f.then(std::move(c)) : f.then(c));
        SIM_CHECK(!f.isValid(), "future", "then() leaves the future valid");
        chain<Out>(std::move(n), out, depth);
    } else {
        u32 const kind = sim::choose(6); // of the inner future
        Future<Out> inner; Exp out{Exp::VALUE, v};
        Promise<Out> p;
        switch (kind) {
        case 0: out = {Exp::VALUE, v}; break;
        case 1: out = {Exp::ERROR, v}; break;
        case 2: out = {Exp::BROKEN, idx}; break;
        case 3: case 4: out = {static_cast<Exp::Kind>(sim::choose(3)), v}; break;
        case 5: out = {Exp::BROKEN, 0}; break;
        }
        if (kind != 5) {
            inner = p.takeFuture();
            if (kind < 3) setTo<Out>(p, out);
            else {
                u32 const d = sim::choose(30);
                std::thread t([pp = std::move(p), out, d]() mutable { dawdle(d); setTo<Out>(pp, out); });
                sim::Oracle o; helpers->push_back(std::move(t));
            }
        }
        if (how == THROW) out = {Exp::ERROR, v};
        Future<Out> n(f.then(Wrapped<In, Out>(idx, how, v, std::move(inner))));
        chain<Out>(std::move(n), out, depth);
    }
}

template <typename T> void chain(Future<T> f, Exp e, u32 depth) {
    SIM_CHECK(f.isValid(), "future", "then() returns an invalid future");
    dawdle(sim::choose(12));
    if (!depth || sim::chance(1, 4)) return finish(std::move(f), e);
    if (sim::flip()) attach<T, Obj>(std::move(f), e, depth - 1);
    else attach<T, void>(std::move(f), e, depth - 1);
}

template <typename T> void finish(Future<T> f, Exp e) {
    switch (sim::choose(6)) {
    case 0: SIM_HIT(dropped); return;
    case 1: f.wait(); SIM_CHECK(f.isReady(), "not-ready", "wait returned before the chain was ready"); break;
    case 2: while (!f.waitFor(std::chrono::milliseconds(5))) SIM_HIT(timedtake); break;
    case 3: while (!f.isReady()) std::this_thread::yield(); break;
    default: break;
    }
    expect(f, e, "end of chain", static_cast<int>(nStages));
    SIM_CHECK(!f.isValid(), "future", "a taken future is still valid");
}

template <typename T> void root() {
    Exp const e{static_cast<Exp::Kind>(sim::choose(3)), static_cast<int>(sim::choose(2)) + 1};
    u32 const pd = sim::choose(30);
    u32 const depth = 1 + sim::choose(4);
    bool const early = sim::chance(1, 5), late = !early && sim::chance(1, 5);
    Promise<T> p;
    Future<T> f(p.takeFuture());
    auto setIt = [e](Promise<T> & pp) {
        plain = 77;
        { sim::Oracle o; rootStarted = true; }
        setTo<T>(pp, e);
        { sim::Oracle o; rootSet = true; sim::note("root set"); }
    };
    if (early) { setIt(p); chain(std::move(f), e, depth); return; }
    Threads ts;
    if (late) { // attach first in another thread
        ts.add([ff = std::move(f), e, depth]() mutable { chain(std::move(ff), e, depth); });
        dawdle(pd);
        setIt(p);
    } else {
        ts.add([pp = std::move(p), pd, &setIt]() mutable { dawdle(pd); setIt(pp); });
        chain(std::move(f), e, depth);
    }
    ts.join();
}
} // namespace

extern "C" void sim_main() {
    sim::nontrivial();
    { sim::Oracle o; stages = new std::vector<Stage>; helpers = new std::vector<std::thread>; helpers->reserve(8); stages->reserve(16); }
    if (sim::flip()) root<Obj>(); else root<void>();
    for (auto & t : *helpers) t.join();
    for (size_t i = 0; i < stages->size(); ++i)
        SIM_CHECK((*stages)[i].runs == 1, "lost-continuation", "continuation %d ran %d times", (int) i, (*stages)[i].runs);
    SIM_CHECK(Obj::live == 0, "leak", "%d values alive at the end", Obj::live);
    sim::Oracle o; delete stages; delete helpers;
}
