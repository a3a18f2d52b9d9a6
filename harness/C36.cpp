// C36: shared lifetime: pointers obtained from an object or to a part of it
// keep all of it alive, until the last of them is gone.
#include "common.h"
#include <tuple>
#include <sharemind/EnableSharedFromThis.h>
#include <sharemind/SharedTupleElementPointers.h>
extern "C" char const * const sim_property = "C36";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(noMem, "memory ran out");
SIM_PROBE_DEF(lastElsewhere, "an object was destroyed by another thread than its creator");
SIM_PROBE_DEF(byPart, "the last pointer was a pointer to a part");
SIM_PROBE_DEF(expired, "a weak pointer had expired");
SIM_PROBE_DEF(revived, "a weak pointer was locked");
SIM_PROBE_DEF(unowned, "an object without owner was asked for a pointer");
SIM_PROBE_DEF(dying, "an object asked for a pointer to itself in its destructor");
SIM_PROBE_DEF(ctorThrew, "the constructor of an object threw");
SIM_PROBE_DEF(tuples, "pointers to tuple elements were given to other threads");
SIM_PROBE_DEF(copied, "an object was copied");
SIM_PROBE_DEF(foreign, "a pointer to memory outside of the object was shared");

struct Part { NObj o; Plain p; explicit Part(int v) : o(v) {} };
struct Thing: EnableSharedFromThis<Thing> {
    static int alive, destroyed; static int holders;
    int const home = sim::tid();
    Part a, b; NObj self;
    Thing(int v, bool throws) : a(v + 1), b(v + 2), self(v) {
        { sim::Oracle o; ++alive; }
        askUnowned(*this);
        if (throws) { { sim::Oracle o; --alive; } throw UserError{v}; }
    }
    ~Thing() {
        SIM_CHECK(holders == 0, "destroyed-early", "an object is destroyed while %d pointers own it", holders);
        if (sim::tid() != home) SIM_HIT(lastElsewhere);
        askUnowned(*this);
        SIM_HIT(dying);
        a.p.set(0); b.p.set(0); // unordered uses are races
        sim::Oracle o; --alive; ++destroyed;
    }
    // Nobody owns t (yet, or any more).
    static void askUnowned(Thing & t) {
        Thing const & c = t;
        SIM_CHECK(!t.weakFromThis().lock() && !c.weakFromThis().lock(), "unowned", "an unowned object gave out a pointer");
        SIM_CHECK(!t.weakFromThis(&t.a).lock() && !c.weakFromThis(&c.b).lock(), "unowned", "an unowned object gave out a pointer to a part");
        int n = 0;
        try { t.sharedFromThis(); } catch (std::bad_weak_ptr const &) { ++n; }
        try { c.sharedFromThis(); } catch (std::bad_weak_ptr const &) { ++n; }
        try { t.sharedFromThis(&t.a); } catch (std::bad_weak_ptr const &) { ++n; }
        try { c.sharedFromThis(&c.b); } catch (std::bad_weak_ptr const &) { ++n; }
        SIM_CHECK(n == 4, "unowned", "an unowned object gave out %d pointers", 4 - n);
    }
    void check(int v) const { SIM_CHECK(self.value() == v && a.o.value() == v + 1 && b.o.value() == v + 2, "wrong-data", "an object is damaged"); }
};
struct Small: EnableSharedFromThis<Small> { int v; explicit Small(int x) : v(x) {} };
int Thing::alive, Thing::destroyed, Thing::holders;
int outside;

// One owner held by a thread. Counted before it is given up and after it is had.
template <typename T> struct Held {
    std::shared_ptr<T> p;
    explicit Held(std::shared_ptr<T> x) : p(std::move(x)) { sim::Oracle o; if (p) ++Thing::holders; }
    Held(Held const &) = delete;
    ~Held() { drop(); }
    void drop() { if (p) { { sim::Oracle o; --Thing::holders; } p.reset(); } }
};
template <typename A, typename B> void sameOwner(A const & a, B const & b) {
    SIM_CHECK(!a.owner_before(b) && !b.owner_before(a), "other-owner", "a pointer shares ownership with something else");
}
void holder(std::shared_ptr<Thing> given, int v) {
    Held<Thing> h(std::move(given)); given.reset();
    Thing * const t = h.p.get(); Thing const * const c = t;
    t->check(v);
    for (u32 n = 1 + sim::choose(5); n--;) {
        dawdle(sim::choose(3));
        switch (sim::choose(12)) {
        case 11: { // copies and assigned objects are other objects
            SIM_HIT(copied);
            auto const x = std::make_shared<Small>(v); Small y(*x);
            try { y.sharedFromThis(); SIM_CHECK(false, "unowned", "a copy without owner gave out a pointer"); } catch (std::bad_weak_ptr const &) {}
            SIM_CHECK(!y.weakFromThis().lock(), "unowned", "a copy without owner gave out a pointer");
            auto const z = sim::flip() ? std::make_shared<Small>(y) : std::make_shared<Small>(*x);
            if (sim::flip()) *z = *x;
            SIM_CHECK(z->sharedFromThis() == z && x->sharedFromThis() == x && z->weakFromThis().lock() == z && x->weakFromThis().lock() == x, "wrong-pointer", "a copy gives out pointers to another object");
            sameOwner(z->sharedFromThis(&z->v), z); sameOwner(x->weakFromThis(&x->v), x);
            break; }
        case 0: { Held<Thing> x(t->sharedFromThis()); SIM_CHECK(x.p.get() == t, "wrong-pointer", "another object"); sameOwner(x.p, h.p); break; }
        case 1: { Held<Thing const> x(c->sharedFromThis()); SIM_CHECK(x.p.get() == t, "wrong-pointer", "another object"); sameOwner(x.p, h.p); break; }
        case 2: case 3: { // a pointer to a part becomes the only one of this thread
            bool const k = sim::flip();
            std::unique_ptr<Held<Part> > x; std::unique_ptr<Held<Part const> > y;
            if (k) { x.reset(new Held<Part>(t->sharedFromThis(&t->a))); SIM_CHECK(x->p.get() == &t->a, "wrong-pointer", "another part"); sameOwner(x->p, h.p); }
            else { y.reset(new Held<Part const>(c->sharedFromThis(&c->b))); SIM_CHECK(y->p.get() == &t->b, "wrong-pointer", "another part"); sameOwner(y->p, h.p); }
            std::weak_ptr<Thing> const w = t->weakFromThis();
            h.drop(); SIM_HIT(byPart);
            dawdle(sim::choose(4));
            if (k) { SIM_CHECK(x->p->o.value() == v + 1, "wrong-data", "a part is damaged"); } else { SIM_CHECK(y->p->o.value() == v + 2, "wrong-data", "a part is damaged"); }
            auto again = w.lock(); SIM_CHECK(again, "destroyed-early", "an object is gone while a pointer to a part exists");
            Held<Thing> g(std::move(again)); g.p->check(v); return; }
        case 4: { // lets go, and looks again later
            std::weak_ptr<Thing> const w = sim::flip() ? t->weakFromThis() : std::weak_ptr<Thing>(std::const_pointer_cast<Thing>(c->weakFromThis().lock()));
            sameOwner(w, h.p); h.drop(); dawdle(sim::choose(4));
            if (auto again = w.lock()) { SIM_HIT(revived); Held<Thing> g(std::move(again)); SIM_CHECK(g.p.get() == t, "wrong-pointer", "another object"); t->check(v); }
            else { SIM_HIT(expired); SIM_CHECK(w.expired(), "wrong-pointer", "revived"); }
            return; }
        case 5: { std::weak_ptr<Part> const w = t->weakFromThis(&t->b); sameOwner(w, h.p); Held<Part> x(w.lock()); SIM_CHECK(x.p.get() == &t->b, "wrong-pointer", "another part"); break; }
        case 6: { std::weak_ptr<Part const> const w = c->weakFromThis(&c->a); sameOwner(w, h.p); SIM_CHECK(w.use_count() > 0, "destroyed-early", "expired"); h.drop(); dawdle(sim::choose(4));
            Held<Part const> x(w.lock()); if (x.p) { SIM_HIT(revived); SIM_CHECK(x.p.get() == &t->a && x.p->o.value() == v + 1, "wrong-pointer", "another part"); } else SIM_HIT(expired); return; }
        case 7: { SIM_HIT(foreign); Held<int> x(t->sharedFromThis(&outside)); SIM_CHECK(x.p.get() == &outside, "wrong-pointer", "another object"); sameOwner(x.p, h.p); break; }
        case 8: { Held<Thing> x(h.p); h.drop(); h.p = x.p->sharedFromThis(); { sim::Oracle o; ++Thing::holders; } break; }
        default: static_cast<void>(t->a.p.get()); t->check(v);
        }
    }
}
void objects() {
    int const v = static_cast<int>(sim::choose(1000)); bool const throws = sim::chance(1, 6), unownedToo = sim::chance(1, 5);
    if (unownedToo) { SIM_HIT(unowned); Thing t(v, false); Thing::askUnowned(t); t.check(v); }
    int const before = Thing::destroyed;
    std::shared_ptr<Thing> p;
    u64 const faults = sim::allocFaultsFired();
    try { sim::AllocFaults f; if (sim::flip()) p = std::make_shared<Thing>(v, throws); else p.reset(new Thing(v, throws)); SIM_CHECK(!throws, "lost-exception", "the exception of a constructor got lost"); }
    catch (UserError const &) { SIM_HIT(ctorThrew); return; }
    catch (std::bad_alloc const &) { SIM_HIT(noMem); SIM_CHECK(sim::allocFaultsFired() > faults, "error-kind", "bad_alloc without a failed allocation"); return; }
    p->a.p.set(1);
    Threads ts;
    std::weak_ptr<Thing> const w = sim::flip() ? p->weakFromThis() : std::weak_ptr<Thing>(p);
    u32 const n = 1 + sim::choose(3);
    // Pointers which are still on their way to a thread count as owners, too.
    struct Way { std::shared_ptr<Thing> p; int v; };
    for (u32 i = 0; i < n; ++i) {
        std::shared_ptr<Thing> c = sim::flip() ? p : p->sharedFromThis();
        ts.add([q = Way{std::move(c), v}]() mutable { holder(std::move(q.p), q.v); });
    }
    if (sim::flip()) holder(std::move(p), v);
    p.reset();
    ts.join();
    SIM_CHECK(!w.lock(), "leak", "an object outlives its pointers");
    SIM_CHECK(Thing::alive == 0 && Thing::destroyed == before + 1, "leak", "%d objects alive, %d destroyed", Thing::alive, Thing::destroyed - before);
}

// ---- pointers to the elements of a tuple ---------------------------------------------
struct Elem { static int alive; NObj o; Plain p; explicit Elem(int v) : o(v) { sim::Oracle s; ++alive; } Elem(Elem && e) noexcept : o(std::move(e.o)) { sim::Oracle s; ++alive; } ~Elem() { p.set(0); sim::Oracle s; --alive; } };
int Elem::alive;
typedef std::tuple<Elem, int, Elem, NObj> Tup;
template <typename P> void elementHolder(P p, int v) {
    for (u32 n = sim::choose(4); n--;) { dawdle(sim::choose(3)); SIM_CHECK(p->o.value() == v, "wrong-data", "an element is damaged"); P q(p); if (sim::flip()) p.swap(q); static_cast<void>(p->p.get()); }
    SIM_CHECK(Elem::alive == 2, "destroyed-early", "%d elements alive while one of them is pointed to", Elem::alive);
}
void tuples() {
    SIM_HIT(tuples);
    int const v = static_cast<int>(sim::choose(1000));
    std::shared_ptr<Tup> t(std::make_shared<Tup>(Elem(v), v + 1, Elem(v + 2), NObj(v + 3)));
    std::get<0>(*t).p.set(1); std::get<2>(*t).p.set(1);
    std::shared_ptr<Elem> a, b; std::shared_ptr<int> i; std::shared_ptr<NObj> o;
    switch (sim::choose(4)) {
    case 0: { auto all = makeAllSharedTupleElementPtrs(t); a = std::get<0>(all); i = std::get<1>(all); b = std::get<2>(all); o = std::get<3>(all); break; }
    case 1: { auto some = makeSharedTupleElementPtrs<2, 0>(t); b = std::get<0>(some); a = std::get<1>(some); break; }
    case 2: { auto some = makeSharedTupleElementPtrs<3, 1, 0>(t); o = std::get<0>(some); i = std::get<1>(some); a = std::get<2>(some); break; }
    default: b = makeSharedTupleElementPtr<2>(t); o = makeSharedTupleElementPtr<3>(t);
    }
    if (a) { SIM_CHECK(a.get() == &std::get<0>(*t), "wrong-pointer", "another element"); sameOwner(a, t); }
    if (b) { SIM_CHECK(b.get() == &std::get<2>(*t), "wrong-pointer", "another element"); sameOwner(b, t); }
    if (i) { SIM_CHECK(i.get() == &std::get<1>(*t) && *i == v + 1, "wrong-pointer", "another element"); sameOwner(i, t); }
    if (o) { SIM_CHECK(o.get() == &std::get<3>(*t) && o->value() == v + 3, "wrong-pointer", "another element"); sameOwner(o, t); }
    std::weak_ptr<Tup> const w = t;
    SIM_CHECK(w.use_count() == 1 + !!a + !!b + !!i + !!o, "wrong-count", "%ld owners", w.use_count());
    bool const early = sim::flip();
    if (early) t.reset();
    Threads ts;
    if (a) ts.add([a, v] { elementHolder(a, v); });
    if (b) ts.add([b, v]() mutable { elementHolder(std::move(b), v + 2); });
    if (i && sim::flip()) ts.add([i, v] { dawdle(sim::choose(4)); SIM_CHECK(*i == v + 1, "wrong-data", "an element is damaged"); });
    a.reset(); b.reset(); i.reset();
    if (sim::flip()) t.reset();
    if (o) { dawdle(sim::choose(4)); SIM_CHECK(o->value() == v + 3 && Elem::alive == 2, "destroyed-early", "an element is damaged"); }
    o.reset(); t.reset();
    ts.join();
    SIM_CHECK(w.expired() && Elem::alive == 0, "leak", "%d elements alive", Elem::alive);
}
} // namespace

extern "C" void sim_main() {
    sim::nontrivial();
    for (u32 n = 1 + sim::choose(2); n--;) if (sim::choose(3) == 2) tuples(); else objects();
    SIM_CHECK(NObj::live == 0, "leak", "%d objects alive", NObj::live);
}
