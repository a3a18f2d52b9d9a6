// C26: object tree nodes stay consistent under concurrent registration.
#include "common.h"
#include <sharemind/ObjectTree.h>
#include <sharemind/TicketSpinLock.h>
extern "C" char const * const sim_property = "C26";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(busy, "children were listed while others came and went");
SIM_PROBE_DEF(noMem, "registering failed for lack of memory");
SIM_PROBE_DEF(threw, "a child's constructor threw after registering");
SIM_PROBE_DEF(orphan, "a child without a parent");
SIM_PROBE_DEF(disposed, "the parent disposed of a child");
SIM_PROBE_DEF(kept, "a child outlived its parent");
SIM_PROBE_DEF(listFail, "listing failed for lack of memory");
SIM_PROBE_DEF(destroyDry, "a child was destroyed while memory was short");
SIM_PROBE_DEF(deep, "a child was a parent itself");
SIM_PROBE_DEF(emptyParent, "a parent was destroyed without children");

enum { MAXC = 64 };
u64 const NEVER = ~u64(0);
// The history of one child, in global event numbers.
struct Life { void const * at = nullptr; int parent = -1; u64 begin = NEVER, up = NEVER, down = NEVER, end = NEVER; int disposed = 0; } lives[MAXC];
int created;
u64 tick() { static u64 t; return ++t; } // in oracle scopes only
bool fullNow() { sim::Oracle o; return created >= MAXC; }

template <typename Mutex> struct Tree {
    struct Child;
    struct Parent {
        int id; std::function<void (Child *)> f;
        using Node = ObjectTree::ParentNode<Parent, Child, Mutex>;
        Node node;
        Plain guardedBefore; // written before, read in destruction only
        template <typename F> Parent(int i, F && f) : id(i), node(std::forward<F>(f)) { guardedBefore.set(i); }
        std::set<Child *> list() const { return node.children(); }
    };
    struct Child {
        int id; NObj a;
        ObjectTree::ChildNode<typename Parent::Node, &Parent::node> node;
        Obj b; // may throw, after the registration
        std::unique_ptr<Parent> own; // this one is a parent itself
        Child(Parent * p, int i) : id(i), a(i), node(p, this), b(i) { SIM_CHECK(node.parent() == p, "wrong-parent", "child %d has another parent than given", i); sim::Oracle o; lives[i].up = tick(); }
        ~Child() noexcept { own.reset(); sim::Oracle o; if (lives[id].down == NEVER) lives[id].down = tick(); }
    };
    static void bury(int id) { sim::Oracle o; lives[id].end = tick(); }
    static Child * make(Parent * p) {
        int id; { sim::Oracle o; if (created >= MAXC) return nullptr; id = created++; lives[id].parent = p ? p->id : -1; }
        if (!p) SIM_HIT(orphan);
        void * mem = operator new(sizeof(Child)); Child * c = nullptr; u64 const before = sim::allocFaultsFired();
        { sim::Oracle o; lives[id].at = mem; lives[id].begin = tick(); }
        try { sim::AllocFaults f; c = new (mem) Child(p, id); }
        catch (UserError const &) { SIM_HIT(threw); } catch (std::bad_alloc const &) { SIM_HIT(noMem); SIM_CHECK(sim::allocFaultsFired() > before, "error-kind", "bad_alloc without a failed allocation"); }
        if (!c) { bury(id); operator delete(mem); }
        return c;
    }
    static void destroy(Child * c) {
        int const id = c->id; bool const dry = sim::flip();
        { sim::Oracle o; if (lives[id].down == NEVER) lives[id].down = tick(); }
        if (dry) { SIM_HIT(destroyDry); sim::AllocFaults f; c->~Child(); } else c->~Child();
        bury(id);
        operator delete(static_cast<void *>(c));
    }
    static void check(Parent & p) {
        u64 s; { sim::Oracle o; s = tick(); }
        if (sim::flip()) {
            std::size_t const n = p.node.numChildren();
            sim::Oracle o; u64 const e = tick(); std::size_t lo = 0, hi = 0;
            for (int i = 0; i < created; ++i) if (lives[i].parent == p.id) { if (lives[i].up < s && lives[i].down > e) ++lo; if (lives[i].begin < e && lives[i].end > s) ++hi; }
            SIM_CHECK(n >= lo && n <= hi, "count", "parent %d counts %zu children, there are %zu to %zu", p.id, n, lo, hi);
            return;
        }
        std::set<Child *> l;
        try { sim::AllocFaults f; l = p.list(); } catch (std::bad_alloc const &) { SIM_HIT(listFail); return; }
        sim::Oracle o; u64 const e = tick(); bool moving = false;
        for (int i = 0; i < created; ++i) if (lives[i].parent == p.id) {
            Child * const c = static_cast<Child *>(const_cast<void *>(lives[i].at));
            if (lives[i].up < s && lives[i].down > e) SIM_CHECK(l.count(c), "missed", "child %d of parent %d is missing from the list", i, p.id);
            else if (lives[i].begin < e && lives[i].end > s) moving = true;
        }
        if (moving) SIM_HIT(busy);
        for (Child * c : l) {
            bool may = false;
            for (int i = 0; i < created; ++i) may = may || (lives[i].at == c && lives[i].parent == p.id && lives[i].begin < e && lives[i].end > s);
            SIM_CHECK(may, "listed-wrongly", "parent %d lists a child that is not alive or not its own", p.id);
        }
    }
    static void run() {
        int const np = 1 + static_cast<int>(sim::choose(2)); u32 const nt = sim::choose(4); bool const keep = sim::flip();
        Child * keptOnes[MAXC]; int nKept = 0;
        std::unique_ptr<Parent> ps[2]; NObj token(77);
        auto const disposer = [&keptOnes, &nKept, keep, token](Child * c) {
            SIM_HIT(disposed);
            SIM_CHECK(c->node.parent() == nullptr, "attached", "a child disposed of is still attached");
            SIM_CHECK(token.value() == 77, "constructor", "the destructor function is damaged");
            { sim::Oracle o; int const k = lives[c->id].disposed++; SIM_CHECK(k == 0, "disposed-twice", "child %d was disposed of twice", c->id); }
            if (keep) { SIM_HIT(kept); { sim::Oracle o; lives[c->id].down = lives[c->id].end = tick(); } keptOnes[nKept++] = c; }
            else destroy(c);
        };
        for (int i = 0; i < np; ++i) ps[i].reset(new Parent(i, disposer));
        struct User {
            Child * mine[MAXC]; int n = 0;
            void step(std::unique_ptr<Parent> * ps, int np) {
                Parent & p = *ps[sim::choose(static_cast<u32>(np))];
                switch (sim::choose(5)) {
                case 0: case 1: if (Child * c = make(sim::chance(1, 10) ? nullptr : &p)) {
                    mine[n++] = c;
                    if (sim::chance(1, 6) && !fullNow()) { // its own children
                        SIM_HIT(deep);
                        c->own.reset(new Parent(100 + c->id, [](Child * x) { { sim::Oracle o; SIM_CHECK(lives[x->id].disposed++ == 0, "disposed-twice", "child %d was disposed of twice", x->id); } destroy(x); }));
                        for (u32 k = 1 + sim::choose(2); k--;) make(c->own.get());
                        check(*c->own);
                    } }
                    break;
                case 2: if (n) { std::swap(mine[sim::choose(static_cast<u32>(n))], mine[n - 1]); destroy(mine[--n]); } break;
                default: check(p);
                }
            }
        };
        Threads ts; static User us[5];
        for (u32 t = 0; t < nt; ++t) {
            u32 const steps = 1 + sim::choose(10); bool const leave = sim::flip();
            ts.add([&ps, np, steps, leave, t] { User & u = us[t]; for (u32 s = 0; s < steps; ++s) { u.step(ps, np); dawdle(sim::choose(3)); } if (!leave) while (u.n) destroy(u.mine[--u.n]); });
        }
        for (u32 s = sim::choose(10); s--;) us[4].step(ps, np);
        ts.join();
        for (int i = 0; i < np; ++i) { check(*ps[i]); check(*ps[i]); }
        for (int i = 0; i < np; ++i) {
            bool any = false; { sim::Oracle o; for (int k = 0; k < created; ++k) any = any || (lives[k].parent == i && lives[k].up != NEVER && lives[k].down == NEVER); }
            if (!any) SIM_HIT(emptyParent);
            ps[i].reset();
            sim::Oracle o;
            for (int k = 0; k < created; ++k) if (lives[k].parent == i && lives[k].up != NEVER) SIM_CHECK(lives[k].down != NEVER, "not-disposed", "child %d was not disposed of with its parent", k);
        }
        for (int k = 0; k < nKept; ++k) { SIM_CHECK(keptOnes[k]->node.parent() == nullptr && keptOnes[k]->a.value() == keptOnes[k]->id, "attached", "a child outliving its parent is attached or damaged"); keptOnes[k]->~Child(); operator delete(static_cast<void *>(keptOnes[k])); }
        // Those that never had a parent.
        for (User & u : us) for (int k = 0; k < u.n; ++k) { bool orphan; { sim::Oracle o; orphan = false; for (int i = 0; i < created; ++i) orphan = orphan || (lives[i].at == u.mine[k] && lives[i].parent < 0 && lives[i].end == NEVER); } if (orphan) destroy(u.mine[k]); }
    }
};
} // namespace

extern "C" void sim_main() {
    sim::nontrivial();
    Obj::throwing = true;
    if (sim::chance(1, 3)) Tree<TicketSpinLock>::run(); else Tree<std::mutex>::run();
    SIM_CHECK(Obj::live == 0 && NObj::live == 0, "leak", "%d and %d objects were never destroyed", Obj::live, NObj::live);
}
