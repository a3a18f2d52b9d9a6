// C27: call stack contexts are per-thread and strictly nested.
#include "common.h"
#include <sharemind/CallStack.h>
extern "C" char const * const sim_property = "C27";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(nested, "contexts were nested four deep or more");
SIM_PROBE_DEF(unwound, "an exception left several contexts");
SIM_PROBE_DEF(ctorThrew, "constructing a context failed");
SIM_PROBE_DEF(found, "a lookup found an outer context");
SIM_PROBE_DEF(shadowed, "a lookup found the innermost of several");
SIM_PROBE_DEF(absent, "a lookup found nothing");
SIM_PROBE_DEF(overlap, "contexts were open on several threads");
SIM_PROBE_DEF(inCtor, "contexts were opened while another one was constructed");
SIM_PROBE_DEF(inDtor, "the stack was examined while a context was destroyed");
SIM_PROBE_DEF(heap, "a context lived on the heap");

enum { MAXD = 24, THREADS = 4 };
// The contexts open on a thread according to the model.
struct Frame { void const * at; int key; int val; };
struct Shadow { Frame f[2][MAXD]; int n[2]; } shadows[THREADS + 1];
int openThreads; // in oracle scopes only
thread_local Shadow * mine = nullptr;
void examineAll();

struct Val {
    NObj o; int extra = 0;
    explicit Val(int v) : o(v) { Obj::maybeThrow(); }
    Val() : Val(-5) {}
    Val(Val const &) = delete;
    ~Val() noexcept { SIM_HIT(inDtor); examineAll(); }
};
struct Key {
    Obj o; // may throw
    explicit Key(int k) : o(k) {}
    ~Key() noexcept { examineAll(); }
    friend bool operator==(Key const & a, int b) { return a.o.value() == b; }
    friend bool operator==(Key const & a, Key const & b) { return a.o.value() == b.o.value(); }
};
using A = CallStack<Key, Val>;      // keys and values
using B = CallStack<int, void>;     // keys only

int keyOf(A::Context const & c) { return c.key().o.value(); }
int keyOf(B::Context const & c) { return c.key(); }
int valOf(A::Context const & c) { return c.value().o.value(); }
int valOf(B::Context const &) { return 0; }

template <typename S> void examine(int w) {
    int i = mine->n[w];
    for (auto c = S::top(); c; c = c->next()) {
        --i;
        SIM_CHECK(i >= 0, "stack-wrong", "more contexts are open than were entered");
        SIM_CHECK(c == mine->f[w][i].at, "stack-wrong", "context %d of %d is another one than was entered", i, mine->n[w]);
        SIM_CHECK(keyOf(*c) == mine->f[w][i].key && valOf(*c) == mine->f[w][i].val, "stack-wrong", "context %d of %d has key %d and value %d, expected %d and %d", i, mine->n[w], keyOf(*c), valOf(*c), mine->f[w][i].key, mine->f[w][i].val);
    }
    SIM_CHECK(i == 0, "stack-wrong", "%d of %d contexts are missing", i, mine->n[w]);
}
void examineAll() { if (mine) { examine<A>(0); examine<B>(1); } }

template <typename S, typename K> void lookup(int w, K const & key, int k) {
    Frame const * want = nullptr; int same = 0;
    for (int i = 0; i < mine->n[w]; ++i) if (mine->f[w][i].key == k) { want = &mine->f[w][i]; ++same; }
    auto const c = S::contains(key);
    if (!want) SIM_HIT(absent); else if (same > 1) SIM_HIT(shadowed); else SIM_HIT(found);
    SIM_CHECK((c ? static_cast<void const *>(c) : nullptr) == (want ? want->at : nullptr), "lookup-wrong", "looking up key %d found %s", k, !c ? "nothing" : want ? "another context" : "a context nobody entered on this thread");
}

struct Leave { int levels; };
void push(int w, void const * at, int k, int v) { mine->f[w][mine->n[w]++] = Frame{ at, k, v }; }
struct Pop { int w; ~Pop() { --mine->n[w]; } }; // destroyed before the context

void work(u32 & budget, int depth);
void inside(u32 & budget, int depth) {
    examineAll();
    work(budget, depth + 1);
    examineAll();
}
void enter(u32 & budget, int depth) {
    int const k = static_cast<int>(sim::choose(4)), v = static_cast<int>(sim::choose(100));
    switch (sim::choose(5)) {
    case 0: { A::Context c(k, v); push(0, &c, k, v); Pop p{0}; inside(budget, depth); break; }
    case 1: { A::Context c(k); push(0, &c, k, -5); Pop p{0}; inside(budget, depth); break; }
    case 2: { B::Context c(k); push(1, &c, k, 0); Pop p{1}; inside(budget, depth); break; }
    case 3: { // on the heap
        SIM_HIT(heap);
        std::unique_ptr<A::Context> c; { sim::AllocFaults f; c.reset(new A::Context(k, v)); } // (a failure leaves nothing)
        push(0, c.get(), k, v); Pop p{0}; inside(budget, depth); break; }
    default: { // the key is changed inside
        A::Context c(k, v); push(0, &c, k, v); Pop p{0};
        int const k2 = static_cast<int>(sim::choose(4)), v2 = static_cast<int>(sim::choose(100));
        *A::top()->key().o.p = k2; *A::top()->value().o.p = v2; mine->f[0][mine->n[0] - 1].key = k2; mine->f[0][mine->n[0] - 1].val = v2;
        inside(budget, depth); break; }
    }
}
// A key made from one whose construction runs contexts of its own.
struct Nesting { int k; operator Key() const { A::Context in(3, 33); push(0, &in, 3, 33); Pop p{0}; B::Context b(1); push(1, &b, 1, 0); Pop q{1}; SIM_HIT(inCtor); examineAll(); return Key(k); } };

void work(u32 & budget, int depth) {
    if (depth >= 4) SIM_HIT(nested);
    while (budget) {
        --budget;
        switch (sim::choose(8)) {
        case 0: case 1: case 2:
            if (depth < MAXD - 4) {
                int const n0 = mine->n[0], n1 = mine->n[1];
                { sim::Oracle o; if (depth == 0 && ++openThreads > 1) SIM_HIT(overlap); }
                try { enter(budget, depth); }
                catch (Leave & l) {
                    SIM_HIT(unwound);
                    { sim::Oracle o; if (depth == 0) --openThreads; }
                    SIM_CHECK(mine->n[0] == n0 && mine->n[1] == n1, "harness", "unbalanced");
                    examineAll();
                    if (l.levels-- > 0 && depth > 0) throw;
                    break;
                }
                catch (UserError const &) { SIM_HIT(ctorThrew); }
                catch (std::bad_alloc const &) { SIM_HIT(ctorThrew); }
                { sim::Oracle o; if (depth == 0) --openThreads; }
                SIM_CHECK(mine->n[0] == n0 && mine->n[1] == n1, "harness", "unbalanced");
                examineAll();
            }
            break;
        case 3: { int const k = static_cast<int>(sim::choose(5)); if (sim::flip()) lookup<A>(0, k, k); else lookup<B>(1, k, k); break; }
        case 4: if (depth && sim::flip()) return; break;
        case 5: if (depth && sim::chance(1, 3)) throw Leave{ static_cast<int>(sim::choose(4)) }; break;
        case 6:
            if (depth < MAXD - 4) {
                try { A::Context c(Nesting{2}, 7); push(0, &c, 2, 7); Pop p{0}; examineAll(); } catch (UserError const &) { SIM_HIT(ctorThrew); }
                examineAll();
            }
            break;
        default: dawdle(1 + sim::choose(4)); examineAll();
        }
    }
}
void run(int t, u32 budget) { mine = &shadows[t]; examineAll(); try { work(budget, 0); } catch (Leave const &) { SIM_CHECK(false, "harness", "leaked exception"); } examineAll(); mine = nullptr; }
} // namespace

extern "C" void sim_main() {
    sim::nontrivial();
    Obj::throwing = true;
    {
        Threads ts;
        u32 const n = sim::choose(THREADS + 1);
        for (u32 t = 0; t < n; ++t) { u32 const b = 4 + sim::choose(30); ts.add([t, b] { run(static_cast<int>(t) + 1 > THREADS ? THREADS : static_cast<int>(t) + 1, b); }); }
        run(0, sim::choose(30));
        ts.join();
    }
    SIM_CHECK(A::top() == nullptr && B::top() == nullptr, "stack-wrong", "a context is still open");
    SIM_CHECK(Obj::live == 0 && NObj::live == 0, "leak", "%d keys and %d values are alive", Obj::live, NObj::live);
}
