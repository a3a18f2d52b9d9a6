// C18: shared resources are never leaked, even when construction fails.
#include "common.h"
#include <sharemind/SharedResourceMap.h>
extern "C" char const * const sim_property = "C18";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(threw, "a resource constructor threw");
SIM_PROBE_DEF(noMem, "memory ran out in a request");
SIM_PROBE_DEF(mapFirst, "the map died before its resources");
SIM_PROBE_DEF(mapRace, "the map died while resources were being released");
SIM_PROBE_DEF(afterFail, "a key that had failed was requested again");
SIM_PROBE_DEF(reviveFail, "memory ran out while the resource existed");
SIM_PROBE_DEF(mapFail, "constructing the map failed");
SIM_PROBE_DEF(eachFail, "memory ran out in an enumeration");

enum { KEYS = 3 };
int aliveN, aliveOf[KEYS]; bool failed[KEYS];

struct Res {
    int key; NObj o;
    explicit Res(int k) : key(k), o(k) { Obj::maybeThrow(); sim::Oracle g; ++aliveN; ++aliveOf[k]; SIM_CHECK(aliveOf[k] == 1, "two-instances", "key %d has two instances", k); }
    Res() : Res(0) {}
    ~Res() noexcept { dawdle(2); sim::Oracle g; --aliveN; SIM_CHECK(--aliveOf[key] == 0, "double-destroy", "resource of key %d destroyed twice", key); }
    Res(Res const &) = delete;
};
struct Key {
    NObj o;
    Key(int v) : o(v) {}
    friend bool operator<(Key const & a, Key const & b) { return a.o.value() < b.o.value(); }
};
struct Make { // by value: copied around
    NObj o{9};
    std::shared_ptr<Res> operator()(Key const & k) const { SIM_CHECK(o.value() == 9, "constructor", "damaged"); return std::make_shared<Res>(k.o.value()); }
};
struct MakeRaw { Res * operator()(Key const & k, int x) const { SIM_CHECK(x == 5, "constructor", "wrong argument"); return new Res(k.o.value()); } };
using Map = SharedResourceMap<Key, Res>;

struct User {
    std::vector<std::shared_ptr<Res>> mine;
    User() { mine.reserve(8); }
};
void step(Map & m, User & u, u32 keys) {
    switch (sim::choose(7)) {
    default: {
        if (u.mine.size() >= 6) { u.mine.pop_back(); break; }
        int const k = static_cast<int>(sim::choose(keys));
        u32 const how = sim::choose(3);
        bool existed, again; u64 const before = sim::allocFaultsFired(); size_t size0 = m.size(); (void) size0;
        { sim::Oracle o; existed = aliveOf[k]; again = failed[k]; }
        std::shared_ptr<Res> p;
        bool ok = false;
        try {
            sim::AllocFaults f;
            if (how == 0) p = m.getResource(k, Make{});
            else if (how == 1) p = m.getResource(k, MakeRaw{}, 5);
            else if (k == 0) p = m.getResource(k);
            else { Key kk(k); p = m.getResource(kk, Make{}); }
            ok = true;
        } catch (UserError const &) { SIM_HIT(threw); }
        catch (std::bad_alloc const &) {
            SIM_HIT(noMem); if (existed) SIM_HIT(reviveFail);
            SIM_CHECK(sim::allocFaultsFired() > before, "error-kind", "bad_alloc without a failed allocation");
        }
        if (!ok) { sim::Oracle o; failed[k] = true; break; }
        if (again) { SIM_HIT(afterFail); sim::Oracle o; failed[k] = false; }
        SIM_CHECK(p && p->key == k && p->o.value() == k, "wrong", "wrong resource for key %d", k);
        u.mine.push_back(std::move(p));
        break; }
    case 4: if (!u.mine.empty()) { std::swap(u.mine[sim::choose(static_cast<u32>(u.mine.size()))], u.mine.back()); u.mine.pop_back(); } break;
    case 5: if (!u.mine.empty() && u.mine.size() < 6) u.mine.push_back(u.mine[0]); break;
    case 6: {
        try { sim::AllocFaults f; m.forEach([](Key const & k, std::shared_ptr<Res> const & p) { SIM_CHECK(p->key == k.o.value(), "enumerate", "wrong resource"); if (sim::userThrow()) throw UserError{4}; }); }
        catch (UserError const &) {} catch (std::bad_alloc const &) { SIM_HIT(eachFail); }
        break; }
    }
}
} // namespace

extern "C" void sim_main() {
    sim::nontrivial();
    Obj::throwing = true;
    u32 const n = sim::choose(3), keys = 1 + sim::choose(KEYS);
    {
        std::shared_ptr<Map> m;
        try { sim::AllocFaults f; m.reset(new Map); } catch (std::bad_alloc const &) { SIM_HIT(mapFail); return; }
        bool const single = n == 0;
        User main_;
        Threads ts;
        for (u32 i = 0; i < n; ++i) {
            u32 const steps = 1 + sim::choose(8); bool const keep = sim::flip();
            ts.add([m, steps, keys, keep]() mutable {
                User u;
                for (u32 s = 0; s < steps; ++s) { step(*m, u, keys); if (sim::flip()) dawdle(sim::choose(5)); }
                if (keep) { m.reset(); dawdle(sim::choose(10)); SIM_HIT(mapRace); } // pointers outlive this thread's use of the map
                u.mine.clear();
            });
        }
        for (u32 s = sim::choose(10); s--;) {
            if (single && sim::flip()) {
                // Nobody else: a failed request leaves the map as it was.
                size_t const size0 = m->size(); size_t const held = main_.mine.size(); int const alive0 = aliveN;
                User u; for (auto & p : main_.mine) u.mine.push_back(p);
                int const k = static_cast<int>(sim::choose(keys)); bool ok = false;
                try { sim::AllocFaults f; u.mine.push_back(m->getResource(k, Make{})); ok = true; } catch (UserError const &) { SIM_HIT(threw); } catch (std::bad_alloc const &) { SIM_HIT(noMem); }
                if (!ok) {
                    SIM_CHECK(m->size() == size0, "not-restored", "%zu entries instead of %zu after a failed request", m->size(), size0);
                    SIM_CHECK(aliveN == alive0, "not-restored", "%d resources instead of %d after a failed request", aliveN, alive0);
                }
                (void) held;
            } else step(*m, main_, keys);
        }
        if (sim::flip()) { SIM_HIT(mapFirst); m.reset(); }
        if (sim::flip()) main_.mine.clear();
        if (sim::flip() || n) ts.join();
        if (m && n == 0) { main_.mine.clear(); SIM_CHECK(m->empty() && aliveN == 0, "leak", "%zu entries, %d resources without users", m->size(), aliveN); }
        m.reset();
        dawdle(sim::choose(4));
        main_.mine.clear();
        ts.join();
    }
    SIM_CHECK(aliveN == 0, "leak", "%d resources were never destroyed", aliveN);
    SIM_CHECK(NObj::live == 0, "leak", "%d keys, constructors or contents alive", NObj::live);
}
