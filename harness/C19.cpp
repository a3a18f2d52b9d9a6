// C19: identifiers are unique while held, recycled once, exhaustion is reported.
#include "common.h"
#include <sharemind/IdentifierPool.h>
extern "C" char const * const sim_property = "C19";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(exhausted, "identifiers ran out");
SIM_PROBE_DEF(again, "a reservation succeeded after exhaustion");
SIM_PROBE_DEF(noMem, "memory ran out in a reservation");
SIM_PROBE_DEF(poolGone, "the pool died before its holders");
SIM_PROBE_DEF(overwrite, "a holder was overwritten");
SIM_PROBE_DEF(self, "a holder was moved to itself");
SIM_PROBE_DEF(wrapped, "identifiers wrapped around");
SIM_PROBE_DEF(poolFail, "constructing the pool failed");

struct Tag8;
using Strong8 = StrongType<std::uint8_t, Tag8, StrongTypeBasicComparable>;

// Model, changed inside oracle scopes only.
u64 const NARROW = 256;
u64 capacity = ~0ull;            // of the identifier type
std::set<u64> * heldIds; long maybeHeld; long maxSeen[16]; bool inCall[16]; int everFull; u64 completed;
void more() { ++maybeHeld; for (int i = 0; i < 16; ++i) if (inCall[i] && maxSeen[i] < maybeHeld) maxSeen[i] = maybeHeld; }
template <typename T> u64 raw(T v) { return static_cast<u64>(v); }
template <typename ... A> u64 raw(StrongType<A...> const & v) { return static_cast<u64>(v.get()); }

template <typename Pool> struct User {
    using H = typename Pool::IdHolder;
    struct Slot { H h; bool has = false; u64 id = 0; };
    std::vector<Slot> s;
    explicit User(u32 n) : s(n) {}
    void letGo(Slot & x) { // the identifier may be reused from here on
        if (!x.has) return;
        sim::Oracle o;
        SIM_CHECK(heldIds->erase(x.id) == 1, "harness", "id %llu", (unsigned long long) x.id);
    }
    void gone(Slot & x) { if (!x.has) return; x.has = false; sim::Oracle o; --maybeHeld; }
    void check(Slot & x) {
        SIM_CHECK(x.h.valid() == x.has && static_cast<bool>(x.h) == x.has, "validity", "holder validity is %d, expected %d", x.h.valid(), x.has);
        if (x.has) SIM_CHECK(raw(x.h.id()) == x.id, "identifier-changed", "holder of %llu says %llu", (unsigned long long) x.id, (unsigned long long) raw(x.h.id()));
    }
    void reserve(Pool & p, Slot & x, bool faults) { // into an empty slot, or over a held one
        int const me = sim::tid();
        { sim::Oracle o; more(); inCall[me] = true; maxSeen[me] = maybeHeld; }
        u64 const f0 = sim::allocFaultsFired();
        auto done = [&](bool ok, bool full) {
            sim::Oracle o; inCall[me] = false; if (!ok) --maybeHeld;
            if (full) SIM_CHECK(static_cast<u64>(maxSeen[me] - 1) >= capacity, "premature-exhaustion", "exhaustion reported although at most %ld of %llu identifiers were held", maxSeen[me] - 1, (unsigned long long) capacity);
            if (full) ++everFull; else if (ok && everFull) SIM_HIT(again);
            if (ok) ++completed;
        };
        try {
            auto get = [&]() -> H { if (!faults) return p.reserve(); sim::AllocFaults f; return p.reserve(); };
            H h(get());
            done(true, false);
            SIM_CHECK(h.valid(), "validity", "reserve() returned an invalid holder");
            u64 const id = raw(h.id());
            bool fresh; { sim::Oracle o; fresh = heldIds->insert(id).second; if (completed > 256) SIM_HIT(wrapped); }
            SIM_CHECK(fresh, "duplicate", "identifier %llu was reserved although it is held", (unsigned long long) id);
            if (x.has) { SIM_HIT(overwrite); letGo(x); }
            x.h = std::move(h);
            SIM_CHECK(!h.valid(), "validity", "a moved-from holder is valid");
            gone(x);
            x.has = true; x.id = id;
        } catch (typename Pool::ReserveException const & e) {
            SIM_HIT(exhausted); SIM_CHECK(e.what() && *e.what(), "error-kind", "no message");
            done(false, true);
        } catch (std::bad_alloc const &) {
            SIM_HIT(noMem); done(false, false);
            SIM_CHECK(sim::allocFaultsFired() > f0, "error-kind", "bad_alloc without a failed allocation");
        } // anything else ends the run as an escaped exception
        check(x);
    }
    void step(Pool * p) {
        Slot & x = s[sim::choose(static_cast<u32>(s.size()))];
        switch (sim::choose(p ? 9 : 4)) {
        case 0: letGo(x); x.h.release(); gone(x); check(x); if (sim::flip()) { x.h.release(); check(x); } break;
        case 1: { // moved elsewhere, overwriting
            Slot & y = s[sim::choose(static_cast<u32>(s.size()))];
            if (&x == &y) { SIM_HIT(self); H & alias = y.h; x.h = std::move(alias); check(x); break; }
            if (y.has) SIM_HIT(overwrite);
            letGo(y); y.h = std::move(x.h); gone(y);
            y.has = x.has; y.id = x.id; x.has = false;
            check(x); check(y);
            break; }
        case 2: { H t(std::move(x.h)); SIM_CHECK(!x.h.valid() && t.valid() == x.has, "validity", "after a move"); if (x.has) SIM_CHECK(raw(t.id()) == x.id, "identifier-changed", "by a move");
            if (sim::flip()) { letGo(x); } else { x.h = std::move(t); check(x); break; }
            { H u(std::move(t)); }
            gone(x); check(x); break; }
        case 3: { letGo(x); x.h = H(); gone(x); check(x); break; }
        default: reserve(*p, x, true);
        }
    }
    void drop() { for (auto & x : s) { check(x); letGo(x); { H t(std::move(x.h)); } gone(x); } }
    ~User() { drop(); }
};

template <typename Pool> void drive(u64 cap) {
    capacity = cap;
    u32 const n = sim::choose(3);
    bool const fill = cap == NARROW && sim::flip();
    std::unique_ptr<Pool> pool;
    try { sim::AllocFaults f; pool.reset(new Pool); } catch (std::bad_alloc const &) { SIM_HIT(poolFail); return; }
    u32 const keepFree = sim::choose(4);
    User<Pool> bulk(fill ? 256 - keepFree : 0), mine(1 + sim::choose(4));
    if (fill) {
        for (auto & x : bulk.s) bulk.reserve(*pool, x, false);
        for (auto & x : bulk.s) SIM_CHECK(x.has, "premature-exhaustion", "a reservation failed while filling");
        for (u32 k = sim::choose(4); k--;) bulk.step(pool.get());
    }
    Threads ts;
    bool const outlive = sim::flip();
    std::vector<std::unique_ptr<User<Pool>>> us;
    for (u32 i = 0; i < n; ++i) {
        us.emplace_back(new User<Pool>(1 + sim::choose(3)));
        User<Pool> * u = us.back().get(); u32 const steps = 1 + sim::choose(10); Pool * p = pool.get();
        ts.add([u, steps, p] { for (u32 k = 0; k < steps; ++k) u->step(p); });
    }
    for (u32 k = sim::choose(14); k--;) mine.step(pool.get());
    if (!outlive) {
        // Letting holders go while the pool is used and after it is gone must both work.
        ts.join();
        if (fill && sim::flip()) { // all of them are available again, each exactly once
            mine.drop(); for (auto & u : us) u->drop(); bulk.drop();
            User<Pool> all(256);
            for (auto & x : all.s) { all.reserve(*pool, x, false); SIM_CHECK(x.has, "premature-exhaustion", "an identifier was lost"); }
            User<Pool> oneMore(1); oneMore.reserve(*pool, oneMore.s[0], false);
            SIM_CHECK(!oneMore.s[0].has, "duplicate", "more identifiers than the type has");
        }
        pool.reset();
    } else {
        ts.join();
        pool.reset(); SIM_HIT(poolGone);
        for (u32 i = 0; i < n; ++i) { User<Pool> * u = us[i].get(); ts.add([u] { for (u32 k = sim::choose(4); k--;) u->step(nullptr); u->drop(); }); }
        for (u32 k = sim::choose(5); k--;) mine.step(nullptr);
        mine.drop(); bulk.drop();
        ts.join();
    }
}
} // namespace

extern "C" void sim_setup() { sim::config.softCap = 30000; }
extern "C" void sim_main() {
    sim::nontrivial();
    { sim::Oracle o; heldIds = new std::set<u64>; }
    switch (sim::choose(4)) {
    case 0: drive<IdentifierPool<std::uint8_t>>(NARROW); break;
    case 1: drive<IdentifierPool<Strong8>>(NARROW); break;
    case 2: drive<IdentifierPool<std::uint16_t>>(65536); break;
    default: drive<IdentifierPool<std::uint64_t>>(~0ull); break;
    }
    sim::Oracle o;
    SIM_CHECK(heldIds->empty() && maybeHeld == 0, "harness", "model not empty");
}
