// C17: a shared resource map hands out one live instance per key.
#include "common.h"
#include <sharemind/SharedResourceMap.h>
extern "C" char const * const sim_property = "C17";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(same, "a request while the resource was alive");
SIM_PROBE_DEF(revived, "a request found the resource alive without users");
SIM_PROBE_DEF(again, "a key was constructed again");
SIM_PROBE_DEF(lastInEach, "an enumeration dropped the last pointer");
SIM_PROBE_DEF(eachOther, "an enumeration dropped a pointer to another resource");
SIM_PROBE_DEF(waited, "waited for emptiness");
SIM_PROBE_DEF(contend, "two threads requested a missing key at once");

enum { KEYS = 3 };
// oracle
int alive[KEYS], constructing[KEYS], made[KEYS], nextId;
int held[KEYS];            // pointers known to be held by users (a lower bound)
int heldId[KEYS];          // instance they point to
int requesting[KEYS];

struct Res {
    int key, id; int * payload;
    explicit Res(int k) : key(k) {
        {
            sim::Oracle o;
            SIM_CHECK(!alive[k], "two-instances", "a second instance for key %d is constructed while one is alive", k);
            SIM_CHECK(!constructing[k], "two-instances", "key %d is constructed twice at the same time", k);
            ++constructing[k]; ++alive[k]; if (made[k]++) SIM_HIT(again); id = ++nextId;
            sim::note("construct %d as %d", k, id);
        }
        payload = new int(k * 7);
        dawdle(3);
        sim::Oracle o; --constructing[k];
    }
    ~Res() noexcept {
        { sim::Oracle o; SIM_CHECK(held[key] <= 0 || heldId[key] != id, "destroyed-in-use", "the resource of key %d is destroyed while %d pointers to it are held", key, held[key]); sim::note("destroy %d id %d", key, id); }
        dawdle(3);
        delete payload; payload = reinterpret_cast<int *>(8);
        sim::Oracle o; --alive[key];
    }
    Res(Res const &) = delete;
    int check() const { SIM_CHECK(*payload == key * 7, "damaged", "resource damaged"); return id; }
};
struct Make { std::shared_ptr<Res> operator()(int k) const { return std::make_shared<Res>(k); } };
struct MakeRaw { Res * operator()(int k, int) const { return new Res(k); } };
struct Key { // must not be used once it has been moved from
    int k;
    Key(int v) : k(v) {}
    Key(Key const &) = default;
    Key(Key && o) noexcept : k(o.k) { o.k = -1; }
    Key & operator=(Key const &) = default;
    Key & operator=(Key && o) noexcept { k = o.k; o.k = -1; return *this; }
    operator int() const { return k; }
    friend bool operator<(Key const & a, Key const & b) { return a.k < b.k; }
};
using Map = SharedResourceMap<Key, Res>;

struct Ptr { // a user's pointer, known to the oracle
    std::shared_ptr<Res> p; int key = -1;
    Ptr() {}
    Ptr(std::shared_ptr<Res> && q) : p(std::move(q)), key(p->key) { note(); }
    Ptr(Ptr const & o) : p(o.p), key(o.key) { if (p) note(); }
    Ptr(Ptr && o) : p(std::move(o.p)), key(o.key) {}
    Ptr & operator=(Ptr o) { drop(); p = std::move(o.p); key = o.key; return *this; }
    void note() {
        int const id = p->check();
        sim::Oracle o;
        SIM_CHECK(held[key] <= 0 || heldId[key] == id, "other-instance", "key %d: got instance %d while instance %d is held", key, id, heldId[key]);
        heldId[key] = id; ++held[key];
    }
    void drop() {
        if (!p) return;
        p->check();
        { sim::Oracle o; --held[key]; }
        p.reset();
    }
    ~Ptr() { drop(); }
};

Ptr get(Map & m, int k) {
    { sim::Oracle o; if (held[k] > 0) SIM_HIT(same); if (!alive[k] && requesting[k]++) SIM_HIT(contend); else if (alive[k]) ++requesting[k]; if (alive[k] && held[k] == 0) SIM_HIT(revived); }
    bool const raw = sim::chance(1, 3);
    std::shared_ptr<Res> p;
    if (raw) p = m.getResource(k, MakeRaw{}, 5);
    else if (sim::flip()) p = m.getResource(Key(k), Make{});
    else { Key key(k); p = m.getResource(key, Make{}); SIM_CHECK(key.k == k, "key", "the key passed as an lvalue was changed"); }
    SIM_CHECK(p && p->key == k, "wrong", "wrong resource for key %d", k);
    { sim::Oracle o; --requesting[k]; }
    return Ptr(std::move(p));
}
void enumerate(Map & m, std::vector<Ptr> * mine) {
    int seen[KEYS] = {}; int before[KEYS], ids[KEYS];
    // Keys this thread holds throughout must be visited.
    bool holds[KEYS] = {};
    for (auto & p : *mine) if (p.p) holds[p.key] = true;
    bool const dropOwn = sim::chance(1, 3);
    (void) before; (void) ids;
    m.forEach([&](Key const & k, std::shared_ptr<Res> p) {
        SIM_CHECK(p && p->key == k.k, "enumerate", "enumeration passed a wrong resource");
        int const id = p->check();
        {
            sim::Oracle o;
            SIM_CHECK(++seen[k.k] == 1, "enumerate", "key %d visited %d times", k.k, seen[k.k]);
            SIM_CHECK(held[k.k] <= 0 || heldId[k.k] == id, "enumerate", "enumeration passed another instance of key %d", k.k);
            if (held[k.k] == 0) SIM_HIT(lastInEach);
        }
        if (dropOwn && !mine->empty() && sim::flip()) { SIM_HIT(eachOther); holds[mine->back().key] = false; mine->pop_back(); for (auto & q : *mine) if (q.p) holds[q.key] = true; }
        dawdle(sim::choose(4));
        p.reset();
    });
    for (int k = 0; k < KEYS; ++k) if (holds[k]) SIM_CHECK(seen[k] == 1, "enumerate", "key %d, held throughout, was visited %d times", k, seen[k]);
}
void user(Map & m, u32 steps, u32 keys) {
    std::vector<Ptr> mine; mine.reserve(8);
    for (u32 s = 0; s < steps; ++s) {
        switch (sim::choose(8)) {
        default: if (mine.size() < 5) { mine.push_back(get(m, static_cast<int>(sim::choose(keys)))); break; } // fallthrough
        case 3: case 4: if (!mine.empty()) { std::swap(mine[sim::choose(static_cast<u32>(mine.size()))], mine.back()); mine.pop_back(); } break;
        case 5: if (!mine.empty() && mine.size() < 5) { mine.push_back(mine[sim::choose(static_cast<u32>(mine.size()))]); } break;
        case 6: enumerate(m, &mine); break;
        case 7: {
            size_t lo = 0; bool h[KEYS] = {};
            for (auto & p : mine) if (p.p && !h[p.key]) { h[p.key] = true; ++lo; }
            size_t const n = m.size(); bool const e = m.empty();
            SIM_CHECK(n >= lo && n <= keys, "size", "size %zu with %zu keys held of %u", n, lo, keys);
            SIM_CHECK(!e || !lo, "size", "empty with %zu keys held", lo);
            break; }
        }
        if (sim::flip()) { for (auto & p : mine) p.p->check(); dawdle(sim::choose(6)); }
    }
}
} // namespace

extern "C" void sim_main() {
    sim::nontrivial();
    Map m;
    u32 const n = 1 + sim::choose(4), keys = 1 + sim::choose(KEYS);
    Threads ts;
    bool dropping = false; // oracle
    bool const anchor = sim::chance(1, 3);
    Ptr hold;
    if (anchor) {
        hold = get(m, 0);
        u32 const nw = 1 + sim::choose(2);
        for (u32 i = 0; i < nw; ++i) ts.add([&] { SIM_HIT(waited); m.waitForEmpty(); sim::Oracle o; SIM_CHECK(dropping, "wait-early", "the wait for emptiness returned while a resource was held"); });
    } else if (sim::chance(1, 3)) ts.add([&] { SIM_HIT(waited); dawdle(sim::choose(30)); m.waitForEmpty(); });
    // steps must end with nothing held
    for (u32 i = 0; i < n; ++i) { u32 const steps = 1 + sim::choose(8); ts.add([&m, steps, keys] { user(m, steps, keys); }); }
    user(m, sim::choose(6), keys);
    if (anchor) { dawdle(sim::choose(60)); { sim::Oracle o; dropping = true; } hold.drop(); }
    if (sim::flip()) { ts.join(); m.waitForEmpty(); }
    ts.join();
    SIM_CHECK(m.empty() && m.size() == 0, "stale-entry", "%zu entries left although nobody holds a resource", m.size());
    m.waitForEmpty();
    int visited = 0; m.forEach([&visited](Key const &, std::shared_ptr<Res>) { ++visited; });
    SIM_CHECK(visited == 0, "enumerate", "an empty map enumerates");
    for (int k = 0; k < KEYS; ++k) SIM_CHECK(alive[k] == 0, "leak", "the resource of key %d is alive although nobody holds it", k);
}
