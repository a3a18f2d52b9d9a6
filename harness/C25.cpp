// C25: the LRU cache keeps the most recent entries and never returns a wrong value.
#include "common.h"
#include <sharemind/LRU.h>
extern "C" char const * const sim_property = "C25";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(hit, "a kept entry was found");
SIM_PROBE_DEF(revived, "an evicted entry was found again");
SIM_PROBE_DEF(gone, "an evicted entry was gone");
SIM_PROBE_DEF(missing, "a key that was never cached was looked up");
SIM_PROBE_DEF(racing, "a lookup raced the release of the value");
SIM_PROBE_DEF(replacedStrong, "a kept entry was replaced");
SIM_PROBE_DEF(replacedWeak, "an evicted entry was replaced");
SIM_PROBE_DEF(evicted, "an entry was evicted");
SIM_PROBE_DEF(noMem, "memory ran out in an insertion");
SIM_PROBE_DEF(noMemReplace, "memory ran out in a replacement");
SIM_PROBE_DEF(cleared, "the cache was cleared");
SIM_PROBE_DEF(sameValue, "one value was cached under several keys");
SIM_PROBE_DEF(chain, "a value holding another one died");
SIM_PROBE_DEF(swept, "an insertion dropped entries whose values were gone");
SIM_PROBE_DEF(destroyed, "the cache was destroyed with entries in it");

enum { KEYS = 6, VALS = 40, HOLDERS = 3 };
char const * const names[KEYS] = { "a", "bb", "a much longer key, on the heap: 1", "a much longer key, on the heap: 2", "", "f" };

// Keys are accounted for, so that entries that are kept are seen.
int keysAlive[KEYS];
struct Key {
    std::string s;
    int at = -1;
    void up() { sim::Oracle o; for (int i = 0; i < KEYS; ++i) if (s == names[i]) at = i; ++keysAlive[at]; }
    void down() noexcept { sim::Oracle o; if (at >= 0) --keysAlive[at]; at = -1; }
    Key(char const * n) : s(n) { up(); }
    Key(Key const & k) : s(k.s) { up(); }
    Key(Key && k) noexcept : s(std::move(k.s)), at(k.at) { k.at = -1; }
    Key & operator=(Key const &) = delete;
    ~Key() noexcept { down(); }
    friend bool operator==(Key const & a, Key const & b) { return a.s == b.s; }
};
int keysOf(int k) { sim::Oracle o; return keysAlive[k]; }

// What is true of the values: how many the main thread holds, which other
// values hold them, and whether other threads may hold them.
bool dead[VALS];                            // ground truth: destructor has run
struct Val {
    int id; NObj o; std::shared_ptr<Val> child;
    explicit Val(int i) : id(i), o(i) {}
    ~Val() noexcept { if (child) SIM_HIT(chain); sim::Oracle g; SIM_CHECK(!dead[id], "double-destroy", "value %d destroyed twice", id); dead[id] = true; }
};
using Ptr = std::shared_ptr<Val>;
std::atomic<int> given[VALS];               // times handed to other threads, minus times let go

struct Entry { int val = -1; bool strong = false; };
struct Model {
    Entry e[KEYS]; int order[KEYS]; int n = 0; std::size_t limit = 1;   // order: the kept keys, most recent first
    int mine[VALS] = {}; int childOf[VALS]; int vals = 0;
    void drop(int k) { for (int i = 0; i < n; ++i) if (order[i] == k) { for (int j = i; j + 1 < n; ++j) order[j] = order[j + 1]; --n; return; } }
    void front(int k) { drop(k); for (int j = n; j > 0; --j) order[j] = order[j - 1]; order[0] = k; ++n; e[k].strong = true; }
    void evict() { while (static_cast<std::size_t>(n) > limit) { e[order[n - 1]].strong = false; --n; SIM_HIT(evicted); } }
    // 0: nobody can hold it, 1: other threads may, 2: somebody does.
    int life[VALS];
    void update() {
        for (int v = vals; v--;) {
            int l = mine[v] ? 2 : given[v].load(std::memory_order_acquire) ? 1 : 0;
            for (int k = 0; k < KEYS; ++k) if (e[k].strong && e[k].val == v) l = 2;
            for (int p = v + 1; p < vals; ++p) if (childOf[p] == v) l = std::max(l, life[p]);
            life[v] = l;
        }
    }
} md;

bool isDead(int v) { sim::Oracle o; return dead[v]; }
void verify(char const * when) {
    md.update();
    for (int v = 0; v < md.vals; ++v) {
        bool const d = isDead(v);
        if (md.life[v] == 2) SIM_CHECK(!d, "destroyed-early", "%s: value %d was destroyed although it is held", when, v);
        if (md.life[v] == 0) SIM_CHECK(d, "kept-alive", "%s: value %d is kept alive, only evicted entries refer to it", when, v);
    }
}

// Values pass to the other threads through these.
struct Holder { std::mutex m; Ptr slot[2]; bool stop = false; } holders[HOLDERS];
void holderMain(int h, u32 pace) {
    Ptr have; Ptr more;
    for (;;) {
        bool stop;
        { std::lock_guard<std::mutex> g(holders[h].m); stop = holders[h].stop; u32 const i = sim::choose(2); if (holders[h].slot[i]) { if (!have) have = std::move(holders[h].slot[i]); else if (!more) more = std::move(holders[h].slot[i]); } }
        for (Ptr * p : { &have, &more }) if (*p) {
            int const id = (*p)->id;
            SIM_CHECK((*p)->o.value() == id, "destroyed-early", "value %d is damaged", id);
            if (stop || sim::flip()) {
                if (sim::flip()) { Ptr copy(*p); dawdle(sim::choose(2)); }
                p->reset();
                given[id].fetch_sub(1, std::memory_order_release);
            }
        }
        if (stop) {
            std::lock_guard<std::mutex> g(holders[h].m);
            for (Ptr & p : holders[h].slot) if (p) { int const id = p->id; p.reset(); given[id].fetch_sub(1, std::memory_order_release); }
            return;
        }
        dawdle(1 + sim::choose(pace));
    }
}
} // namespace
namespace std { template <> struct hash<Key> { size_t operator()(Key const & k) const { return hash<string>()(k.s); } }; }

extern "C" void sim_main() {
    sim::nontrivial();
    md.limit = 1 + sim::choose(4);
    u32 const keys = 1 + sim::choose(KEYS), nh = sim::choose(HOLDERS + 1), pace = 1 + sim::choose(12);
    Threads ts;
    for (u32 h = 0; h < nh; ++h) { ts.add([h, pace] { holderMain(static_cast<int>(h), pace); }); }
    {
        std::unique_ptr<LRU<Key, Val> > c(new LRU<Key, Val>(md.limit));
        std::vector<Ptr> mine; mine.reserve(64);
        auto const let = [&](std::size_t i) { std::swap(mine[i], mine.back()); --md.mine[mine.back()->id]; mine.pop_back(); };
        for (u32 s = 1 + sim::choose(30); s--;) {
            int const k = static_cast<int>(sim::choose(keys));
            switch (sim::choose(11)) {
            case 0: case 1: case 2: { // insert
                Ptr p;
                if (!mine.empty() && sim::chance(1, 3)) p = mine[sim::choose(static_cast<u32>(mine.size()))];
                else {
                    if (md.vals == VALS) break;
                    int const v = md.vals++; md.childOf[v] = -1;
                    if (sim::flip()) p = std::make_shared<Val>(v); else p.reset(new Val(v));
                    if (!mine.empty() && sim::chance(1, 4)) { p->child = mine[sim::choose(static_cast<u32>(mine.size()))]; md.childOf[v] = p->child->id; }
                    if (mine.size() < 40 && sim::flip()) { mine.push_back(p); ++md.mine[v]; }
                }
                int const v = p->id; bool ok = false; u64 const before = sim::allocFaultsFired();
                for (int j = 0; j < KEYS; ++j) if (md.e[j].strong && md.e[j].val == v && j != k) SIM_HIT(sameValue);
                md.update();
                bool stale[KEYS]; for (int j = 0; j < KEYS; ++j) stale[j] = j != k && md.e[j].val >= 0 && md.life[md.e[j].val] == 0;
                try { sim::AllocFaults f; if (sim::flip()) c->insert(names[k], std::move(p)); else { Key const key(names[k]); c->insert(key, p); } ok = true; }
                catch (std::bad_alloc const &) { SIM_HIT(noMem); if (md.e[k].val >= 0) SIM_HIT(noMemReplace); SIM_CHECK(sim::allocFaultsFired() > before, "error-kind", "bad_alloc without a failed allocation"); }
                p.reset();
                if (ok) {
                    if (md.e[k].val >= 0) { if (md.e[k].strong) SIM_HIT(replacedStrong); else SIM_HIT(replacedWeak); }
                    md.e[k].val = v; md.front(k); md.evict();
                    for (int j = 0; j < KEYS; ++j) if (stale[j]) { SIM_HIT(swept); md.e[j].val = -1; SIM_CHECK(!keysOf(j), "not-forgotten", "an insertion left the entry of key %d, whose value is gone", j); }
                } else if (md.e[k].val < 0) SIM_CHECK(!keysOf(k), "leak", "a failed insertion left something of key %d", k);
                for (int j = 0; j < KEYS; ++j) if (md.e[j].val < 0) SIM_CHECK(!keysOf(j), "leak", "key %d is not cached, something of it is left", j);
                verify(ok ? "after an insertion" : "after a failed insertion");
                break; }
            case 3: case 4: case 5: { // look up
                md.update();
                int const v = md.e[k].val; int const before = v < 0 ? 0 : md.life[v]; bool const d = v >= 0 && isDead(v);
                Ptr p;
                if (sim::flip()) p = c->get(names[k]); else { Key const key(names[k]); p = c->get(key); }
                if (v < 0) { SIM_HIT(missing); SIM_CHECK(!p, "wrong-value", "key %d is not cached, value %d was found", k, p->id); break; }
                if (md.e[k].strong) SIM_HIT(hit); else if (p) SIM_HIT(revived); else SIM_HIT(gone);
                if (before == 1) SIM_HIT(racing);
                if (before == 2) SIM_CHECK(p, md.e[k].strong ? "recent-lost" : "held-lost", "key %d was not found, its value %d is alive (%s)", k, v, md.e[k].strong ? "among the most recent" : "evicted");
                if (d || before == 0) SIM_CHECK(!p, "wrong-value", "key %d was found with value %d although it is gone", k, p->id);
                if (p) {
                    SIM_CHECK(p->id == v && p->o.value() == v, "wrong-value", "key %d gave value %d, the last one inserted is %d", k, p->id, v);
                    md.front(k); md.evict();
                    if (mine.size() < 40 && sim::flip()) { ++md.mine[v]; mine.push_back(std::move(p)); }
                    p.reset();
                } else md.e[k].val = -1;
                verify("after a lookup");
                break; }
            case 6: if (!mine.empty()) { let(sim::choose(static_cast<u32>(mine.size()))); verify("after a release"); } break;
            case 7: case 9: case 10: if (nh && !mine.empty()) { // hand a value to another thread
                std::size_t const i = sim::choose(static_cast<u32>(mine.size())); Holder & h = holders[sim::choose(nh)];
                Ptr p(mine[i]); bool put = false;
                given[p->id].fetch_add(1, std::memory_order_relaxed);
                { std::lock_guard<std::mutex> g(h.m); for (Ptr & q : h.slot) if (!q) { q = p; put = true; break; } }
                if (!put) given[p->id].fetch_sub(1, std::memory_order_relaxed);
                p.reset();
                if (put && sim::choose(4)) let(i);
                break; }
                break;
            default:
                if (sim::chance(1, 4)) { SIM_HIT(cleared); c->clear(); for (Entry & e : md.e) e = Entry(); md.n = 0; verify("after clearing"); for (int j = 0; j < KEYS; ++j) SIM_CHECK(!keysOf(j), "leak", "key %d is left after clearing", j); }
                else dawdle(sim::choose(8));
            }
        }
        if (md.n) SIM_HIT(destroyed);
        bool const first = sim::flip();
        if (first) { while (!mine.empty()) let(mine.size() - 1); verify("after letting everything go"); }
        c.reset(); for (Entry & e : md.e) e = Entry(); md.n = 0;
        verify("after the cache was destroyed");
        while (!mine.empty()) let(mine.size() - 1);
    }
    for (u32 h = 0; h < nh; ++h) { std::lock_guard<std::mutex> g(holders[h].m); holders[h].stop = true; }
    ts.join();
    verify("in the end");
    SIM_CHECK(NObj::live == 0, "leak", "%d values were never destroyed", NObj::live);
}
