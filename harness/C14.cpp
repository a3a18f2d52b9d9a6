// C14: the MPSC queue delivers every node once, in order, to a single consumer.
#include "common.h"
#include <sharemind/MpscWaitFreeSemiIntrusiveQueue.h>
extern "C" char const * const sim_property = "C14";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(empty, "a pop found nothing");
SIM_PROBE_DEF(inProgress, "a pop found nothing while a push was in progress");
SIM_PROBE_DEF(reuse, "a popped node was pushed again");
SIM_PROBE_DEF(left, "items were left at destruction");
SIM_PROBE_DEF(own, "the consumer pushed");
SIM_PROBE_DEF(after, "popped after the producers had finished");
SIM_PROBE_DEF(nodeFailed, "allocating a node failed");
SIM_PROBE_DEF(queueFailed, "constructing the queue failed");
SIM_PROBE_DEF(many, "two or more producers");

struct Item {
    static int live;
    int producer = -1, seq = -1;
    int * p;                                    // plain memory written by the producer
    Item() : p(nullptr) { sim::Oracle o; ++live; }
    Item(int a, int b) : producer(a), seq(b), p(new int(a * 1000 + b)) { sim::Oracle o; ++live; }
    Item(Item && m) noexcept : producer(m.producer), seq(m.seq), p(m.p) { m.p = nullptr; sim::Oracle o; ++live; }
    Item & operator=(Item && m) noexcept { if (this != &m) { delete p; p = m.p; m.p = nullptr; producer = m.producer; seq = m.seq; m.producer = m.seq = -2; } return *this; }
    ~Item() { delete p; p = reinterpret_cast<int *>(8); sim::Oracle o; --live; }
};
int Item::live = 0;
using Q = MpscWaitFreeSemiIntrusiveQueue<Item>;
using NodePtr = std::unique_ptr<Q::Node>;

u64 begun, completed, popped;        // oracle
int nextOf[5]; int pushedOf[5];      // oracle / per producer
bool strict;                         // no stale loads in this run

struct Recycle { std::mutex m; std::vector<NodePtr> v; };

void push(Q & q, int producer, Recycle & r) {
    int const seq = pushedOf[producer]; // only this producer writes it
    NodePtr n;
    if (sim::flip()) { std::lock_guard<std::mutex> g(r.m); if (!r.v.empty()) { n = std::move(r.v.back()); r.v.pop_back(); SIM_HIT(reuse); } }
    if (n) n->data = Item(producer, seq);
    else {
        try { sim::AllocFaults f; n.reset(new Q::Node(producer, seq)); }
        catch (std::bad_alloc const &) { SIM_HIT(nodeFailed); return; }
    }
    ++pushedOf[producer];
    { sim::Oracle o; ++begun; }
    q.push(std::move(n));
    sim::Oracle o; ++completed;
}
// Returns false when the queue said it was empty.
bool popOne(Q & q, Recycle & r, bool quiescent) {
    u64 before; { sim::Oracle o; before = completed; }
    bool const askFirst = sim::chance(1, 3); bool saidEmpty = false;
    if (askFirst) saidEmpty = q.empty();
    NodePtr n(q.pop());
    u64 begunNow; { sim::Oracle o; begunNow = begun; }
    if (askFirst && !saidEmpty) SIM_CHECK(n, "empty", "empty() was false but pop() returned nothing");
    if (askFirst && saidEmpty && (strict || quiescent))
        SIM_CHECK(popped == before || begunNow != before, "lost", "empty() with %llu pushed and %llu popped", (unsigned long long) before, (unsigned long long) popped);
    if (!n) {
        SIM_HIT(empty);
        // Either it is empty or a push was in progress.
        if (begunNow != before) SIM_HIT(inProgress);
        else if (strict || quiescent) SIM_CHECK(popped == before, "lost", "pop() returned nothing with %llu pushed, none in progress and %llu popped", (unsigned long long) before, (unsigned long long) popped);
        return false;
    }
    Item & d = n->data;
    SIM_CHECK(d.producer >= 0 && d.producer < 5 && d.p, "content", "popped an item that was never pushed (%d %d)", d.producer, d.seq);
    SIM_CHECK(*d.p == d.producer * 1000 + d.seq, "content", "item %d/%d has content %d", d.producer, d.seq, *d.p);
    SIM_CHECK(d.seq == nextOf[d.producer], "order", "producer %d: item %d popped instead of %d", d.producer, d.seq, nextOf[d.producer]);
    ++nextOf[d.producer];
    { sim::Oracle o; ++popped; SIM_CHECK(popped <= begun, "duplicated", "more popped than pushed"); }
    if (sim::flip()) { std::lock_guard<std::mutex> g(r.m); r.v.push_back(std::move(n)); }
    return true;
}
} // namespace

extern "C" void sim_setup() { strict = sim::flip(); if (strict) sim::config.staleReads = false; }
extern "C" void sim_main() {
    sim::nontrivial();
    {
        Recycle r;
        std::unique_ptr<Q> q;
        try { sim::AllocFaults f; q.reset(new Q); }
        catch (std::bad_alloc const &) { SIM_HIT(queueFailed); return; }
        u32 const np = 1 + sim::choose(4), per = 1 + sim::choose(6);
        if (np > 1) SIM_HIT(many);
        Threads ts;
        for (u32 i = 0; i < np; ++i)
            ts.add([&, i] { for (u32 k = 0; k < per; ++k) { dawdle(sim::choose(10)); push(*q, static_cast<int>(i), r); } });
        u32 const tries = sim::choose(40); bool const consumeAll = sim::flip();
        auto consumer = [&] {
            for (u32 k = 0; k < tries; ++k) {
                if (sim::chance(1, 5)) { SIM_HIT(own); push(*q, 4, r); }
                popOne(*q, r, false);
                dawdle(sim::choose(4));
            }
        };
        if (sim::flip()) consumer();
        else { std::thread c(consumer); c.join(); } // the role of the consumer may move
        ts.join();
        if (consumeAll) {
            SIM_HIT(after);
            while (popOne(*q, r, true)) {}
            SIM_CHECK(q->empty(), "empty", "not empty after the last item");
            SIM_CHECK(popped == completed, "lost", "%llu popped of %llu", (unsigned long long) popped, (unsigned long long) completed);
            for (u32 k = sim::choose(3); k--;) { push(*q, 4, r); SIM_CHECK(popOne(*q, r, true) || completed == popped, "lost", "own item not found"); }
        } else if (popped != completed) SIM_HIT(left);
        q.reset();
    }
    SIM_CHECK(Item::live == 0, "leak", "%d items alive", Item::live);
}
