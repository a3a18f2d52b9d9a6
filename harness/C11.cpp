// C11: strand tasks never overlap, run in order and exactly once.
#include "common.h"
#include <sharemind/ThreadPool.h>
#include <sharemind/SimpleThreadPool.h>
#include <sharemind/ParticipatoryThreadPool.h>
#include <sharemind/Strand.h>
extern "C" char const * const sim_property = "C11";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(fromOwn, "a task was submitted to its strand by one of its tasks");
SIM_PROBE_DEF(fromOther, "a task was submitted to another strand by a task");
SIM_PROBE_DEF(resubmitted, "a task resubmitted itself");
SIM_PROBE_DEF(crossWait, "a strand task waited for a task of another strand");
SIM_PROBE_DEF(one, "a single worker");
SIM_PROBE_DEF(whileRunning, "submitted while the strand was running a task");
SIM_PROBE_DEF(idleAgain, "submitted after the strand had become idle");
SIM_PROBE_DEF(interleaved, "two strands ran tasks at the same time");

struct Sub { u64 start = 0, end = 0; bool started = false, done = false; };
struct S {
    std::unique_ptr<Strand> strand;
    std::vector<Sub> * subs = nullptr; // host
    int inside = -1, lastTid = -1;
    long plain = 0;                    // protected by the strand alone
    std::vector<int> log;              // as above, on the simulated heap
};
S * strands; u32 nstrands; u32 workers;
std::mutex * mtx; std::condition_variable * cnd; u32 outstanding;
ThreadPool * pool;
int activeStrands;

int newSub(u32 s) {
    { std::lock_guard<std::mutex> g(*mtx); ++outstanding; }
    sim::Oracle o;
    S & st = strands[s];
    bool idle = !st.subs->empty();
    for (auto & x : *st.subs) idle = idle && x.done;
    if (idle) SIM_HIT(idleAgain);
    if (st.inside >= 0) SIM_HIT(whileRunning);
    st.subs->emplace_back(); st.subs->back().start = sim::step();
    return static_cast<int>(st.subs->size()) - 1;
}
void submitted(u32 s, int i) { sim::Oracle o; (*strands[s].subs)[i].end = sim::step(); }
void begin(u32 s, int i) {
    S & st = strands[s];
    {
        sim::Oracle o;
        Sub & b = (*st.subs)[i];
        SIM_CHECK(!b.started, "ran-twice", "strand %u: submission %d ran twice", s, i);
        SIM_CHECK(st.inside < 0, "overlap", "strand %u: submission %d starts while %d is running", s, i, st.inside);
        st.inside = i; b.started = true; st.lastTid = sim::tid();
        if (++activeStrands > 1) SIM_HIT(interleaved);
        for (size_t k = 0; k < st.subs->size(); ++k) {
            Sub & a = (*st.subs)[k];
            SIM_CHECK(!(a.end && a.end < b.start && !a.started), "order", "strand %u: submission %d starts before submission %zu, submitted earlier", s, i, k);
        }
        sim::note("strand %u: submission %d starts", s, i);
    }
    // No synchronisation of its own: the strand must order these.
    st.log.push_back(i);
    ++st.plain;
}
void end(u32 s, int i) {
    S & st = strands[s];
    SIM_CHECK(st.plain == static_cast<long>(st.log.size()) && st.log.back() == i, "not-visible", "strand %u: state of the strand damaged", s);
    {
        sim::Oracle o;
        SIM_CHECK(st.inside == i, "overlap", "strand %u: submission %d ends while %d is running", s, i, st.inside);
        st.inside = -1; --activeStrands; (*st.subs)[i].done = true;
    }
    std::lock_guard<std::mutex> g(*mtx);
    if (!--outstanding) cnd->notify_all();
}
void submitOne(u32 s, u32 depth);
void simple(u32 s, u32 depth, u32 work, u32 children) {
    int const i = newSub(s);
    int * const data = new int(500 + i);
    strands[s].strand->submit(ThreadPool::createSimpleTask([=, payload = NObj(i)] {
        begin(s, i);
        SIM_CHECK(payload.value() == i && *data == 500 + i, "not-visible", "submission %d sees other data", i);
        delete data;
        dawdle(work);
        for (u32 k = 0; k < children; ++k) {
            u32 const to = sim::choose(nstrands);
            if (to == s) SIM_HIT(fromOwn); else SIM_HIT(fromOther);
            submitOne(to, depth - 1);
        }
        end(s, i);
    }));
    submitted(s, i);
}
struct Again {
    u32 s; int i; u32 left; u32 work; NObj o;
    void operator()(ThreadPool::Task && self) {
        SIM_CHECK(self && o.value() == 7, "no-self", "a task was not given itself");
        u32 const str = s; int const cur = i;
        begin(str, cur);
        dawdle(work);
        if (left) {
            SIM_HIT(resubmitted);
            --left; int const n = i = newSub(str);
            // Still running: the strand must not run it before this call ends.
            strands[str].strand->submit(std::move(self)); submitted(str, n);
        }
        end(str, cur);
    }
};
void submitOne(u32 s, u32 depth) {
    u32 const work = sim::choose(8);
    if (sim::choose(5) == 4) {
        u32 const n = 1 + sim::choose(3);
        int const i = newSub(s);
        strands[s].strand->submit(ThreadPool::createTask(Again{s, i, n, work, NObj(7)})); submitted(s, i);
    } else
        simple(s, depth, work, depth && sim::chance(1, 3) ? 1 + sim::choose(2) : 0);
}
// A task of one strand waits for a task of another: needs a second worker.
void crossing(u32 a, u32 b) {
    struct W { std::mutex m; std::condition_variable c; bool go = false; };
    auto w(std::make_shared<W>());
    int const i = newSub(a);
    strands[a].strand->submit(ThreadPool::createSimpleTask([=] { begin(a, i); SIM_HIT(crossWait); { std::unique_lock<std::mutex> l(w->m); while (!w->go) w->c.wait(l); } end(a, i); }));
    submitted(a, i);
    dawdle(sim::choose(10));
    int const j = newSub(b);
    strands[b].strand->submit(ThreadPool::createSimpleTask([=] { begin(b, j); { std::lock_guard<std::mutex> g(w->m); w->go = true; w->c.notify_all(); } end(b, j); }));
    submitted(b, j);
}
void submitter(u32 n) {
    for (u32 k = 0; k < n; ++k) {
        if (sim::flip()) dawdle(sim::choose(14));
        submitOne(sim::choose(nstrands), 1);
    }
}
void drive(std::shared_ptr<ThreadPool> const & p) {
    pool = p.get();
    for (u32 s = 0; s < nstrands; ++s) strands[s].strand.reset(new Strand(p));
    u32 const ns = 1 + sim::choose(3);
    Threads ts;
    bool const cross = workers > 1 && nstrands > 1 && sim::flip();
    if (cross) crossing(0, 1);
    for (u32 i = 1; i < ns; ++i) { u32 const n = 1 + sim::choose(4); ts.add([n] { submitter(n); }); }
    submitter(1 + sim::choose(4));
    if (sim::flip()) { // the strand becomes idle and must start again
        std::unique_lock<std::mutex> l(*mtx); while (outstanding) cnd->wait(l); l.unlock();
        if (cross && sim::flip()) crossing(1, 0);
        submitter(1 + sim::choose(3));
    }
    ts.join();
    { std::unique_lock<std::mutex> l(*mtx); while (outstanding) cnd->wait(l); }
    for (u32 s = 0; s < nstrands; ++s) strands[s].strand.reset();
    for (u32 s = 0; s < nstrands; ++s) {
        sim::Oracle o;
        for (size_t i = 0; i < strands[s].subs->size(); ++i) SIM_CHECK((*strands[s].subs)[i].done, "lost-task", "strand %u: submission %zu never ran", s, i);
        SIM_CHECK(strands[s].log.size() == strands[s].subs->size(), "count", "strand %u: %zu runs of %zu submissions", s, strands[s].log.size(), strands[s].subs->size());
    }
}
} // namespace

extern "C" void sim_main() {
    sim::nontrivial();
    std::mutex m; std::condition_variable c; mtx = &m; cnd = &c;
    S strs[3]; strands = strs;
    nstrands = 1 + sim::choose(3);
    { sim::Oracle o; for (auto & s : strs) { s.subs = new std::vector<Sub>; s.subs->reserve(96); } }
    workers = 1 + sim::choose(3);
    if (workers == 1) SIM_HIT(one);
    if (sim::flip()) {
        auto p(std::make_shared<SimpleThreadPool>(workers));
        drive(p);
    } else {
        auto p(std::make_shared<ParticipatoryThreadPool>());
        Threads ts;
        for (u32 i = 0; i < workers; ++i) {
            u32 const kind = sim::choose(2);
            ParticipatoryThreadPool * const q = p.get();
            ts.add([q, kind] { if (kind) { while (q->participateOnce()) {} } else q->participate(); });
        }
        drive(p);
        p->notifyStop();
        ts.join();
    }
    SIM_CHECK(NObj::live == 0, "leak", "%d task payloads alive", NObj::live);
    sim::Oracle o; for (auto & s : strs) delete s.subs;
}
