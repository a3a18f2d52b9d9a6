// C08: a thread pool runs every submitted task exactly once, in FIFO order.
#include "common.h"
#include <sharemind/ThreadPool.h>
#include <sharemind/SimpleThreadPool.h>
#include <sharemind/ParticipatoryThreadPool.h>
extern "C" char const * const sim_property = "C08";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(resubmitted, "a task resubmitted itself");
SIM_PROBE_DEF(reusable, "a reusable task was submitted again");
SIM_PROBE_DEF(fromTask, "a task was submitted by another task");
SIM_PROBE_DEF(blocker, "a task waited for a later task on another worker");
SIM_PROBE_DEF(one, "a single serving thread");
SIM_PROBE_DEF(many, "more than eight tasks pending");
SIM_PROBE_DEF(overtook, "a popped task started after a later one");
SIM_PROBE_DEF(idle, "submitted while a serving thread was idle");

struct Sub { u64 start = 0, end = 0; bool started = false, done = false; };
std::vector<Sub> * subs;
u32 workers;
std::mutex * mtx; std::condition_variable * cnd; u32 outstanding; // under *mtx
ThreadPool * pool;
int lastSingle = -1;

int newSub() {
    { std::lock_guard<std::mutex> g(*mtx); ++outstanding; }
    sim::Oracle o;
    subs->emplace_back(); subs->back().start = sim::step();
    return static_cast<int>(subs->size()) - 1;
}
void submitted(int i) {
    sim::Oracle o; (*subs)[i].end = sim::step();
    u32 p = 0; for (auto & s : *subs) p += !s.started;
    if (p > 8) SIM_HIT(many);
}
void begin(int i) {
    sim::Oracle o;
    Sub & b = (*subs)[i];
    SIM_CHECK(!b.started, "ran-twice", "submission %d was started twice", i);
    b.started = true;
    sim::note("submission %d starts", i);
    u32 waiting = 0;
    for (auto & a : *subs) waiting += a.end && a.end < b.start && !a.started;
    // Every other serving thread may hold one task it popped but has not entered yet.
    SIM_CHECK(waiting < workers, "order", "submission %d started although %u earlier ones had not, with %u serving threads", i, waiting, workers);
    if (waiting) SIM_HIT(overtook);
}
void end(int i) {
    { sim::Oracle o; SIM_CHECK(!(*subs)[i].done, "ran-twice", "submission %d ended twice", i); (*subs)[i].done = true; }
    std::lock_guard<std::mutex> g(*mtx);
    if (!--outstanding) cnd->notify_all();
}

struct Shared { int v = 0; bool busy = false; };
struct Enter { // no task object is executed twice at the same time
    Shared & s;
    explicit Enter(Shared & x) : s(x) { sim::Oracle o; SIM_CHECK(!s.busy, "overlap", "one task object executed by two threads at once"); s.busy = true; }
    ~Enter() { sim::Oracle o; s.busy = false; }
};

void submitOne(u32 depth);

void simple(u32 depth, u32 work, u32 children) {
    int const i = newSub();
    Obj payload(i);
    int * const data = new int(1000 + i); // plain: must be visible to the task
    auto f = [i, depth, work, children, data, payload] {
        begin(i);
        SIM_CHECK(payload.value() == i && *data == 1000 + i, "not-visible", "the task of submission %d sees other data", i);
        delete data;
        dawdle(work);
        for (u32 k = 0; k < children; ++k) { SIM_HIT(fromTask); submitOne(depth - 1); }
        end(i);
    };
    auto t(ThreadPool::createSimpleTask(std::move(f)));
    pool->submit(std::move(t));
    submitted(i);
}
// A task that puts itself back n times.
struct Again {
    std::shared_ptr<Shared> s; u32 left; u32 work; int i; bool early;
    void operator()(ThreadPool::Task && self) {
        SIM_CHECK(self, "no-self", "a task was not given itself");
        int const cur = i;
        {
            Enter e(*s);
            begin(cur);
            ++s->v;
            dawdle(work);
        }
        if (left) {
            SIM_HIT(resubmitted);
            --left; int const n = i = newSub();
            pool->submit(std::move(self)); // from here on another thread may run it
            submitted(n);
        }
        end(cur);
    }
};
void resubmitting(u32 n, u32 work) {
    int const i = newSub();
    auto t(ThreadPool::createTask(Again{std::make_shared<Shared>(), n, work, i, false}));
    pool->submit(std::move(t)); submitted(i);
}
struct Reuse {
    Shared s; int i = 0; u32 left; u32 work; Obj o{3};
    std::unique_ptr<ThreadPool::ReusableTask> t;
    void run() {
        int const cur = i;
        { Enter e(s); begin(cur); SIM_CHECK(o.value() == 3, "callable", "damaged"); ++s.v; dawdle(work); }
        if (left) { SIM_HIT(reusable); --left; int const n = i = newSub(); pool->submit(std::move(*t)); submitted(n); }
        end(cur);
    }
};
std::vector<std::unique_ptr<Reuse>> * reuses;
void reusableTask(u32 n, u32 work) {
    auto r(std::make_unique<Reuse>()); r->left = n; r->work = work;
    Reuse * const p = r.get();
    r->t = std::make_unique<ThreadPool::ReusableTask>([p] { p->run(); });
    int const i = p->i = newSub();
    { std::lock_guard<std::mutex> g(*mtx); reuses->push_back(std::move(r)); }
    pool->submit(std::move(*p->t)); submitted(i);
}
// A task that waits until a task submitted after it has run: it needs a second worker.
void blocking() {
    struct S { std::mutex m; std::condition_variable c; bool go = false; };
    auto s(std::make_shared<S>());
    int const i = newSub();
    pool->submit(ThreadPool::createSimpleTask([s, i] { begin(i); SIM_HIT(blocker); { std::unique_lock<std::mutex> l(s->m); while (!s->go) s->c.wait(l); } end(i); }));
    submitted(i);
    dawdle(sim::choose(10));
    int const j = newSub();
    pool->submit(ThreadPool::createSimpleTask([s, j] { begin(j); { std::lock_guard<std::mutex> g(s->m); s->go = true; s->c.notify_all(); } end(j); }));
    submitted(j);
}
void submitOne(u32 depth) {
    u32 const work = sim::choose(8);
    switch (sim::choose(6)) {
    case 3: resubmitting(1 + sim::choose(3), work); break;
    case 4: reusableTask(sim::choose(3), work); break;
    default: simple(depth, work, depth && sim::chance(1, 3) ? 1 + sim::choose(2) : 0); break;
    }
}
bool mayBlock;
void submitter(u32 n) {
    for (u32 k = 0; k < n; ++k) {
        if (sim::flip()) dawdle(sim::choose(14));
        submitOne(1);
    }
}
void drive() {
    u32 const ns = 1 + sim::choose(3);
    Threads ts;
    // At most workers - 1 blocking tasks at a time.
    if (mayBlock) blocking();
    for (u32 i = 1; i < ns; ++i) { u32 const n = 1 + sim::choose(4); ts.add([n] { submitter(n); }); }
    submitter(1 + sim::choose(4));
    if (mayBlock && sim::flip()) { std::unique_lock<std::mutex> l(*mtx); while (outstanding) cnd->wait(l); l.unlock(); SIM_HIT(idle); blocking(); }
    ts.join();
    std::unique_lock<std::mutex> l(*mtx); while (outstanding) cnd->wait(l);
}
} // namespace

extern "C" void sim_main() {
    sim::nontrivial();
    { sim::Oracle o; subs = new std::vector<Sub>; subs->reserve(128); }
    std::mutex m; std::condition_variable c; mtx = &m; cnd = &c;
    std::vector<std::unique_ptr<Reuse>> rs; reuses = &rs;
    workers = 1 + sim::choose(3);
    mayBlock = workers > 1 && sim::flip();
    if (workers == 1) SIM_HIT(one);
    if (sim::flip()) {
        SimpleThreadPool p(workers);
        pool = &p;
        drive();
        if (sim::flip()) p.stopAndJoin();
    } else {
        ParticipatoryThreadPool p;
        pool = &p;
        Threads ts;
        for (u32 i = 0; i < workers; ++i) ts.add([&p] { p.participate(); });
        drive();
        p.notifyStop();
        ts.join();
    }
    for (size_t i = 0; i < subs->size(); ++i) SIM_CHECK((*subs)[i].done, "lost-task", "submission %d never ran", (int) i);
    rs.clear();
    SIM_CHECK(Obj::live == 0, "leak", "%d task payloads alive", Obj::live);
    sim::Oracle o; delete subs;
}
