// The deterministic runtime: scheduler, memory model, race and lifetime
// detector, allocator, threads, mutexes, condition variables and clocks.
// Compiled WITHOUT -fsanitize=thread; harnesses are compiled WITH it and call
// the __tsan_* functions defined here.
#include "rt.h"
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <initializer_list>
#include <list>
#include <map>
#include <linux/futex.h>
#include <new>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <unistd.h>

namespace std { static void * realRbInc(); static void * realRbDec(); static void * realRbIns(); static void * realRbDel(); }

extern "C" {
void * __libc_malloc(size_t);
void * __libc_calloc(size_t, size_t);
void * __libc_realloc(void *, size_t);
void * __libc_memalign(size_t, size_t);
void __libc_free(void *);
void * __real_memcpy(void *, void const *, size_t);
void * __real_memmove(void *, void const *, size_t);
void * __real_memset(void *, int, size_t);
int __real_memcmp(void const *, void const *, size_t);
void * __real_memchr(void const *, int, size_t);
size_t __real_strlen(char const *);
int __real_strcmp(char const *, char const *);
}

namespace sim {
Config config;
namespace rt {

char const * const faultNames[NFAULT] = {
    "spurious_wakeup", "notify_arbitrary_waiter", "late_timer", "slow_execution_leap",
    "stale_atomic_load", "spurious_weak_cas_failure", "allocation_failure",
    "thread_creation_failure", "transient_syscall_error", "permanent_syscall_error",
    "short_io", "user_code_throws", "system_clock_jump", "partial_event_batch",
    "clock_read_failure" };

__thread Thread * self __attribute__((tls_model("initial-exec")));
__thread int t_rt __attribute__((tls_model("initial-exec")));

Result * R;
static Input IN;
u64 g_now, g_step;
std::int64_t g_rtOffset;
bool g_calm;
static Thread g_thr[MAXT];
static int g_nthr;
static u64 g_epoch;        // bumped on every visible change of shared state
static u64 g_quantum;
static bool g_faultRun;
static bool g_leapsOn, g_staleOn, g_spurOn, g_lateOn, g_allocOn, g_eintrOn, g_shortOn, g_weakOn, g_eioOn, g_throwOn, g_thrOn;
static u64 g_rng[2];
static u32 g_pos[NSTREAM];
static Sync g_sc;
static u32 g_sliceLeft;
static u64 g_idleTicks, g_idleLimit = 3000000;
static u32 g_livelock; static int g_lastSpun;
static bool g_running;
static u64 g_allocFired, g_thrFired, g_sysFired;
static bool g_leakCheck = true;

// ---- strategies (generation only) -----------------------------------------
static int g_strat;
static u32 g_switchP;      // /1024
static u32 g_rateScale;
static u64 g_changeAt[8]; static int g_nChange;
static u32 g_lowPrio;

static u64 rng() {
    u64 s1 = g_rng[0]; u64 const s0 = g_rng[1]; u64 const r = s0 + s1;
    g_rng[0] = s0; s1 ^= s1 << 23;
    g_rng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return r;
}
static u64 splitmix(u64 & x) {
    u64 z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static u32 rnd(u32 n) { return static_cast<u32>(rng() % n); }

// ---- memory for the runtime --------------------------------------------------
static char * const RTMEM = reinterpret_cast<char *>(0x20000000000ull);
static std::size_t const RTMEM_SIZE = 1ull << 30;
static std::size_t g_rtUsed;
void * rtAlloc(std::size_t n) {
    n = (n + 15) & ~std::size_t(15);
    void * p = RTMEM + g_rtUsed;
    g_rtUsed += n;
    if (g_rtUsed > RTMEM_SIZE) { const char m[] = "rt memory exhausted\n"; ssize_t r = ::syscall(SYS_write, 2, m, sizeof m - 1); (void) r; ::syscall(SYS_exit_group, 97); }
    return p; // zeroed by mmap; each run is a fresh fork
}

// ---- trace/hash ----------------------------------------------------------------
void hashIn(u64 v) {
    u64 h = R->hash;
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 29;
    R->hash = h;
}
void tracef(char const * fmt, ...) {
    if (!IN.trace) return;
    RtGuard g;
    if (R->traceLen + 400 > sizeof(R->trace)) return;
    va_list ap; va_start(ap, fmt);
    int n = snprintf(R->trace + R->traceLen, 64, "[%6llu t%d %lluns] ", (unsigned long long) g_step, self ? self->id : -1, (unsigned long long) g_now);
    R->traceLen += n;
    n = vsnprintf(R->trace + R->traceLen, 300, fmt, ap);
    va_end(ap);
    if (n > 299) n = 299;
    R->traceLen += n;
    R->trace[R->traceLen++] = '\n';
    R->trace[R->traceLen] = 0;
}

static void appendStack(Thread * t, char * buf, std::size_t cap) {
    std::size_t n = strlen(buf);
    n += snprintf(buf + n, cap - n, "  stack t%d:", t->id);
    u32 d = t->depth < 512 ? t->depth : 512;
    for (u32 i = d; i-- > 0 && d - i <= 24 && n + 24 < cap;)
        n += snprintf(buf + n, cap - n, " %p", t->stack[i]);
    if (n + 2 < cap) { buf[n++] = '\n'; buf[n] = 0; }
}
static char const * wkName(WaitKind k) {
    static char const * const n[] = { "none", "mutex", "condition variable", "join", "sleep", "epoll_wait", "static guard", "rwlock" };
    return n[k];
}

[[noreturn]] static void finish(int status, char const * cls, char const * msg) {
    ++t_rt;
    R->status = status;
    snprintf(R->cls, sizeof R->cls, "%s", cls);
    snprintf(R->msg, sizeof R->msg, "%s\n", msg);
    if (status != ST_OK) {
        if (self) appendStack(self, R->msg, sizeof R->msg);
        for (int i = 0; i < g_nthr; ++i) {
            Thread * t = &g_thr[i];
            std::size_t n = strlen(R->msg);
            if (n + 300 < sizeof R->msg)
                snprintf(R->msg + n, sizeof R->msg - n, "  thread %d: %s%s%s obj=%p\n", i,
                         t->st == Thread::RUNNABLE ? "runnable" : t->st == Thread::BLOCKED ? "blocked on " : "finished",
                         t->st == Thread::BLOCKED ? wkName(t->wk) : "",
                         t->timed && t->st == Thread::BLOCKED ? " (timed)" : "", t->wobj);
            if (t != self && t->st == Thread::BLOCKED)
                appendStack(t, R->msg, sizeof R->msg);
        }
    }
    R->steps = g_step;
    R->simNs = g_now;
    for (int i = 0; i < NSTREAM; ++i) R->len[i] = g_pos[i];
    __sync_synchronize();
    ::syscall(SYS_exit_group, 42);
    __builtin_unreachable();
}

} // namespace rt

void fail(char const * cls, char const * fmt, ...) {
    ++rt::t_rt;
    char b[4096];
    va_list ap; va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    rt::finish(rt::ST_VIOLATION, cls, b);
}

namespace rt {

// ---- choices ------------------------------------------------------------------
static std::uint16_t * streamBuf(Stream s) { return s == SCHED ? R->s : s == FAULT ? R->f : R->w; }
static u32 streamCap(Stream s) { return s == SCHED ? CAP_S : s == FAULT ? CAP_F : CAP_W; }
static u32 commit(Stream s, u32 genVal, u32 n) {
    u32 v = genVal;
    u32 const i = g_pos[s];
    if (IN.replay) {
        v = i < IN.len[s] ? IN.t[s][i] : 0;
        if (v >= n) v = n - 1;
    }
    if (i >= streamCap(s)) {
        if (s == WORK) finish(ST_VIOLATION, "no-progress", "no progress: the workload goes on without end");
        return 0;
    }
    streamBuf(s)[i] = static_cast<std::uint16_t>(v);
    g_pos[s] = i + 1;
    return v;
}
u32 pick(Stream s, u32 n) {
    if (n <= 1) return 0;
    return commit(s, IN.replay ? 0 : rnd(n), n);
}
bool faultsOn() { return g_faultRun && !g_calm; }
u32 faultPick(FaultKind k, u32 n, u32 rate) {
    if (n <= 1 || !faultsOn()) return 0;
    u32 g = 0;
    if (!IN.replay) {
        u32 const r = rate * g_rateScale / 8;
        if (rnd(1024) < r) g = 1 + rnd(n - 1);
    }
    u32 const v = commit(FAULT, g, n);
    if (v) R->faults[k]++;
    return v;
}

// ---- vector clocks / views -------------------------------------------------------
static inline void joinVC(VC & a, VC const & b) { for (int i = 0; i < MAXT; ++i) if (a.c[i] < b.c[i]) a.c[i] = b.c[i]; }
static int g_nloc;
static inline void joinView(View & a, View const & b) { for (int i = 0; i < g_nloc; ++i) if (a.t[i] < b.t[i]) a.t[i] = b.t[i]; }
static inline void joinSync(Sync & a, Sync const & b) { joinVC(a.vc, b.vc); joinView(a.view, b.view); }
static inline void tick() { self->vc.c[self->id]++; }
void releaseTo(Sync & s) { joinVC(s.vc, self->vc); joinView(s.view, self->view); tick(); }
void acquireFrom(Sync const & s) { joinVC(self->vc, s.vc); joinView(self->view, s.view); }

// ---- object ids (first-touch order, stable across address layouts) ------------------
// Locality-preserving slot: few pages are touched per forked run.
static inline u32 slotOf(u64 k, u32 cap) { return static_cast<u32>(k ^ (k >> 16) * 7) & (cap - 1); }
struct IdEnt { u64 key; u64 id; };
static IdEnt * g_ids; static u32 const IDCAP = 1 << 14; static u64 g_nextId;
u64 objId(void const * p) {
    u64 const k = reinterpret_cast<u64>(p);
    u32 h = slotOf(k >> 1, IDCAP);
    for (u32 n = 0; n < IDCAP; ++n, h = (h + 1) & (IDCAP - 1)) {
        if (g_ids[h].key == k) return g_ids[h].id;
        if (!g_ids[h].key) { g_ids[h].key = k; return g_ids[h].id = ++g_nextId; }
    }
    return 0;
}

// ---- scheduler --------------------------------------------------------------------
static void futexWait(int * a) {
    while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0)
        ::syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(a, 0, __ATOMIC_RELAXED);
}
static void futexWake(int * a) {
    __atomic_store_n(a, 1, __ATOMIC_RELEASE);
    ::syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

struct Mutex { void * addr; int owner; u32 depth; Sync s; int waiters; bool dead; int readers; };
static Mutex * mutexAt(void * a);

static u64 clockOf(Thread * t) {
    return t->rtclock ? static_cast<u64>(static_cast<std::int64_t>(g_now) + g_rtOffset) : g_now;
}
static bool expired(Thread * t) {
    if (!t->timed) return false;
    u64 const c = clockOf(t);
    return c >= t->deadline && c - t->deadline >= t->late;
}
static bool ready(Thread * t) {
    if (t->st == Thread::RUNNABLE) return true;
    if (t->st == Thread::FINISHED) return false;
    switch (t->wk) {
    case W_MUTEX: case W_GUARD: case W_RW: {
        Mutex * m = static_cast<Mutex *>(t->wobj);
        if (m->owner < 0 && (t->wint == 0 || m->readers == 0)) return true; // wint: 1 = wants exclusive rwlock
        return expired(t);
    }
    case W_COND: return t->signaled || expired(t) || (t->spuriousAt && g_step >= t->spuriousAt);
    case W_JOIN: return static_cast<Thread *>(t->wobj)->st == Thread::FINISHED;
    case W_SLEEP: return expired(t);
    case W_EPOLL: return expired(t) || epollReady(t);
    default: return true;
    }
}
static inline bool spinBlocked(Thread * t) { return t->spinning && t->spinEpoch == g_epoch; }

void progress() {
    ++g_epoch;
    if (self) { self->spinCnt = 0; self->idleOps = 0; self->spinning = false; for (auto & a : self->spinAddr) a = nullptr; }
    g_livelock = 0;
}

static void enterCalm() {
    if (g_calm) return;
    g_calm = true;
    R->calmReached = 1;
    tracef("--- calm: faults stop, fair scheduling");
}

static bool advanceTime() {
    u64 best = ~0ull;
    for (int i = 0; i < g_nthr; ++i) {
        Thread * t = &g_thr[i];
        if (t->st != Thread::BLOCKED || !t->timed) continue;
        u64 const c = clockOf(t);
        u64 const d = t->deadline + t->late;
        u64 const wait = d > c ? d - c : 0;
        if (t->deadline > (1ull << 62)) continue; // effectively infinite
        if (wait < best) best = wait;
    }
    if (best == ~0ull) return false;
    g_now += best;
    return true;
}
static Thread * choosePick(Thread ** c, u32 n, bool curFirst) {
    if (n == 1) return c[0];
    if (g_calm) {
        if (curFirst && g_sliceLeft) { --g_sliceLeft; return c[0]; }
        g_sliceLeft = 40;
        return c[curFirst ? 1 : 0];
    }
    u32 g = 0;
    if (!IN.replay) {
        switch (g_strat) {
        default: // random walk
            if (curFirst && rnd(1024) >= g_switchP) g = 0; else g = rnd(n);
            break;
        case 1: // PCT
            for (int i = 0; i < g_nChange; ++i)
                if (g_changeAt[i] == g_step && curFirst) { c[0]->prio = g_lowPrio--; }
            for (u32 i = 1; i < n; ++i) if (c[i]->prio > c[g]->prio) g = i;
            break;
        case 2: // sticky with a few forced preemptions
            if (!curFirst) g = rnd(n);
            else {
                for (int i = 0; i < g_nChange; ++i) if (g_changeAt[i] == g_step) g = 1 + rnd(n - 1);
            }
            break;
        case 3: // starve one thread (lowest prio), random otherwise
            if (curFirst && rnd(1024) >= g_switchP && c[0]->prio > 1000) g = 0;
            else {
                u32 ok[MAXT], k = 0;
                for (u32 i = 0; i < n; ++i) if (c[i]->prio > 1000) ok[k++] = i;
                g = k ? ok[rnd(k)] : rnd(n);
                if (rnd(256) == 0) g = rnd(n);
            }
            break;
        }
    }
    return c[commit(SCHED, g, n)];
}
static void capCheck() {
    if (g_step >= config.softCap) {
        enterCalm();
        if (g_step >= static_cast<u64>(config.softCap) + config.hardCap)
            fail("no-progress", "no progress: run did not finish within %u fault-free fair steps", config.hardCap);
    }
}
static void switchTo(Thread * t) {
    Thread * const me = self;
    if (t == me) return;
    R->switches++;
    g_sliceLeft = 40;
    hashIn(0x5100 + t->id);
    futexWake(&t->fut);
    futexWait(&me->fut);
}
// Chooses and runs the next thread. curRunnable: the caller may continue.
static void reschedule(bool curRunnable) {
    Thread * const me = self;
    for (;;) {
        Thread * c[MAXT]; u32 n = 0; bool curFirst = false;
        Thread * sp[MAXT]; u32 ns = 0;
        if (curRunnable) { if (spinBlocked(me)) sp[ns++] = me; else { c[n++] = me; curFirst = true; } }
        for (int i = 1; i <= g_nthr; ++i) {
            Thread * t = &g_thr[(me->id + i) % g_nthr];
            if (t == me && curRunnable) continue;
            if (!ready(t)) continue;
            if (spinBlocked(t)) sp[ns++] = t; else c[n++] = t;
        }
        if (n == 0 && ns > 0) {
            if (g_livelock > 64 && advanceTime()) { ++g_step; ++g_livelock; capCheck(); if (g_livelock < 100000) { for (u32 i = 0; i < ns; ++i) sp[i]->spinning = false; continue; } }
            if (++g_livelock > 20000)
                fail("livelock", "livelock: every thread is blocked or spinning without anything left that could change what they wait for");
            // absolute round robin over the spinning threads, so that none starves
            Thread * t = sp[0];
            for (int i = 1; i <= g_nthr; ++i) {
                Thread * const x = &g_thr[(g_lastSpun + i) % g_nthr];
                bool in = false;
                for (u32 k = 0; k < ns; ++k) in = in || sp[k] == x;
                if (in) { t = x; break; }
            }
            g_lastSpun = t->id;
            t->spinning = false; t->spinCnt = 0; t->idleOps = 0;
            c[n++] = t; curFirst = (t == me);
        }
        if (n == 0) {
            ++g_step; capCheck();
            if (advanceTime()) continue;
            fail("deadlock", "deadlock: no thread can run and no timer is pending");
        }
        Thread * t = choosePick(c, n, curFirst);
        if (t != me) switchTo(t);
        return;
    }
}

static bool anyTimed() {
    for (int i = 0; i < g_nthr; ++i)
        if (g_thr[i].st == Thread::BLOCKED && g_thr[i].timed) return true;
    return false;
}
void schedPoint(int kind, u64 obj) {
    ++g_step; ++self->ownSteps;
    g_idleTicks = 0;
    g_now += g_quantum;
    hashIn(static_cast<u64>(kind) << 32 | static_cast<u64>(self->id) << 24 | obj);
    capCheck();
    if (g_leapsOn && faultsOn() && anyTimed()) {
        u32 const v = faultPick(F_LEAP, 4, 12);
        if (v == 1) { u64 const b = g_now; advanceTime(); g_now += 1; (void) b; }
        else if (v == 2) g_now += 1000000ull;
        else if (v == 3) g_now += 700000000ull;
        if (v) tracef("leap: execution was slow, now=%llu", (unsigned long long) g_now);
    }
    if (self->idleOps > 60 && !self->spinning) { self->spinning = true; self->spinEpoch = g_epoch; }
    reschedule(true);
}
void blockSelf() {
    self->st = Thread::BLOCKED;
    reschedule(false);
    self->st = Thread::RUNNABLE;
    self->wk = W_NONE;
}
void spinHint(u64 key, u64 val) {
    Thread * t = self;
    void const * const k = reinterpret_cast<void const *>(key);
    ++t->idleOps;
    for (int i = 0; i < 4; ++i)
        if (t->spinAddr[i] == k) {
            if (t->spinVal[i] == val) { if (++t->spinCnt >= 6) { t->spinning = true; t->spinEpoch = g_epoch; } }
            else { t->spinVal[i] = val; t->spinCnt = 0; }
            return;
        }
    for (int i = 3; i > 0; --i) { t->spinAddr[i] = t->spinAddr[i-1]; t->spinVal[i] = t->spinVal[i-1]; }
    t->spinAddr[0] = k; t->spinVal[0] = val;
}

// ---- shadow memory / race detection ---------------------------------------------------
static char * const REGION = reinterpret_cast<char *>(0x10000000000ull);
static std::size_t const STACK_SIZE = 512 * 1024;
static std::size_t const STACKS = STACK_SIZE * MAXT;
static std::size_t const ARENA_SIZE = 192ull << 20;
static std::size_t const REGION_SIZE = STACKS + ARENA_SIZE;
static char * const ARENA = REGION + STACKS;

struct Acc { u64 pc; u32 clk; std::uint8_t tid, mask, write, atomic; };
enum { NACC = 10 };
struct Cell { u64 key; std::uint8_t n; bool hasAtomic; bool noRace; Acc a[NACC]; };
static Cell ** g_regionCells;          // REGION_SIZE/8 pointers (lazily mapped)
struct HEnt { u64 key; Cell * c; };
static HEnt * g_cells; static u32 const CELLCAP = 1 << 15; static u32 g_ncells;
static std::uint8_t * g_state;          // per 8 bytes of the arena: 0 never, 1..8 usable bytes (8=full), 0xF0 freed, 0xF1 redzone

static Cell * cellAt(u64 granule, bool create) {
    char * p = reinterpret_cast<char *>(granule);
    if (p >= REGION && p < REGION + REGION_SIZE) {
        Cell *& c = g_regionCells[(p - REGION) >> 3];
        if (!c && create) { c = static_cast<Cell *>(rtAlloc(sizeof(Cell))); c->key = granule; }
        return c;
    }
    u32 h = slotOf(granule >> 3, CELLCAP);
    for (u32 n = 0; n < CELLCAP; ++n, h = (h + 1) & (CELLCAP - 1)) {
        if (g_cells[h].key == granule) return g_cells[h].c;
        if (!g_cells[h].key) {
            if (!create) return nullptr;
            if (++g_ncells > CELLCAP / 2) return nullptr;
            Cell * c = static_cast<Cell *>(rtAlloc(sizeof(Cell)));
            c->key = granule;
            g_cells[h].key = granule; g_cells[h].c = c;
            return c;
        }
    }
    return nullptr;
}

struct BlockHdr { u64 magic; u64 size; u64 serial; u32 tid; u32 state; void const * pc[4]; u64 total; u64 flags; BlockHdr * next; };
static u64 const MAGIC = 0x51b10c4ed15ea5eull;
static std::size_t g_arenaUsed;
static BlockHdr * g_blocks; // most recent first
static u64 g_serial;
static u64 g_live, g_liveBytes;

static BlockHdr * blockOf(void const * p) { // slow: search
    char const * q = static_cast<char const *>(p);
    for (BlockHdr * b = g_blocks; b; b = b->next) {
        char const * d = reinterpret_cast<char *>(b->flags); // data start
        if (q >= d - 16 && q < d + b->size + 16) return b;
    }
    return nullptr;
}
static void memViolation(char const * what, char const * cls, void const * p, std::size_t n, void const * pc) {
    ++t_rt;
    BlockHdr * b = blockOf(p);
    char m[1024];
    snprintf(m, sizeof m, "%s of %zu bytes at %p (pc %p)%s", what, n, p, pc, "");
    if (b) {
        std::size_t l = strlen(m);
        snprintf(m + l, sizeof m - l, "; block size %llu allocated by t%u at %p %p %p, offset %lld", (unsigned long long) b->size, b->tid,
                 b->pc[0], b->pc[1], b->pc[2], (long long) (static_cast<char const *>(p) - reinterpret_cast<char *>(b->flags)));
    }
    finish(ST_VIOLATION, cls, m);
}
static inline void checkState(u64 g, unsigned off, unsigned len, bool write, void const * pc, void const * p, std::size_t n) {
    char * q = reinterpret_cast<char *>(g);
    if (q < ARENA || q >= ARENA + ARENA_SIZE) return;
    std::uint8_t const s = g_state[(q - ARENA) >> 3];
    if (s == 8) return;
    if (s == 0xF0) memViolation(write ? "write to freed memory" : "read of freed memory", "use-after-free", p, n, pc);
    else if (s == 0 || s == 0xF1 || off + len > s)
        memViolation(write ? "out-of-bounds write" : "out-of-bounds read", "out-of-bounds", p, n, pc);
}
static void locPlainWrite(u64 granule, unsigned off, unsigned len);

static void access(u64 granule, unsigned off, unsigned len, bool write, bool atomic, void const * pc, bool isFree = false) {
    Cell * c = cellAt(granule, true);
    if (!c || c->noRace) return;
    Thread * const me = self;
    std::uint8_t const mask = static_cast<std::uint8_t>(((1u << len) - 1u) << off);
    int slot = -1;
    for (unsigned i = 0; i < c->n; ++i) {
        Acc & a = c->a[i];
        if (a.tid == me->id) {
            if (a.write == write && a.atomic == atomic && (a.mask == mask || (a.mask & ~mask) == 0)) slot = i;
            continue;
        }
        if (!(a.mask & mask)) continue;
        if (!(a.write || write)) continue;
        if (a.atomic && atomic) continue;
        if (a.clk <= me->vc.c[a.tid]) continue;
        char m[512];
        ++t_rt;
        snprintf(m, sizeof m, "data race on %p: %s%s%s by t%d at pc %p is not ordered with %s%s by t%d at pc %p",
                 reinterpret_cast<void *>(granule + off), isFree ? "free/" : "", atomic ? "atomic " : "", write ? "write" : "read", me->id, pc,
                 a.atomic ? "atomic " : "", a.write ? "write" : "read", a.tid, reinterpret_cast<void *>(a.pc));
        finish(ST_VIOLATION, "data-race", m);
    }
    if (isFree) return;
    if (atomic) c->hasAtomic = true;
    else if (write && c->hasAtomic) locPlainWrite(granule, off, len);
    if (slot < 0) {
        if (c->n < NACC) slot = c->n++;
        else { // evict: prefer something ordered before us
            slot = 0;
            for (unsigned i = 0; i < c->n; ++i)
                if (c->a[i].clk <= me->vc.c[c->a[i].tid]) { slot = i; break; }
        }
    }
    Acc & a = c->a[slot];
    a.pc = reinterpret_cast<u64>(pc); a.clk = me->vc.c[me->id]; a.tid = static_cast<std::uint8_t>(me->id);
    a.mask = mask; a.write = write; a.atomic = atomic;
}
static inline bool tracking() { return self && !t_rt && !self->oracle; }
void accessRange(void const * p, std::size_t n, bool write, void const * pc) {
    u64 a = reinterpret_cast<u64>(p);
    u64 const end = a + n;
    if (++g_idleTicks > g_idleLimit) { ++t_rt; finish(ST_VIOLATION, "no-progress", "endless computation: millions of memory accesses without any synchronisation"); }
    while (a < end) {
        u64 const g = a & ~7ull;
        unsigned const off = static_cast<unsigned>(a - g);
        unsigned const len = static_cast<unsigned>((end - g < 8 ? end - g : 8) - off);
        checkState(g, off, len, write, pc, p, n);
        access(g, off, len, write, false, pc);
        a = g + 8;
    }
}

// ---- atomics -----------------------------------------------------------------------------
enum { HIST = 6 };
struct Store { u64 val; u32 ts; bool hasMsg; int headTid; Sync * msg; };
struct Sub { std::uint8_t off, size; int idx; u32 nst; u32 lastTs; Store st[HIST]; };
struct Loc { u64 granule; bool mixed; unsigned n; Sub * sub[8]; Sync mixedMsg; };
struct LEnt { u64 key; Loc * l; };
static LEnt * g_locs; static u32 const LOCCAP = 1 << 14;

static Loc * locAt(u64 granule, bool create) {
    u32 h = slotOf(granule >> 4, LOCCAP);
    for (u32 n = 0;; ++n, h = (h + 1) & (LOCCAP - 1)) {
        if (n == LOCCAP) finish(ST_ERROR, "error", "too many atomic objects");
        if (g_locs[h].key == granule) return g_locs[h].l;
        if (!g_locs[h].key) {
            if (!create) return nullptr;
            Loc * l = static_cast<Loc *>(rtAlloc(sizeof(Loc)));
            l->granule = granule;
            g_locs[h].key = granule; g_locs[h].l = l;
            return l;
        }
    }
}
static void locPlainWrite(u64 granule, unsigned off, unsigned len) {
    Loc * l = locAt(granule, false);
    if (!l) return;
    // A new object lives here, or the atomic was (re)initialised: forget the past.
    for (unsigned i = 0; i < l->n; ++i) {
        Sub * s = l->sub[i];
        if (off < unsigned(s->off) + s->size && s->off < off + len) s->nst = 0;
    }
}
static Sub * subAt(Loc * l, unsigned off, unsigned size, u64 cur) {
    if (l->mixed) return nullptr;
    for (unsigned i = 0; i < l->n; ++i) {
        Sub * s = l->sub[i];
        if (s->off == off && s->size == size) {
            if (s->nst == 0 || s->st[s->nst - 1].val != cur) { // (re)initialised by plain writes
                s->nst = 1; s->st[0] = Store(); s->st[0].val = cur; s->st[0].ts = ++s->lastTs; s->st[0].headTid = -1;
            }
            return s;
        }
        if (off < unsigned(s->off) + s->size && s->off < off + size) { // overlapping different size
            l->mixed = true;
            for (unsigned k = 0; k < l->n; ++k)
                for (unsigned j = 0; j < l->sub[k]->nst; ++j)
                    if (l->sub[k]->st[j].hasMsg) joinSync(l->mixedMsg, *l->sub[k]->st[j].msg);
            return nullptr;
        }
    }
    Sub * s = static_cast<Sub *>(rtAlloc(sizeof(Sub)));
    s->off = static_cast<std::uint8_t>(off); s->size = static_cast<std::uint8_t>(size);
    s->idx = g_nloc < MAXLOC ? g_nloc++ : -1;
    s->nst = 1; s->st[0].val = cur; s->st[0].ts = ++s->lastTs; s->st[0].headTid = -1;
    l->sub[l->n++] = s;
    return s;
}
static inline bool isAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool isRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static inline void scBefore(int mo) { if (mo == 5) joinView(self->view, g_sc.view); }
static inline void scAfter(int mo) { if (mo == 5) joinView(g_sc.view, self->view); }
static void takeMsg(Sync const & m, int mo) {
    if (isAcq(mo)) { acquireFrom(m); }
    else { joinSync(self->acqPend, m); self->hasAcqPend = true; }
}

template <typename T> struct AtomicOps {
    static u64 cur(T volatile * a) { return static_cast<u64>(__atomic_load_n(a, __ATOMIC_SEQ_CST)); }

    static T load(T volatile * a, int mo, void const * pc) {
        u64 const ad = reinterpret_cast<u64>(a), g = ad & ~7ull; unsigned const off = ad & 7;
        checkState(g, off, sizeof(T), false, pc, const_cast<T *>(a), sizeof(T));
        schedPoint(1, objId(const_cast<T *>(a)));
        checkState(g, off, sizeof(T), false, pc, const_cast<T *>(a), sizeof(T));
        access(g, off, sizeof(T), false, true, pc);
        Loc * l = locAt(g, true);
        u64 v = cur(a);
        Sub * s = subAt(l, off, sizeof(T), v);
        if (!s) { takeMsg(l->mixedMsg, mo); spinHint(ad, v); return static_cast<T>(v); }
        scBefore(mo);
        u32 k = s->nst - 1;
        if (s->idx >= 0 && g_staleOn && faultsOn() && s->nst > 1 && self->staleRun < 12) {
            u32 const minTs = self->view.t[s->idx];
            u32 lo = k;
            while (lo > 0 && s->st[lo - 1].ts >= minTs) --lo;
            // a store that happens-before (is in our view) hides older ones
            if (lo < k) {
                u32 const back = faultPick(F_STALE, k - lo + 1, 220);
                if (back) { k -= back; ++self->staleRun; tracef("stale load: %u stores back", back); }
            }
        }
        if (k == s->nst - 1) self->staleRun = 0;
        Store & st = s->st[k];
        v = st.val;
        if (s->idx >= 0 && self->view.t[s->idx] < st.ts) self->view.t[s->idx] = st.ts;
        if (st.hasMsg) takeMsg(*st.msg, mo);
        scAfter(mo);
        // a stale value is not what this thread would spin on for ever
        if (k == s->nst - 1) spinHint(ad, v);
        hashIn(v < 4096 ? v : 1);
        return static_cast<T>(v);
    }
    static void push(Sub * s, u64 v, int mo, bool rmw) {
        Store const * prev = s->nst ? &s->st[s->nst - 1] : nullptr;
        Store n = Store();
        n.val = v; n.ts = ++s->lastTs; n.headTid = -1;
        Sync * m = nullptr;
        bool const carry = prev && prev->hasMsg && (rmw || prev->headTid == self->id);
        if (isRel(mo) || self->hasRelFence || carry) {
            m = static_cast<Sync *>(rtAlloc(sizeof(Sync)));
            if (s->idx >= 0) self->view.t[s->idx] = n.ts;
            if (carry) { joinSync(*m, *prev->msg); n.headTid = prev->headTid; }
            if (isRel(mo)) { joinVC(m->vc, self->vc); joinView(m->view, self->view); n.headTid = self->id; }
            else if (self->hasRelFence) { joinSync(*m, self->relFence); if (s->idx >= 0 && m->view.t[s->idx] < n.ts) m->view.t[s->idx] = n.ts; n.headTid = self->id; }
            n.hasMsg = true; n.msg = m;
        }
        if (s->idx >= 0) self->view.t[s->idx] = n.ts;
        if (s->nst == HIST) { for (int i = 1; i < HIST; ++i) s->st[i - 1] = s->st[i]; --s->nst; }
        s->st[s->nst++] = n;
        if (isRel(mo)) tick();
    }
    static void store(T volatile * a, T val, int mo, void const * pc) {
        u64 const ad = reinterpret_cast<u64>(a), g = ad & ~7ull; unsigned const off = ad & 7;
        checkState(g, off, sizeof(T), true, pc, const_cast<T *>(a), sizeof(T));
        schedPoint(2, objId(const_cast<T *>(a)));
        checkState(g, off, sizeof(T), true, pc, const_cast<T *>(a), sizeof(T));
        access(g, off, sizeof(T), true, true, pc);
        Loc * l = locAt(g, true);
        u64 const old = cur(a);
        Sub * s = subAt(l, off, sizeof(T), old);
        __atomic_store_n(a, val, __ATOMIC_SEQ_CST);
        if (!s) { if (isRel(mo)) releaseTo(l->mixedMsg); else if (self->hasRelFence) joinSync(l->mixedMsg, self->relFence); progress(); return; }
        scBefore(mo);
        push(s, static_cast<u64>(val), mo, false);
        scAfter(mo);
        progress();
        hashIn(static_cast<u64>(val) < 4096 ? static_cast<u64>(val) : 1);
    }
    // op: returns whether to write, sets nv
    template <typename F>
    static T rmw(T volatile * a, int mo, int fmo, void const * pc, F f, bool isCas) {
        u64 const ad = reinterpret_cast<u64>(a), g = ad & ~7ull; unsigned const off = ad & 7;
        checkState(g, off, sizeof(T), true, pc, const_cast<T *>(a), sizeof(T));
        schedPoint(3, objId(const_cast<T *>(a)));
        checkState(g, off, sizeof(T), true, pc, const_cast<T *>(a), sizeof(T));
        access(g, off, sizeof(T), true, true, pc);
        Loc * l = locAt(g, true);
        T const old = static_cast<T>(cur(a));
        Sub * s = subAt(l, off, sizeof(T), static_cast<u64>(old));
        T nv = old;
        bool const wr = f(old, nv);
        int const m = wr ? mo : fmo;
        if (!s) {
            takeMsg(l->mixedMsg, m);
            if (wr) { __atomic_store_n(a, nv, __ATOMIC_SEQ_CST); if (isRel(m)) releaseTo(l->mixedMsg); else if (self->hasRelFence) joinSync(l->mixedMsg, self->relFence); progress(); }
            else spinHint(ad, static_cast<u64>(old));
            return old;
        }
        scBefore(m);
        Store & st = s->st[s->nst - 1];
        if (s->idx >= 0 && self->view.t[s->idx] < st.ts) self->view.t[s->idx] = st.ts;
        if (st.hasMsg) takeMsg(*st.msg, m);
        if (wr) { __atomic_store_n(a, nv, __ATOMIC_SEQ_CST); push(s, static_cast<u64>(nv), m, true); }
        scAfter(m);
        if (wr) progress(); else spinHint(ad, static_cast<u64>(old));
        (void) isCas;
        hashIn(static_cast<u64>(nv) < 4096 ? static_cast<u64>(nv) : 1);
        return old;
    }
};
static void fence(int mo) {
    schedPoint(4, 0);
    if (isAcq(mo) && self->hasAcqPend) { acquireFrom(self->acqPend); }
    if (mo == 5) { joinView(self->view, g_sc.view); joinView(g_sc.view, self->view); }
    if (isRel(mo)) { std::memset(&self->relFence, 0, sizeof(Sync)); joinVC(self->relFence.vc, self->vc); joinView(self->relFence.view, self->view); self->hasRelFence = true; tick(); }
}

// ---- allocator ---------------------------------------------------------------------------------
static inline bool inArena(void const * p) { return p >= ARENA && p < ARENA + ARENA_SIZE; }
static int g_noRaceAlloc;

static void * arenaAlloc(std::size_t size, std::size_t align) {
    if (align < 16) align = 16;
    std::size_t const want = size ? size : 1;
    u64 p = reinterpret_cast<u64>(ARENA) + g_arenaUsed + sizeof(BlockHdr) + 32;
    p = (p + align - 1) & ~(static_cast<u64>(align) - 1);
    std::size_t const end = p + ((want + 7) & ~std::size_t(7)) + 32 - reinterpret_cast<u64>(ARENA);
    if (end > ARENA_SIZE) return nullptr;
    char * start = ARENA + g_arenaUsed;
    std::memset(g_state + g_arenaUsed / 8, 0xF1, (end - g_arenaUsed + 7) / 8);
    g_arenaUsed = (end + 15) & ~std::size_t(15);
    BlockHdr * b = reinterpret_cast<BlockHdr *>(rtAlloc(sizeof(BlockHdr)));
    (void) start;
    b->magic = MAGIC; b->size = size; b->serial = ++g_serial; b->tid = self ? self->id : 99; b->state = 1;
    b->flags = p; b->next = g_blocks; g_blocks = b;
    if (self) for (u32 i = 0; i < 4 && i < self->depth && self->depth <= 512; ++i) b->pc[i] = self->stack[self->depth - 1 - i];
    std::memcpy(reinterpret_cast<char *>(p) - 16, &b, sizeof b);
    u64 const magic = MAGIC; std::memcpy(reinterpret_cast<char *>(p) - 8, &magic, 8);
    std::size_t const off = p - reinterpret_cast<u64>(ARENA);
    std::size_t k = 0;
    for (; k + 8 <= want; k += 8) g_state[(off + k) / 8] = 8;
    if (k < want) g_state[(off + k) / 8] = static_cast<std::uint8_t>(want - k);
    if (g_noRaceAlloc) for (std::size_t j = 0; j < want; j += 8) { Cell * c = cellAt(p + j, true); if (c) c->noRace = true; }
    std::memset(reinterpret_cast<void *>(p), 0xCD, size);
    g_live++; g_liveBytes += size;
    return reinterpret_cast<void *>(p);
}
static BlockHdr * headerOf(void * p) {
    u64 magic; std::memcpy(&magic, static_cast<char *>(p) - 8, 8);
    if ((reinterpret_cast<u64>(p) & 15) || magic != MAGIC) return nullptr;
    BlockHdr * b; std::memcpy(&b, static_cast<char *>(p) - 16, 8);
    return b;
}
static void checkDestroyedSync(char * p, std::size_t n);
static void arenaFree(void * p, void const * pc) {
    BlockHdr * b = headerOf(p);
    if (!b) memViolation("free of a pointer that was never allocated", "bad-free", p, 0, pc);
    if (b->state != 1) memViolation("double free", "double-free", p, b->size, pc);
    char * d = static_cast<char *>(p);
    if (self) {
        for (std::size_t i = 0; i < b->size; i += 8) {
            u64 const g = reinterpret_cast<u64>(d) + i;
            Cell * c = cellAt(g, false);
            if (c && !c->noRace && c->n) access(g, 0, static_cast<unsigned>(b->size - i < 8 ? b->size - i : 8), true, false, pc, true);
        }
        checkDestroyedSync(d, b->size);
    }
    b->state = 2;
    std::size_t const off = d - ARENA;
    for (std::size_t k = 0; k < (b->size ? b->size : 1); k += 8) g_state[(off + k) / 8] = 0xF0;
    std::memset(d, 0xDD, b->size);
    g_live--; g_liveBytes -= b->size;
}
static bool simAlloc() { return self && g_running && !t_rt && !self->oracle; }
static bool allocFault(std::size_t n) {
    Thread * t = self;
    if (!t->allocScope || t->noAlloc || !g_allocOn) return false;
    ++t_rt; bool const r = faultPick(F_ALLOC, 2, 90) != 0; --t_rt;
    if (r) { ++g_allocFired; tracef("allocation of %zu bytes fails", n); hashIn(0xA110C); }
    return r;
}
static void * doMalloc(std::size_t n, std::size_t align, void const *) {
    if (n > (1ull << 40)) return nullptr;
    if (allocFault(n)) return nullptr;
    ++t_rt;
    void * p = arenaAlloc(n, align);
    --t_rt;
    return p;
}

// ---- mutexes / condvars -----------------------------------------------------------------------
struct Cond { void * addr; int waiters; };
struct MEnt { void * key; Mutex * m; };
static MEnt * g_mutexes; static u32 const MCAP = 1 << 12;
struct CEnt { void * key; Cond * c; };
static CEnt * g_conds;
static Mutex * mutexAt(void * a) {
    u32 h = slotOf(reinterpret_cast<u64>(a) >> 4, MCAP);
    for (u32 n = 0; n < MCAP; ++n, h = (h + 1) & (MCAP - 1)) {
        if (g_mutexes[h].key == a) return g_mutexes[h].m;
        if (!g_mutexes[h].key) {
            Mutex * m = static_cast<Mutex *>(rtAlloc(sizeof(Mutex)));
            m->addr = a; m->owner = -1;
            g_mutexes[h].key = a; g_mutexes[h].m = m;
            return m;
        }
    }
    abort();
}
static Cond * condAt(void * a) {
    u32 h = slotOf(reinterpret_cast<u64>(a) >> 4, MCAP);
    for (u32 n = 0; n < MCAP; ++n, h = (h + 1) & (MCAP - 1)) {
        if (g_conds[h].key == a) return g_conds[h].c;
        if (!g_conds[h].key) {
            Cond * c = static_cast<Cond *>(rtAlloc(sizeof(Cond)));
            c->addr = a;
            g_conds[h].key = a; g_conds[h].c = c;
            return c;
        }
    }
    abort();
}
static void checkDestroyedSync(char * p, std::size_t n) {
    if (n < 40) return;
    for (int i = 0; i < g_nthr; ++i) {
        Thread * t = &g_thr[i];
        if (t->st != Thread::BLOCKED) continue;
        if (t->wk == W_MUTEX) {
            char * a = static_cast<char *>(static_cast<Mutex *>(t->wobj)->addr);
            if (a >= p && a < p + n) fail("destroyed-in-use", "memory of a mutex is freed while thread %d waits for it", i);
        } else if (t->wk == W_COND) {
            char * a = static_cast<char *>(static_cast<Cond *>(t->wobj)->addr);
            if (a >= p && a < p + n) fail("destroyed-in-use", "memory of a condition variable is freed while thread %d waits on it", i);
        }
    }
    for (u32 h = 0; h < MCAP; ++h)
        if (g_mutexes[h].key) {
            char * a = static_cast<char *>(g_mutexes[h].key);
            if (a >= p && a < p + n && g_mutexes[h].m->owner >= 0)
                fail("destroyed-in-use", "memory of a mutex is freed while thread %d holds it", g_mutexes[h].m->owner);
        }
}
static void touchSync(void * a, void const * pc) { // an atomic read of the object's first byte
    u64 const ad = reinterpret_cast<u64>(a), g = ad & ~7ull;
    checkState(g, static_cast<unsigned>(ad & 7), 1, false, pc, a, 1);
    access(g, static_cast<unsigned>(ad & 7), 1, false, true, pc);
}
static void setDeadline(Thread * t, bool rtclock, struct timespec const * ts) {
    t->timed = true; t->rtclock = rtclock;
    std::int64_t sec = ts->tv_sec;
    if (sec < 0) { t->deadline = 0; }
    else if (sec > 9000000000ll) t->deadline = ~0ull >> 1;
    else t->deadline = static_cast<u64>(sec) * 1000000000ull + static_cast<u64>(ts->tv_nsec);
    t->late = 0;
    if (g_lateOn && faultsOn()) {
        u32 const v = faultPick(F_LATETIMER, 4, 60);
        if (v == 1) t->late = 50000; else if (v == 2) t->late = 3000000; else if (v == 3) t->late = 200000000;
    }
}
void armTimer(Thread * t, u64 deadline) {
    struct timespec ts; ts.tv_sec = static_cast<time_t>(deadline / 1000000000ull); ts.tv_nsec = static_cast<long>(deadline % 1000000000ull);
    setDeadline(t, false, &ts);
}
bool timerExpired(Thread * t) { return expired(t); }
static int mutexLock(void * addr, bool timed, bool rtclock, struct timespec const * ts, void const * pc) {
    Mutex * m = mutexAt(addr);
    touchSync(addr, pc);
    schedPoint(10, objId(addr));
    for (;;) {
        touchSync(addr, pc);
        if (m->owner < 0 && m->readers == 0) break;
        if (m->owner == self->id) {
            if (timed) { }
            else fail("self-deadlock", "thread %d locks a mutex it already holds (%p, pc %p)", self->id, addr, pc);
        }
        self->wk = W_MUTEX; self->wobj = m; self->wint = 0; self->timed = false;
        if (timed) setDeadline(self, rtclock, ts);
        tracef("blocks on mutex %llu (held by t%d)", (unsigned long long) objId(addr), m->owner);
        blockSelf();
        bool const ex = timed && expired(self);
        self->timed = false;
        if (m->owner < 0 && m->readers == 0) break;
        if (ex) return ETIMEDOUT;
    }
    m->owner = self->id;
    acquireFrom(m->s);
    progress();
    tracef("locks mutex %llu", (unsigned long long) objId(addr));
    return 0;
}
static int mutexTry(void * addr, void const * pc) {
    Mutex * m = mutexAt(addr);
    touchSync(addr, pc);
    schedPoint(11, objId(addr));
    touchSync(addr, pc);
    if (m->owner >= 0 || m->readers) { spinHint(reinterpret_cast<u64>(addr), m->owner + 1); hashIn(7); return EBUSY; }
    m->owner = self->id;
    acquireFrom(m->s);
    progress();
    return 0;
}
static int mutexUnlock(void * addr, void const * pc) {
    Mutex * m = mutexAt(addr);
    touchSync(addr, pc);
    schedPoint(12, objId(addr));
    touchSync(addr, pc);
    if (m->owner != self->id)
        fail("bad-unlock", "thread %d unlocks a mutex it does not hold (%p held by %d, pc %p)", self->id, addr, m->owner, pc);
    m->owner = -1;
    releaseTo(m->s);
    progress();
    tracef("unlocks mutex %llu", (unsigned long long) objId(addr));
    return 0;
}
static int condWait(void * caddr, void * maddr, bool timed, bool rtclock, struct timespec const * ts, void const * pc) {
    Cond * c = condAt(caddr);
    Mutex * m = mutexAt(maddr);
    touchSync(caddr, pc); touchSync(maddr, pc);
    schedPoint(13, objId(caddr));
    touchSync(caddr, pc); touchSync(maddr, pc);
    if (m->owner != self->id)
        fail("bad-unlock", "thread %d waits on a condition variable with a mutex it does not hold", self->id);
    m->owner = -1;
    releaseTo(m->s);
    progress();
    Thread * t = self;
    t->wk = W_COND; t->wobj = c; t->timed = false; t->signaled = false; t->spuriousAt = 0;
    if (timed) setDeadline(t, rtclock, ts);
    if (g_spurOn && faultsOn()) {
        u32 const v = faultPick(F_SPURIOUS, 4, 100);
        if (v) t->spuriousAt = g_step + (v == 1 ? 1 : v == 2 ? 12 : 60);
    }
    c->waiters++;
    tracef("waits on cond %llu%s", (unsigned long long) objId(caddr), timed ? " (timed)" : "");
    blockSelf();
    c->waiters--;
    bool const sig = t->signaled;
    bool const ex = !sig && expired(t);
    t->timed = false; t->spuriousAt = 0; t->signaled = false;
    progress();
    hashIn(sig ? 21 : ex ? 22 : 23);
    tracef("wakes from cond %llu: %s", (unsigned long long) objId(caddr), sig ? "signal" : ex ? "timeout" : "spurious");
    // reacquire
    while (m->owner >= 0) {
        t->wk = W_MUTEX; t->wobj = m; t->wint = 0;
        blockSelf();
    }
    touchSync(maddr, pc);
    m->owner = t->id;
    acquireFrom(m->s);
    return ex ? ETIMEDOUT : 0;
}
static void condSignal(void * caddr, bool all, void const * pc) {
    Cond * c = condAt(caddr);
    touchSync(caddr, pc);
    schedPoint(14, objId(caddr));
    touchSync(caddr, pc);
    Thread * w[MAXT]; u32 n = 0;
    for (int i = 0; i < g_nthr; ++i) {
        Thread * t = &g_thr[(self->id + 1 + i) % g_nthr];
        if (t->st == Thread::BLOCKED && t->wk == W_COND && t->wobj == c && !t->signaled) w[n++] = t;
    }
    tracef("notify_%s on cond %llu with %u waiters", all ? "all" : "one", (unsigned long long) objId(caddr), n);
    if (!n) return;
    if (all) { for (u32 i = 0; i < n; ++i) w[i]->signaled = true; }
    else {
        u32 k = 0;
        if (n > 1 && config.wakeAny && !g_calm) { k = pick(SCHED, n); R->faults[F_WAKEANY]++; }
        w[k]->signaled = true;
    }
    progress();
}

// ---- threads --------------------------------------------------------------------------------------
typedef int (*create_t)(pthread_t *, pthread_attr_t const *, void * (*)(void *), void *);
typedef int (*join_t)(pthread_t, void **);
static create_t realCreate; static join_t realJoin;
static int (*realDetach)(pthread_t);
static void * (*realCxaAlloc)(std::size_t);
static void (*realEndCatch)();
static void (*realExcRelease)(void **);
struct ExcSync { void * key; Sync s; };
static ExcSync g_exc[48]; static int g_nexc;
static void excForget(void * p) {
    for (int i = 0; i < g_nexc; ++i) if (g_exc[i].key == p) { __real_memset(static_cast<void *>(&g_exc[i].s), 0, sizeof(Sync)); return; }
}
static void excDrop(void * p) {
    RtGuard g;
    int i = 0;
    while (i < g_nexc && g_exc[i].key != p) ++i;
    if (i == g_nexc) { if (i == 48) i = 47; else ++g_nexc; g_exc[i].key = p; } // the last one is shared when there are many
    acquireFrom(g_exc[i].s); releaseTo(g_exc[i].s);
}

static char g_alt[MAXT][32 * 1024];
static void * trampoline(void * p) {
    Thread * t = static_cast<Thread *>(p);
    futexWait(&t->fut);
    stack_t ss; std::memset(&ss, 0, sizeof ss);
    ss.ss_sp = g_alt[t->id]; ss.ss_size = sizeof g_alt[0];
    sigaltstack(&ss, nullptr);
    self = t;
    void * const r = t->fn(t->arg);
    ++t_rt;
    t->ret = r;
    std::memset(&t->fin, 0, sizeof t->fin);
    releaseTo(t->fin);
    schedPoint(20, t->id);
    t->st = Thread::FINISHED;
    progress();
    tracef("thread finished");
    // hand over the baton and leave for good
    Thread * me = t;
    for (;;) {
        Thread * c[MAXT]; u32 n = 0; Thread * sp[MAXT]; u32 ns = 0;
        for (int i = 1; i < g_nthr; ++i) {
            Thread * o = &g_thr[(me->id + i) % g_nthr];
            if (o == me || !ready(o)) continue;
            if (spinBlocked(o)) sp[ns++] = o; else c[n++] = o;
        }
        if (!n && ns) { c[n++] = sp[0]; sp[0]->spinning = false; }
        if (!n) { ++g_step; capCheck(); if (advanceTime()) continue; fail("deadlock", "deadlock: no thread can run and no timer is pending"); }
        Thread * o = choosePick(c, n, false);
        R->switches++;
        hashIn(0x5100 + o->id);
        self = nullptr;
        futexWake(&o->fut);
        break;
    }
    return r;
}
static Thread * newThread() {
    if (g_nthr >= MAXT) finish(ST_ERROR, "error", "too many simulated threads");
    Thread * t = &g_thr[g_nthr];
    std::memset(static_cast<void *>(t), 0, sizeof *t);
    t->id = g_nthr;
    t->prio = 2000 + rnd(1 << 20);
    ++g_nthr;
    return t;
}
static void startReal(Thread * t) {
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, REGION + STACK_SIZE * t->id, STACK_SIZE);
    int const r = realCreate(&t->pt, &at, trampoline, t);
    pthread_attr_destroy(&at);
    if (r) finish(ST_ERROR, "error", "real pthread_create failed");
}
static int simCreate(pthread_t * out, void * (*fn)(void *), void * arg) {
    schedPoint(21, 0);
    if (self->threadScope && g_thrOn && faultPick(F_THREAD, 2, 250)) {
        ++g_thrFired;
        tracef("thread creation fails with EAGAIN");
        return EAGAIN;
    }
    Thread * t = newThread();
    t->fn = fn; t->arg = arg; t->created = true;
    joinVC(t->vc, self->vc); joinView(t->view, self->view);
    tick();
    t->vc.c[t->id] = 1;
    if (g_strat == 3 && rnd(3) == 0) t->prio = rnd(1000);
    startReal(t);
    *out = t->pt;
    progress();
    tracef("creates thread %d", t->id);
    schedPoint(22, t->id);
    return 0;
}
static Thread * byPthread(pthread_t p) {
    for (int i = 0; i < g_nthr; ++i) if (g_thr[i].pt == p) return &g_thr[i];
    return nullptr;
}
static int simJoin(pthread_t p, void ** ret) {
    Thread * t = byPthread(p);
    if (!t) return ESRCH;
    if (t == self) fail("self-join", "thread %d joins itself", self->id);
    if (t->joined || t->detached) fail("bad-join", "thread %d joined twice or detached", t->id);
    t->joined = true;
    schedPoint(23, t->id);
    if (t->st != Thread::FINISHED) {
        self->wk = W_JOIN; self->wobj = t; self->timed = false;
        tracef("joins thread %d", t->id);
        blockSelf();
    }
    acquireFrom(t->fin);
    void * r;
    realJoin(p, &r);
    if (ret) *ret = t->ret;
    return 0;
}

// ---- crash handling -------------------------------------------------------------------------------
static void onCrash(int sig, siginfo_t * si, void *) {
    ++t_rt;
    char m[200];
    if (sig == SIGPROF) { finish(ST_VIOLATION, "hang", "run did not finish in real time (computation without any visible operation)"); }
    char * const fa = static_cast<char *>(si->si_addr);
    if (sig == SIGSEGV && fa >= REGION && fa < REGION + STACKS) finish(ST_VIOLATION, "stack-overflow", "stack overflow: unbounded recursion");
    snprintf(m, sizeof m, "crash: signal %d at address %p", sig, si->si_addr);
    finish(ST_VIOLATION, "crash", m);
}

void initProcess() { // once, in the driver before forking
    static bool done = false;
    if (done) return;
    done = true;
    int const fl = MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE;
    if (mmap(RTMEM, RTMEM_SIZE, PROT_READ | PROT_WRITE, fl, -1, 0) != RTMEM) { perror("mmap rt"); _exit(98); }
    if (mmap(REGION, REGION_SIZE, PROT_READ | PROT_WRITE, fl, -1, 0) != REGION) { perror("mmap region"); _exit(98); }
    auto map = [](std::size_t n) {
        void * p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); _exit(98); }
        return p;
    };
    g_regionCells = static_cast<Cell **>(map(REGION_SIZE / 8 * sizeof(Cell *)));
    g_cells = static_cast<HEnt *>(map(CELLCAP * sizeof(HEnt)));
    g_state = static_cast<std::uint8_t *>(map(ARENA_SIZE / 8 + 64));
    g_ids = static_cast<IdEnt *>(map(IDCAP * sizeof(IdEnt)));
    g_locs = static_cast<LEnt *>(map(LOCCAP * sizeof(LEnt)));
    g_mutexes = static_cast<MEnt *>(map(MCAP * sizeof(MEnt)));
    g_conds = static_cast<CEnt *>(map(MCAP * sizeof(CEnt)));
    realCreate = reinterpret_cast<create_t>(dlsym(RTLD_NEXT, "pthread_create"));
    realJoin = reinterpret_cast<join_t>(dlsym(RTLD_NEXT, "pthread_join"));
    realDetach = reinterpret_cast<int (*)(pthread_t)>(dlsym(RTLD_NEXT, "pthread_detach"));
    std::realRbInc(); std::realRbDec(); std::realRbIns(); std::realRbDel();
    realCxaAlloc = reinterpret_cast<void * (*)(std::size_t)>(dlsym(RTLD_NEXT, "__cxa_allocate_exception"));
    // Warm up lazily initialised library state outside of any run.
    try { throw 1; } catch (int) { std::exception_ptr const e = std::current_exception(); }
    try { throw std::bad_alloc(); } catch (std::exception const & e) { (void) e.what(); }
    char b[64]; snprintf(b, sizeof b, "%p %f", static_cast<void *>(&done), 1.5);
    for (int i = 0; i < MAXT; ++i) mprotect(REGION + STACK_SIZE * i, 8192, PROT_NONE);
}

static void applyConfig();
static void * mainThread(void *) {
    if (sim_setup) sim_setup();
    applyConfig();
    sim_main();
    ++t_rt;
    // Let every remaining thread finish or get stuck.
    for (int i = 1; i < g_nthr; ++i)
        if (g_thr[i].st != Thread::FINISHED) {
            if (g_thr[i].detached) continue;
            char m[200]; snprintf(m, sizeof m, "thread %d is still alive after everything was torn down", i);
            finish(ST_VIOLATION, "thread-leak", m);
        }
    kernelEndChecks();
    if (g_leakCheck && g_live) {
        BlockHdr * b = g_blocks; BlockHdr * last = nullptr; unsigned n = 0;
        for (; b; b = b->next) if (b->state == 1) { last = b; ++n; }
        if (n) {
            char m[600];
            snprintf(m, sizeof m, "%u blocks leaked; first: %llu bytes, serial %llu, allocated by t%u at %p %p %p %p", n,
                     (unsigned long long) last->size, (unsigned long long) last->serial, last->tid, last->pc[0], last->pc[1], last->pc[2], last->pc[3]);
            finish(ST_VIOLATION, "leak", m);
        }
    }
    finish(ST_OK, "", "");
}

static void onTerminate();

void runOnce(Input const & in, Result * out) {
    ++t_rt;
    IN = in;
    R = out;
    R->status = ST_NONE; R->cls[0] = R->msg[0] = 0; R->steps = R->switches = R->simNs = 0; R->hash = 1469598103934665603ull; R->stateHash = 0;
    std::memset(R->faults, 0, sizeof R->faults); std::memset(R->probes, 0, sizeof R->probes);
    R->nontrivial = 0; R->calmReached = 0; R->traceLen = 0; R->trace[0] = 0; R->len[0] = R->len[1] = R->len[2] = 0;
    u64 x = in.seed * 0x2545F4914F6CDD1Dull + 12345;
    g_rng[0] = splitmix(x); g_rng[1] = splitmix(x);
    g_now = 1000ull * 1000000000ull;
    g_rtOffset = 1700000000ll * 1000000000ll;
    struct sigaction sa; std::memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onCrash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF }) sigaction(s, &sa, nullptr);
    std::set_terminate(onTerminate);
    struct itimerval it; std::memset(&it, 0, sizeof it); it.it_value.tv_sec = 20; // CPU time of this run
    setitimer(ITIMER_PROF, &it, nullptr);
    kernelReset();
    // run-level swarm configuration
    if (!in.replay) {
        g_strat = static_cast<int>(rnd(8));
        if (g_strat > 3) g_strat = g_strat == 4 ? 1 : g_strat == 5 ? 2 : 0;
        static u32 const ps[] = { 512, 256, 100, 30 };
        g_switchP = ps[rnd(4)];
        static u32 const rs[] = { 2, 8, 8, 24 };
        g_rateScale = rs[rnd(4)];
        g_nChange = 1 + rnd(g_strat == 1 ? 4 : 6);
        static u32 const est[] = { 40, 100, 250, 600 };
        u32 const e = est[rnd(4)];
        for (int i = 0; i < g_nChange; ++i) g_changeAt[i] = 1 + rnd(e);
        g_lowPrio = 1500;
    }
    {
        u32 v = in.replay ? 0 : (rnd(5) != 0);
        g_faultRun = commit(FAULT, v, 2) != 0;
        v = in.replay ? 0 : rnd(2048);
        u32 const mask = commit(FAULT, v, 2048);
        g_spurOn = mask & 1; g_lateOn = mask & 2; g_leapsOn = mask & 4; g_staleOn = mask & 8;
        g_allocOn = mask & 16; g_eintrOn = mask & 32; g_shortOn = mask & 64; g_weakOn = mask & 128; g_eioOn = mask & 256;
        g_throwOn = mask & 512; g_thrOn = mask & 1024;
        static u64 const q[] = { 20, 1000, 50000 };
        g_quantum = q[commit(FAULT, in.replay ? 0 : rnd(3), 3)];
    }
    Thread * t = newThread();
    t->vc.c[0] = 1;
    t->fn = [](void *) -> void * { t_rt = 0; return mainThread(nullptr); };
    g_running = true;
    startReal(t);
    futexWake(&t->fut);
    for (;;) pause();
}

static void applyConfig() {
    g_spurOn = g_spurOn && config.spurious; g_lateOn = g_lateOn && config.lateTimers; g_leapsOn = g_leapsOn && config.leaps;
    g_staleOn = g_staleOn && config.staleReads; g_allocOn = g_allocOn && config.allocFail; g_eintrOn = g_eintrOn && config.eintr;
    g_shortOn = g_shortOn && config.shortIo; g_weakOn = g_weakOn && config.weakCas; g_eioOn = g_eioOn && config.eio;
    g_thrOn = g_thrOn && config.threadFail;
}
bool eintrOn() { return g_eintrOn && faultsOn(); }
bool shortOn() { return g_shortOn && faultsOn(); }
bool eioOn() { return g_eioOn && faultsOn(); }
void sysFired() { ++g_sysFired; }

} // namespace rt
extern "C" Probe __start_sim_probes[] __attribute__((weak));
extern "C" Probe __stop_sim_probes[] __attribute__((weak));
namespace rt {
int numProbes() { return static_cast<int>(__stop_sim_probes - __start_sim_probes); }
char const * probeName(int i) { return __start_sim_probes[i].name; }

static void onTerminate() {
    ++t_rt;
    char m[600] = "std::terminate called";
    if (std::type_info * ti = abi::__cxa_current_exception_type()) {
        int st; char * d = abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st);
        snprintf(m, sizeof m, "std::terminate called with an active exception of type %s", d ? d : ti->name());
    }
    finish(ST_VIOLATION, "terminate", m);
}

} // namespace rt

using namespace rt;

// ---- harness API -----------------------------------------------------------------------------

u32 choose(u32 n) { RtGuard g; u32 const v = pick(WORK, n); hashIn(v + 77); return v; }
bool flip() { return choose(2) != 0; }
u32 range(u32 lo, u32 hi) { return lo + choose(hi - lo + 1); }
bool chance(u32 num, u32 den) { RtGuard g; u32 const v = commit(WORK, IN.replay ? 0 : rnd(den) < num, 2); hashIn(v + 77); return v; }
void yield() { RtGuard g; schedPoint(30, 0); }
u64 step() { return g_step; }
u64 now() { return g_now; }
std::int64_t realNow() { return static_cast<std::int64_t>(g_now) + g_rtOffset; }
int tid() { return self->id; }
bool calm() { return g_calm; }
void calmNow() { RtGuard g; enterCalm(); }
bool faultRun() { return g_faultRun; }
void sleepNs(u64 ns) {
    RtGuard g;
    schedPoint(31, 0);
    self->wk = W_SLEEP; self->timed = true; self->rtclock = false; self->deadline = g_now + ns; self->late = 0;
    blockSelf();
    self->timed = false;
    progress();
}
void jumpRealtime(std::int64_t d) {
    RtGuard g;
    schedPoint(32, 0);
    g_rtOffset += d;
    if (g_rtOffset + static_cast<std::int64_t>(g_now) < 0) g_rtOffset = -static_cast<std::int64_t>(g_now);
    R->faults[F_CLOCKJUMP]++;
    tracef("system clock jumps by %lld ns", (long long) d);
    progress();
}
u64 threadSteps(int t) { return g_thr[t].ownSteps; }
unsigned liveThreads() { unsigned n = 0; for (int i = 0; i < g_nthr; ++i) n += g_thr[i].st != Thread::FINISHED; return n; }
bool threadBlocked(int t) { return g_thr[t].st == Thread::BLOCKED && !ready(&g_thr[t]); }
u64 pendingTimers() { u64 n = 0; for (int i = 0; i < g_nthr; ++i) n += g_thr[i].st == Thread::BLOCKED && g_thr[i].timed; return n; }
static bool othersIdle() {
    for (int i = 0; i < g_nthr; ++i) {
        Thread * t = &g_thr[i];
        if (t == self || t->st == Thread::FINISHED) continue;
        if (ready(t) && !spinBlocked(t)) return false;
    }
    return true;
}
void awaitQuiescence() {
    RtGuard g;
    for (u32 n = 0;; ++n) {
        ++g_step; capCheck();
        if (othersIdle()) return;
        // give the floor to others
        self->spinning = true; self->spinEpoch = g_epoch;
        reschedule(true);
        self->spinning = false;
    }
}
void awaitQuiescenceNoTimers() {
    RtGuard g;
    for (;;) {
        awaitQuiescence();
        ++g_step; capCheck();
        if (!advanceTime()) return;
        if (othersIdle()) return; // timers beyond reach (infinite)
    }
}
void note(char const * fmt, ...) {
    if (!IN.trace) return;
    ++t_rt;
    char b[300]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    tracef("%s", b);
    --t_rt;
}
Oracle::Oracle() noexcept { self->oracle++; }
Oracle::~Oracle() noexcept { self->oracle--; }
AllocFaults::AllocFaults() noexcept { self->allocScope++; }
AllocFaults::~AllocFaults() noexcept { self->allocScope--; }
NoAllocFaults::NoAllocFaults() noexcept { saved = self->allocScope; self->allocScope = 0; }
NoAllocFaults::~NoAllocFaults() noexcept { self->allocScope = saved; }
ThreadFaults::ThreadFaults() noexcept { self->threadScope++; }
ThreadFaults::~ThreadFaults() noexcept { self->threadScope--; }
SysFaults::SysFaults() noexcept { self->sysScope++; }
SysFaults::~SysFaults() noexcept { self->sysScope--; }
u64 allocFaultsFired() { return g_allocFired; }
u64 threadFaultsFired() { return g_thrFired; }
u64 sysFaultsFired() { return g_sysFired; }
int lastSysErrno() { return self->sysErr; }
void clearSysErrno() { self->sysErr = 0; }
bool userThrow() { RtGuard g; if (!g_throwOn) return false; return faultPick(F_USERTHROW, 2, 160) != 0; }
u64 liveBlocks() { return g_live; }
u64 liveBytes() { return g_liveBytes; }
u64 allocSerial() { return g_serial + 1; }
void noLeakCheck() { g_leakCheck = false; }
void Probe::hit() {
    long const idx = this - __start_sim_probes;
    if (R && idx >= 0 && idx < MAXPROBE) R->probes[idx]++;
}
void tag(u64 v) { RtGuard g; hashIn(v * 31 + 5); }
void nontrivial() { R->nontrivial = 1; }
void computing(u64 accesses) { g_idleTicks = 0; g_idleLimit = accesses; }

} // namespace sim

using namespace sim;
using namespace sim::rt;

// ==================================================================================================
// Interposed C/C++ runtime functions
// ==================================================================================================
#define PC __builtin_return_address(0)
#define LIVE (self && g_running && !t_rt && !self->oracle)
// Locks inside the C and C++ runtime libraries are neither scheduling points
// nor a source of happens-before for the code under test.
extern "C" char __executable_start, _end;
static inline bool ours(void const * p) {
    char const * a = static_cast<char const *>(p);
    return (a >= &__executable_start && a < &_end) || (a >= REGION && a < REGION + REGION_SIZE);
}
#define LIVEM(m) (LIVE && ours(m))
static bool recursive(pthread_mutex_t const * m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static bool heldAgain(pthread_mutex_t * m) { // a recursive mutex locked by its owner
    if (!recursive(m)) return false;
    Mutex * x = mutexAt(m);
    if (x->owner != self->id) return false;
    ++x->depth;
    return true;
}
static bool stillHeld(pthread_mutex_t * m) {
    if (!recursive(m)) return false;
    Mutex * x = mutexAt(m);
    if (x->owner != self->id || !x->depth) return false;
    --x->depth;
    return true;
}


extern "C" {

// ---- allocation
void * malloc(size_t n) {
    if (!simAlloc()) return __libc_malloc(n);
    void * p = doMalloc(n, 16, PC);
    if (!p) errno = ENOMEM;
    return p;
}
void * calloc(size_t a, size_t b) {
    if (!simAlloc()) return __libc_calloc(a, b);
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void * p = doMalloc(n, 16, PC);
    if (!p) { errno = ENOMEM; return nullptr; }
    __real_memset(p, 0, n);
    return p;
}
void free(void * p) {
    if (!p) return;
    if (!inArena(p)) { __libc_free(p); return; }
    int const e = errno;
    ++t_rt;
    arenaFree(p, PC);
    --t_rt;
    errno = e;
}
void * realloc(void * p, size_t n) {
    if (p && !inArena(p)) return __libc_realloc(p, n);
    if (!p) { if (!simAlloc()) return __libc_malloc(n); void * q = doMalloc(n, 16, PC); if (!q) errno = ENOMEM; return q; }
    if (n == 0) { free(p); return nullptr; }
    if (LIVE && allocFault(n)) { errno = ENOMEM; return nullptr; }
    ++t_rt;
    BlockHdr * b = headerOf(p);
    if (!b || b->state != 1) memViolation("realloc of an invalid pointer", "bad-free", p, 0, PC);
    void * q = n > (1ull << 40) ? nullptr : arenaAlloc(n, 16);
    if (q) { __real_memcpy(q, p, b->size < n ? b->size : n); arenaFree(p, PC); }
    else errno = ENOMEM;
    --t_rt;
    return q;
}
void * memalign(size_t al, size_t n) { if (!simAlloc()) return __libc_memalign(al, n); void * p = doMalloc(n, al, PC); if (!p) errno = ENOMEM; return p; }
void * aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void ** out, size_t al, size_t n) {
    if (al < sizeof(void *) || (al & (al - 1))) return EINVAL;
    int const e = errno;
    void * p = simAlloc() ? doMalloc(n, al, PC) : __libc_memalign(al, n);
    errno = e;
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
size_t malloc_usable_size(void * p) { if (!p) return 0; if (inArena(p)) { BlockHdr * b = headerOf(p); return b ? b->size : 0; } return ((size_t *) p)[-1] & ~size_t(7); }

void * __wrap_memcpy(void * d, void const * s, size_t n) {
    if (n && tracking()) { ++t_rt; accessRange(s, n, false, PC); accessRange(d, n, true, PC); --t_rt; }
    return __real_memcpy(d, s, n);
}
void * __wrap_memmove(void * d, void const * s, size_t n) {
    if (n && tracking()) { ++t_rt; accessRange(s, n, false, PC); accessRange(d, n, true, PC); --t_rt; }
    return __real_memmove(d, s, n);
}
void * __wrap_memset(void * d, int c, size_t n) {
    if (n && tracking()) { ++t_rt; accessRange(d, n, true, PC); --t_rt; }
    return __real_memset(d, c, n);
}

int __wrap_memcmp(void const * a, void const * b, size_t n) {
    if (n && tracking()) { ++t_rt; accessRange(a, n, false, PC); accessRange(b, n, false, PC); --t_rt; }
    return __real_memcmp(a, b, n);
}
void * __wrap_memchr(void const * a, int c, size_t n) {
    void * const r = __real_memchr(a, c, n);
    size_t const k = r ? static_cast<size_t>(static_cast<char *>(r) - static_cast<char const *>(a)) + 1 : n;
    if (k && tracking()) { ++t_rt; accessRange(a, k, false, PC); --t_rt; }
    return r;
}
size_t __wrap_strlen(char const * a) {
    size_t const n = __real_strlen(a);
    if (tracking()) { ++t_rt; accessRange(a, n + 1, false, PC); --t_rt; }
    return n;
}
int __wrap_strcmp(char const * a, char const * b) {
    int const r = __real_strcmp(a, b);
    if (tracking()) {
        size_t n = 0;
        while (a[n] && a[n] == b[n]) ++n;
        ++t_rt; accessRange(a, n + 1, false, PC); accessRange(b, n + 1, false, PC); --t_rt;
    }
    return r;
}

void * __cxa_allocate_exception(size_t n) noexcept {
    if (!realCxaAlloc) realCxaAlloc = reinterpret_cast<void * (*)(size_t)>(dlsym(RTLD_NEXT, "__cxa_allocate_exception"));
    if (self) { self->noAlloc++; ++g_noRaceAlloc; }
    void * p = realCxaAlloc(n);
    if (self) { self->noAlloc--; --g_noRaceAlloc; }
    if (LIVE) excForget(p);
    return p;
}
// Dropping a reference to an exception orders its later destruction after all
// earlier uses of it; the counting itself happens inside the C++ runtime.
void __cxa_end_catch() {
    if (!realEndCatch) realEndCatch = reinterpret_cast<void (*)()>(dlsym(RTLD_NEXT, "__cxa_end_catch"));
    if (LIVE) {
        char * const h = *reinterpret_cast<char **>(abi::__cxa_get_globals()); // the exception caught last
        if (h && *reinterpret_cast<int *>(h + 40) == 1) { // its last handler ends
            bool const dependent = *reinterpret_cast<unsigned char *>(h + 80) == 1; // as of rethrow_exception()
            excDrop(dependent ? *reinterpret_cast<void **>(h) : h + 112);
        }
    }
    realEndCatch();
}
void _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void ** p) noexcept {
    if (!realExcRelease) realExcRelease = reinterpret_cast<void (*)(void **)>(dlsym(RTLD_NEXT, "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"));
    if (LIVE && *p) excDrop(*p);
    realExcRelease(p);
}

// ---- failure
void __assert_fail(char const * e, char const * f, unsigned l, char const * fn) {
    ++t_rt;
    if (!g_running) { fprintf(stderr, "assert %s %s:%u\n", e, f, l); _exit(99); }
    char m[900];
    char const * b = strrchr(f, '/');
    snprintf(m, sizeof m, "assertion failed: %.300s at %.80s:%u in %.300s", e, b ? b + 1 : f, l, fn);
    finish(ST_VIOLATION, "assertion", m);
}
void __assert_perror_fail(int, char const *, unsigned, char const *) { abort(); }

// ---- mutex
int pthread_mutex_init(pthread_mutex_t * m, pthread_mutexattr_t const * at) {
    __real_memset(m, 0, sizeof *m);
    if (at) pthread_mutexattr_gettype(at, &m->__data.__kind);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t * m) {
    if (!LIVEM(m)) return 0;
    RtGuard g;
    Mutex * x = mutexAt(m);
    if (x->owner >= 0) fail("destroyed-in-use", "a mutex is destroyed while thread %d holds it", x->owner);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t * m) { if (!LIVEM(m)) return 0; RtGuard g; if (heldAgain(m)) return 0; return mutexLock(m, false, false, nullptr, PC); }
int pthread_mutex_trylock(pthread_mutex_t * m) { if (!LIVEM(m)) return 0; RtGuard g; if (heldAgain(m)) return 0; return mutexTry(m, PC); }
int pthread_mutex_unlock(pthread_mutex_t * m) { if (!LIVEM(m)) return 0; RtGuard g; if (stillHeld(m)) return 0; return mutexUnlock(m, PC); }
int pthread_mutex_timedlock(pthread_mutex_t * m, struct timespec const * ts) { if (!LIVEM(m)) return 0; RtGuard g; if (heldAgain(m)) return 0; return mutexLock(m, true, true, ts, PC); }
int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t c, struct timespec const * ts) { if (!LIVEM(m)) return 0; RtGuard g; if (heldAgain(m)) return 0; return mutexLock(m, true, c == CLOCK_REALTIME, ts, PC); }
// ---- rwlock (exclusive and shared)
static int rwLock(void * a, bool ex, bool tr, void const * pc) {
    Mutex * m = mutexAt(a);
    touchSync(a, pc);
    schedPoint(15, objId(a));
    while (m->owner >= 0 || (ex && m->readers)) {
        if (tr) return EBUSY;
        if (m->owner == self->id) fail("self-deadlock", "thread %d locks a rwlock it already holds", self->id);
        self->wk = W_RW; self->wobj = m; self->wint = ex; self->timed = false;
        blockSelf();
    }
    if (ex) m->owner = self->id; else m->readers++;
    acquireFrom(m->s);
    progress();
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t * m) { if (!LIVEM(m)) return 0; RtGuard g; return rwLock(m, true, false, PC); }
int pthread_rwlock_rdlock(pthread_rwlock_t * m) { if (!LIVEM(m)) return 0; RtGuard g; return rwLock(m, false, false, PC); }
int pthread_rwlock_trywrlock(pthread_rwlock_t * m) { if (!LIVEM(m)) return 0; RtGuard g; return rwLock(m, true, true, PC); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t * m) { if (!LIVEM(m)) return 0; RtGuard g; return rwLock(m, false, true, PC); }
int pthread_rwlock_unlock(pthread_rwlock_t * a) {
    if (!LIVEM(a)) return 0;
    RtGuard g;
    Mutex * m = mutexAt(a);
    schedPoint(16, objId(a));
    if (m->owner == self->id) m->owner = -1; else if (m->readers) m->readers--; else fail("bad-unlock", "rwlock not held");
    releaseTo(m->s);
    progress();
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
int pthread_rwlock_init(pthread_rwlock_t * m, pthread_rwlockattr_t const *) { __real_memset(m, 0, sizeof *m); return 0; }
// ---- once
int pthread_once(pthread_once_t * o, void (*f)(void)) {
    if (!LIVEM(o)) { if (!*o) { *o = 2; f(); } return 0; }
    ++t_rt;
    mutexLock(o, false, false, nullptr, PC);
    if (*o != 2) {
        --t_rt;
        try { f(); } catch (...) { ++t_rt; mutexUnlock(o, PC); --t_rt; throw; }
        ++t_rt;
        *o = 2;
    }
    mutexUnlock(o, PC);
    --t_rt;
    return 0;
}
// ---- condition variables
int pthread_cond_init(pthread_cond_t * c, pthread_condattr_t const *) { __real_memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t * c) {
    if (!LIVEM(c)) return 0;
    RtGuard g;
    for (int i = 0; i < g_nthr; ++i)
        if (g_thr[i].st == Thread::BLOCKED && g_thr[i].wk == W_COND && static_cast<Cond *>(g_thr[i].wobj)->addr == c && !g_thr[i].signaled)
            fail("destroyed-in-use", "a condition variable is destroyed while thread %d waits on it", i);
    return 0;
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { if (!LIVEM(c)) return 0; RtGuard g; return condWait(c, m, false, false, nullptr, PC); }
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, struct timespec const * ts) { if (!LIVEM(c)) return 0; RtGuard g; return condWait(c, m, true, true, ts, PC); }
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, struct timespec const * ts) { if (!LIVEM(c)) return 0; RtGuard g; return condWait(c, m, true, k == CLOCK_REALTIME, ts, PC); }
int pthread_cond_signal(pthread_cond_t * c) { if (!LIVEM(c)) return 0; RtGuard g; condSignal(c, false, PC); return 0; }
int pthread_cond_broadcast(pthread_cond_t * c) { if (!LIVEM(c)) return 0; RtGuard g; condSignal(c, true, PC); return 0; }
// ---- futexes (std::promise, std::call_once and the like wait inside libstdc++)
static int futexWaitSim(u32 * a, u32 val, struct timespec const * ts, bool absolute, bool rtclock, void const * pc) {
    Cond * const c = condAt(a);
    touchSync(a, pc);
    schedPoint(17, objId(a));
    touchSync(a, pc);
    if (__atomic_load_n(a, __ATOMIC_RELAXED) != val) { spinHint(reinterpret_cast<u64>(a), val); return EAGAIN; }
    Thread * const t = self;
    t->wk = W_COND; t->wobj = c; t->timed = false; t->signaled = false; t->spuriousAt = 0;
    if (ts && absolute) setDeadline(t, rtclock, ts);
    else if (ts) { t->timed = true; t->rtclock = false; t->late = 0; t->deadline = g_now + static_cast<u64>(ts->tv_sec) * 1000000000ull + static_cast<u64>(ts->tv_nsec); }
    if (g_spurOn && faultsOn()) {
        u32 const v = faultPick(F_SPURIOUS, 4, 100);
        if (v) t->spuriousAt = g_step + (v == 1 ? 1 : v == 2 ? 12 : 60);
    }
    tracef("waits on futex %llu%s", (unsigned long long) objId(a), ts ? " (timed)" : "");
    blockSelf();
    bool const ex = !t->signaled && expired(t);
    t->timed = false; t->spuriousAt = 0; t->signaled = false;
    progress();
    hashIn(ex ? 25 : 24);
    return ex ? ETIMEDOUT : 0;
}
static long futexWakeSim(u32 * a, long n, void const * pc) {
    condSignal(a, n > 1, pc);
    return 0;
}
static long rawSyscall(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = static_cast<int>(-r); return -1; }
    return r;
}
long syscall(long n, ...) noexcept {
    va_list ap; va_start(ap, n);
    long x[6];
    for (long & v : x) v = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && LIVEM(reinterpret_cast<void *>(x[0]))) {
        RtGuard g;
        u32 * const a = reinterpret_cast<u32 *>(x[0]);
        int const op = static_cast<int>(x[1]) & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            int const e = futexWaitSim(a, static_cast<u32>(x[2]), reinterpret_cast<struct timespec const *>(x[3]), op == FUTEX_WAIT_BITSET, x[1] & FUTEX_CLOCK_REALTIME, PC);
            if (!e) return 0;
            errno = e;
            return -1;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) return futexWakeSim(a, x[2], PC);
    }
    return rawSyscall(n, x[0], x[1], x[2], x[3], x[4], x[5]);
}
// ---- threads
int pthread_create(pthread_t * t, pthread_attr_t const * a, void * (*f)(void *), void * arg) {
    if (!LIVE) { if (!realCreate) realCreate = reinterpret_cast<create_t>(dlsym(RTLD_NEXT, "pthread_create")); return realCreate(t, a, f, arg); }
    RtGuard g;
    accessRange(t, sizeof *t, true, PC);
    return simCreate(t, f, arg);
}
int pthread_join(pthread_t t, void ** r) {
    if (!LIVE) return realJoin(t, r);
    RtGuard g;
    return simJoin(t, r);
}
int pthread_detach(pthread_t t) {
    if (!LIVE) return realDetach(t);
    RtGuard g;
    schedPoint(24, 0);
    Thread * x = byPthread(t);
    if (x) x->detached = true;
    return 0;
}
int sched_yield(void) {
    if (!LIVE) return 0;
    RtGuard g;
    self->idleOps += 8; self->spinCnt += 1;
    if (self->spinCnt >= 6) { self->spinning = true; self->spinEpoch = g_epoch; }
    schedPoint(25, 0);
    return 0;
}
// ---- clocks
int clock_gettime(clockid_t c, struct timespec * ts) {
    if (!LIVE) return static_cast<int>(::syscall(SYS_clock_gettime, c, ts));
    RtGuard g;
    schedPoint(26, c);
    u64 const v = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? static_cast<u64>(static_cast<std::int64_t>(g_now) + g_rtOffset) : g_now;
    self->idleOps = 0; self->spinCnt = 0; self->spinning = false;
    ts->tv_sec = static_cast<time_t>(v / 1000000000ull);
    ts->tv_nsec = static_cast<long>(v % 1000000000ull);
    if (!self->oracle) accessRange(ts, sizeof *ts, true, PC);
    return 0;
}
int gettimeofday(struct timeval * tv, void *) {
    if (!LIVE) { struct timespec ts; ::syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
    RtGuard g;
    schedPoint(27, 0);
    if (self->sysScope && faultPick(F_CLOCKFAIL, 2, 120)) { ++g_sysFired; self->sysErr = errno = EFAULT; tracef("gettimeofday fails"); return -1; }
    u64 const v = static_cast<u64>(static_cast<std::int64_t>(g_now) + g_rtOffset);
    tv->tv_sec = static_cast<time_t>(v / 1000000000ull);
    tv->tv_usec = static_cast<suseconds_t>(v % 1000000000ull / 1000);
    if (!self->oracle) accessRange(tv, sizeof *tv, true, PC);
    return 0;
}
time_t time(time_t * p) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}
int nanosleep(struct timespec const * ts, struct timespec *) {
    if (!LIVE) return static_cast<int>(::syscall(SYS_nanosleep, ts, nullptr));
    sleepNs(static_cast<u64>(ts->tv_sec) * 1000000000ull + static_cast<u64>(ts->tv_nsec));
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, struct timespec const * ts, struct timespec * rem) {
    if (!LIVE) return static_cast<int>(::syscall(SYS_clock_nanosleep, c, flags, ts, rem));
    if (!(flags & TIMER_ABSTIME)) return nanosleep(ts, rem);
    RtGuard g;
    schedPoint(31, 0);
    self->wk = W_SLEEP; setDeadline(self, c == CLOCK_REALTIME, ts);
    blockSelf();
    self->timed = false;
    progress();
    return 0;
}
int usleep(useconds_t us) { struct timespec ts = { static_cast<time_t>(us / 1000000), static_cast<long>(us % 1000000) * 1000 }; return nanosleep(&ts, nullptr); }

// ---- tsan callbacks
void __tsan_init() {}
void __tsan_func_entry(void * pc) {
    Thread * t = self;
    if (!t) return;
    if (t->depth < 512) t->stack[t->depth] = pc;
    if (++t->depth > 100000) { ++t_rt; finish(ST_VIOLATION, "stack-overflow", "unbounded recursion"); }
    if (++g_idleTicks > g_idleLimit) { ++t_rt; finish(ST_VIOLATION, "no-progress", "endless computation without any synchronisation"); }
}
void __tsan_func_exit() { if (self && self->depth) self->depth--; }
#define ACC(n) \
    void __tsan_read##n(void * p) { if (tracking()) { ++t_rt; accessRange(p, n, false, PC); --t_rt; } } \
    void __tsan_write##n(void * p) { if (tracking()) { ++t_rt; accessRange(p, n, true, PC); --t_rt; } }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
#define UACC(n) \
    void __tsan_unaligned_read##n(void * p) { if (tracking()) { ++t_rt; accessRange(p, n, false, PC); --t_rt; } } \
    void __tsan_unaligned_write##n(void * p) { if (tracking()) { ++t_rt; accessRange(p, n, true, PC); --t_rt; } }
UACC(2) UACC(4) UACC(8) UACC(16)
void __tsan_read_range(void * p, unsigned long n) { if (n && tracking()) { ++t_rt; accessRange(p, n, false, PC); --t_rt; } }
void __tsan_write_range(void * p, unsigned long n) { if (n && tracking()) { ++t_rt; accessRange(p, n, true, PC); --t_rt; } }
void __tsan_vptr_update(void ** p, void * v) { if (tracking() && *p != v) { ++t_rt; accessRange(p, 8, true, PC); --t_rt; } }
void __tsan_vptr_read(void ** p) { if (tracking()) { ++t_rt; accessRange(p, 8, false, PC); --t_rt; } }

#define MO(m) ((m) & 0x7fff)
#define ATOMICS(bits, T) \
    T __tsan_atomic##bits##_load(T const volatile * a, int mo) { if (!LIVE) return __atomic_load_n(a, 5); RtGuard g; return AtomicOps<T>::load(const_cast<T volatile *>(a), MO(mo), PC); } \
    void __tsan_atomic##bits##_store(T volatile * a, T v, int mo) { if (!LIVE) { __atomic_store_n(a, v, 5); return; } RtGuard g; AtomicOps<T>::store(a, v, MO(mo), PC); } \
    T __tsan_atomic##bits##_exchange(T volatile * a, T v, int mo) { if (!LIVE) return __atomic_exchange_n(a, v, 5); RtGuard g; return AtomicOps<T>::rmw(a, MO(mo), MO(mo), PC, [v](T, T & n) { n = v; return true; }, false); } \
    T __tsan_atomic##bits##_fetch_add(T volatile * a, T v, int mo) { if (!LIVE) return __atomic_fetch_add(a, v, 5); RtGuard g; return AtomicOps<T>::rmw(a, MO(mo), MO(mo), PC, [v](T o, T & n) { n = static_cast<T>(o + v); return true; }, false); } \
    T __tsan_atomic##bits##_fetch_sub(T volatile * a, T v, int mo) { if (!LIVE) return __atomic_fetch_sub(a, v, 5); RtGuard g; return AtomicOps<T>::rmw(a, MO(mo), MO(mo), PC, [v](T o, T & n) { n = static_cast<T>(o - v); return true; }, false); } \
    T __tsan_atomic##bits##_fetch_and(T volatile * a, T v, int mo) { if (!LIVE) return __atomic_fetch_and(a, v, 5); RtGuard g; return AtomicOps<T>::rmw(a, MO(mo), MO(mo), PC, [v](T o, T & n) { n = static_cast<T>(o & v); return true; }, false); } \
    T __tsan_atomic##bits##_fetch_or(T volatile * a, T v, int mo) { if (!LIVE) return __atomic_fetch_or(a, v, 5); RtGuard g; return AtomicOps<T>::rmw(a, MO(mo), MO(mo), PC, [v](T o, T & n) { n = static_cast<T>(o | v); return true; }, false); } \
    T __tsan_atomic##bits##_fetch_xor(T volatile * a, T v, int mo) { if (!LIVE) return __atomic_fetch_xor(a, v, 5); RtGuard g; return AtomicOps<T>::rmw(a, MO(mo), MO(mo), PC, [v](T o, T & n) { n = static_cast<T>(o ^ v); return true; }, false); } \
    T __tsan_atomic##bits##_fetch_nand(T volatile * a, T v, int mo) { if (!LIVE) return __atomic_fetch_nand(a, v, 5); RtGuard g; return AtomicOps<T>::rmw(a, MO(mo), MO(mo), PC, [v](T o, T & n) { n = static_cast<T>(~(o & v)); return true; }, false); } \
    bool __tsan_atomic##bits##_compare_exchange_strong(T volatile * a, T * c, T v, int mo, int fmo) { \
        if (!LIVE) return __atomic_compare_exchange_n(a, c, v, false, 5, 5); \
        RtGuard g; T const e = *c; \
        T const o = AtomicOps<T>::rmw(a, MO(mo), MO(fmo), PC, [v, e](T o_, T & n) { if (o_ == e) { n = v; return true; } return false; }, true); \
        if (o == e) return true; \
        *c = o; return false; } \
    bool __tsan_atomic##bits##_compare_exchange_weak(T volatile * a, T * c, T v, int mo, int fmo) { \
        if (!LIVE) return __atomic_compare_exchange_n(a, c, v, true, 5, 5); \
        RtGuard g; T const e = *c; \
        bool const spur = g_weakOn && faultPick(F_WEAKCAS, 2, 100); \
        bool done = false; \
        T const o = AtomicOps<T>::rmw(a, MO(mo), MO(fmo), PC, [v, e, spur, &done](T o_, T & n) { if (o_ == e && !spur) { n = v; done = true; return true; } return false; }, true); \
        if (done) return true; \
        *c = o; return false; }
ATOMICS(8, std::uint8_t)
ATOMICS(16, std::uint16_t)
ATOMICS(32, std::uint32_t)
ATOMICS(64, std::uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (!LIVE) return; RtGuard g; fence(MO(mo)); }
void __tsan_atomic_signal_fence(int) {}

// ---- function-local statics
int __cxa_guard_acquire(u64 * gd) {
    char * b = reinterpret_cast<char *>(gd);
    if (!LIVEM(gd)) { if (*b) return 0; return 1; }
    RtGuard g;
    mutexLock(gd, false, false, nullptr, PC);
    if (*b) { mutexUnlock(gd, PC); return 0; }
    return 1;
}
void __cxa_guard_release(u64 * gd) {
    std::uint8_t * b = reinterpret_cast<std::uint8_t *>(gd);
    if (!LIVEM(gd)) { *b = 1; return; }
    RtGuard g;
    AtomicOps<std::uint8_t>::store(b, 1, 3, PC);
    mutexUnlock(gd, PC);
}
void __cxa_guard_abort(u64 * gd) { if (!LIVEM(gd)) return; RtGuard g; mutexUnlock(gd, PC); }

} // extern "C"

// ---- parts of the C++ library that are compiled into it and hence not instrumented: done or wrapped
// here so that what they read and write is seen.
namespace std {
void thread::join() {
    if (tracking()) { ++t_rt; accessRange(this, sizeof *this, false, PC); --t_rt; }
    if (!joinable()) throw std::system_error(std::make_error_code(std::errc::invalid_argument));
    if (int const e = pthread_join(native_handle(), nullptr)) throw std::system_error(e, std::generic_category());
    if (tracking()) { ++t_rt; accessRange(this, sizeof *this, true, PC); --t_rt; }
    _M_id = id();
}
namespace __detail {
#define SEEN(p, field, w) do { if (tracking()) { ++t_rt; accessRange(&(p)->field, sizeof (p)->field, w, PC); --t_rt; } } while (0)
void _List_node_base::_M_hook(_List_node_base * const position) noexcept {
    SEEN(this, _M_next, true); SEEN(this, _M_prev, true);
    _M_next = position;
    SEEN(position, _M_prev, true);
    _M_prev = position->_M_prev;
    SEEN(position->_M_prev, _M_next, true);
    position->_M_prev->_M_next = this;
    position->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
    SEEN(this, _M_next, false); SEEN(this, _M_prev, false);
    _List_node_base * const n = _M_next, * const p = _M_prev;
    SEEN(p, _M_next, true); p->_M_next = n;
    SEEN(n, _M_prev, true); n->_M_prev = p;
}
void _List_node_base::_M_transfer(_List_node_base * const first, _List_node_base * const last) noexcept {
    if (this == last) return;
    SEEN(last, _M_prev, true); SEEN(first, _M_prev, true); SEEN(this, _M_prev, true);
    SEEN(last->_M_prev, _M_next, true); SEEN(first->_M_prev, _M_next, true); SEEN(_M_prev, _M_next, true);
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    _M_prev->_M_next = first;
    _List_node_base * const tmp = _M_prev;
    _M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = tmp;
}
#undef SEEN
} // namespace __detail
// The standard requires insertions and erasures to exclude every other access to the tree, so it is
// enough to note some of the nodes that are written.
static void seenNode(_Rb_tree_node_base const * n, bool write, void const * pc) {
    if (n && tracking()) { ++t_rt; accessRange(n, sizeof *n, write, pc); --t_rt; }
}
static void * nextSym(char const * name) {
    void * const r = dlsym(RTLD_NEXT, name);
    if (!r) abort();
    return r;
}
using RbStep = _Rb_tree_node_base * (*)(_Rb_tree_node_base *);
static void * realRbInc() { static void * const r = nextSym("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base"); return r; }
static void * realRbDec() { static void * const r = nextSym("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base"); return r; }
static void * realRbIns() { static void * const r = nextSym("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_"); return r; }
static void * realRbDel() { static void * const r = nextSym("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_"); return r; }
_Rb_tree_node_base * _Rb_tree_increment(_Rb_tree_node_base * x) throw() {
    seenNode(x, false, PC);
    return reinterpret_cast<RbStep>(realRbInc())(x);
}
_Rb_tree_node_base const * _Rb_tree_increment(_Rb_tree_node_base const * x) throw() {
    seenNode(x, false, PC);
    return reinterpret_cast<RbStep>(realRbInc())(const_cast<_Rb_tree_node_base *>(x));
}
_Rb_tree_node_base * _Rb_tree_decrement(_Rb_tree_node_base * x) throw() {
    seenNode(x, false, PC);
    return reinterpret_cast<RbStep>(realRbDec())(x);
}
_Rb_tree_node_base const * _Rb_tree_decrement(_Rb_tree_node_base const * x) throw() {
    seenNode(x, false, PC);
    return reinterpret_cast<RbStep>(realRbDec())(const_cast<_Rb_tree_node_base *>(x));
}
void _Rb_tree_insert_and_rebalance(bool const left, _Rb_tree_node_base * x, _Rb_tree_node_base * p, _Rb_tree_node_base & header) throw() {
    seenNode(x, true, PC); seenNode(p, true, PC); seenNode(&header, true, PC);
    reinterpret_cast<void (*)(bool, _Rb_tree_node_base *, _Rb_tree_node_base *, _Rb_tree_node_base &)>(realRbIns())(left, x, p, header);
}
_Rb_tree_node_base * _Rb_tree_rebalance_for_erase(_Rb_tree_node_base * const z, _Rb_tree_node_base & header) throw() {
    seenNode(z->_M_parent, true, PC); seenNode(z->_M_left, true, PC); seenNode(z->_M_right, true, PC);
    seenNode(z, true, PC); seenNode(&header, true, PC);
    return reinterpret_cast<_Rb_tree_node_base * (*)(_Rb_tree_node_base *, _Rb_tree_node_base &)>(realRbDel())(z, header);
}
} // namespace std
