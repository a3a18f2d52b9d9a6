// Internal interface between the runtime (rt.cpp, kernel.cpp) and the driver.
#ifndef SIM_RT_H
#define SIM_RT_H
#include "sim.h"
#include <pthread.h>

namespace sim {
namespace rt {

enum { MAXT = 16, MAXLOC = 128, MAXPROBE = 96 };
enum Stream { SCHED = 0, FAULT = 1, WORK = 2, NSTREAM = 3 };
enum FaultKind {
    F_SPURIOUS, F_WAKEANY, F_LATETIMER, F_LEAP, F_STALE, F_WEAKCAS, F_ALLOC,
    F_THREAD, F_EINTR, F_EIO, F_SHORTIO, F_USERTHROW, F_CLOCKJUMP, F_PARTIAL,
    F_CLOCKFAIL, NFAULT };
extern char const * const faultNames[NFAULT];

enum { CAP_S = 160000, CAP_F = 160000, CAP_W = 20000 };

enum Status { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_ERROR = 3 };

struct Result {
    int status;
    char cls[96];
    char msg[16384];
    u64 steps, switches, simNs, hash, stateHash;
    u64 faults[NFAULT];
    u64 probes[MAXPROBE];
    int nontrivial;
    int calmReached;
    u32 len[NSTREAM];
    std::uint16_t s[CAP_S];
    std::uint16_t f[CAP_F];
    std::uint16_t w[CAP_W];
    u32 traceLen;
    char trace[1 << 20];
};

struct Input {
    bool replay;
    bool trace;
    u64 seed;
    u32 len[NSTREAM];
    std::uint16_t const * t[NSTREAM];
};

void runOnce(Input const & in, Result * out); // in a forked child; does not return normally
int numProbes();
char const * probeName(int i);

// ---- runtime internals shared with kernel.cpp
struct VC { u32 c[MAXT]; };
struct View { u32 t[MAXLOC]; };
struct Sync { VC vc; View view; };

enum WaitKind { W_NONE, W_MUTEX, W_COND, W_JOIN, W_SLEEP, W_EPOLL, W_GUARD, W_RW };

struct Thread {
    int id;
    enum St { RUNNABLE, BLOCKED, FINISHED } st;
    u64 ownSteps;         // scheduling points of this thread
    int fut;
    pthread_t pt;
    bool joined, detached, created;
    void * (*fn)(void *);
    void * arg;
    void * ret;
    VC vc;
    View view;
    Sync acqPend, relFence;
    bool hasRelFence, hasAcqPend;
    WaitKind wk;
    void * wobj;
    int wint;
    bool timed, rtclock, signaled;
    u64 deadline, late, spuriousAt;
    // spin detection
    void const * spinAddr[4]; u64 spinVal[4]; u32 spinCnt; u32 idleOps; bool spinning; u64 spinEpoch;
    u32 staleRun;
    int oracle, allocScope, threadScope, sysScope, noAlloc;
    int sysErr;
    u32 depth;
    void const * stack[512];
    u32 prio;
    Sync fin; // published at exit
};

extern __thread Thread * self;
extern __thread int t_rt;
struct RtGuard { RtGuard() { ++t_rt; } ~RtGuard() { --t_rt; } };

extern u64 g_now, g_step;
extern std::int64_t g_rtOffset;
extern bool g_calm;
extern Result * R;

void schedPoint(int kind, u64 obj);
void blockSelf();
u32 pick(Stream s, u32 n);              // uniform
u32 faultPick(FaultKind k, u32 n, u32 rate1024); // nonzero with rate/1024
bool faultsOn();
void progress();                        // the current thread changed shared state
void releaseTo(Sync & s);
void acquireFrom(Sync const & s);
void * rtAlloc(std::size_t n);
void hashIn(u64 v);
void tracef(char const * fmt, ...) __attribute__((format(printf, 1, 2)));
void accessRange(void const * p, std::size_t n, bool write, void const * pc);
u64 objId(void const * p);              // stable small id by first touch
void spinHint(u64 key, u64 val);

// kernel.cpp
bool epollReady(Thread * t);
void kernelReset();
void kernelEndChecks();
} // namespace rt
} // namespace sim
#endif
