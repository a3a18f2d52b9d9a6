// Harness-facing API of the deterministic simulator.  See DESIGN.md.
#ifndef SIM_H
#define SIM_H
#include <cstddef>
#include <cstdint>
#include <cstdio>

namespace sim {

typedef std::uint32_t u32;
typedef std::uint64_t u64;

// ---- provided by the harness ------------------------------------------------
extern "C" void sim_setup() __attribute__((weak)); // sets sim::config; may draw choices
extern "C" void sim_main();            // body of one simulated run (thread 0)
extern "C" char const * const sim_property;

// ---- workload choices (on the tape; 0 is the simplest) ----------------------
u32 choose(u32 n);                     // uniform in [0,n)
bool flip();                           // choose(2)
u32 range(u32 lo, u32 hi);             // inclusive
bool chance(u32 num, u32 den);         // true with probability num/den; false is simplest

// ---- scheduling --------------------------------------------------------------
void yield();                          // a plain scheduling point in user code
u64 step();                            // global event sequence number
u64 now();                             // simulated steady clock, ns
void sleepNs(u64 ns);                  // simulated sleep
std::int64_t realNow();                // simulated system clock, ns
int tid();                             // simulated thread number
void jumpRealtime(std::int64_t deltaNs); // step the system clock
bool calm();                           // faults have stopped (liveness phase)
void calmNow();                        // stop all faults from here on
unsigned liveThreads();                // simulated threads not finished, incl. caller
u64 threadSteps(int tid);              // scheduling points thread tid has passed
bool threadBlocked(int tid);           // blocked in a wait (not runnable) right now
u64 pendingTimers();                   // number of timed waiters

// Waits (in simulated steps, giving the others the floor) until pred is true;
// reports `cls` when it does not become true although all others are idle
// and no timer is pending. Progress within a bounded number of steps.
void awaitQuiescence();                // returns once every other thread is blocked/finished (timers may be pending)
void awaitQuiescenceNoTimers();        // as above, but lets timers expire first

// ---- run configuration (set in sim_setup) ----------------------
struct Config {
    bool spurious = true;              // spurious condvar wakeups
    bool lateTimers = true;            // late expiry of timed waits
    bool leaps = true;                 // execution may be arbitrarily slow
    bool staleReads = true;            // weak-memory stale loads
    bool weakCas = true;               // spurious weak CAS failure
    bool wakeAny = true;               // notify_one wakes an arbitrary waiter
    bool eintr = true;                 // EINTR/EAGAIN from the simulated kernel
    bool eio = true;                   // permanent syscall failures (inside SysFaults scopes)
    bool shortIo = true;               // short reads/writes
    bool allocFail = true;             // inside AllocFaults scopes
    bool threadFail = true;            // inside ThreadFaults scopes
    u32 pipeCap = 0;                   // capacity of pipes of the code under test (0: 64 KiB)
    bool waitFaults = false;           // epoll_wait may fail permanently on any thread
    u32 softCap = 6000;                // steps before calm mode
    u32 hardCap = 120000;              // steps in calm mode => no progress
};
extern Config config;
bool faultRun();                       // false: this run has all faults disabled

// ---- oracle ------------------------------------------------------------------
[[noreturn]] void fail(char const * cls, char const * fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) ::sim::fail(cls, __VA_ARGS__); } while (0)
void note(char const * fmt, ...) __attribute__((format(printf, 1, 2))); // event log line (trace only)

// Inside: no scheduling, no race/lifetime tracking, host allocation.
struct Oracle { Oracle() noexcept; ~Oracle() noexcept; Oracle(Oracle const &) = delete; };

// Fault scopes: faults of that kind may hit the calling thread inside.
struct AllocFaults { AllocFaults() noexcept; ~AllocFaults() noexcept; AllocFaults(AllocFaults const &) = delete; };
struct NoAllocFaults { NoAllocFaults() noexcept; ~NoAllocFaults() noexcept; int saved; };
struct ThreadFaults { ThreadFaults() noexcept; ~ThreadFaults() noexcept; ThreadFaults(ThreadFaults const &) = delete; };
struct SysFaults { SysFaults() noexcept; ~SysFaults() noexcept; SysFaults(SysFaults const &) = delete; };
u64 allocFaultsFired();                // in this run
u64 threadFaultsFired();
u64 sysFaultsFired();
bool userThrow();                      // fault choice: should user code throw here?
void clearSysErrno();                  // forgets it
int lastSysErrno();                    // errno of the most recent injected permanent failure on this thread

// Memory accounting of simulated allocations.
u64 liveBlocks();                      // number of live blocks
u64 liveBytes();
u64 allocSerial();                     // serial of the next allocation
void noLeakCheck();

// Reach probes: counted per run, reported in evidence.
// Only in non-template, non-inline functions (they live in a named section).
struct Probe { char const * name; void * pad; void hit(); };
#define SIM_PROBE(nm) do { static ::sim::Probe simProbe_ __attribute__((section("sim_probes"), used)) = { nm, nullptr }; simProbe_.hit(); } while (0)
// For templates and inline functions: SIM_PROBE_DEF(id, "name") at namespace
// scope, SIM_HIT(id) where it is reached.
#define SIM_PROBE_DEF(id, nm) static ::sim::Probe probe_##id __attribute__((section("sim_probes"), used)) = { nm, nullptr }
#define SIM_HIT(id) probe_##id.hit()
// Tag: adds to the state/trace hash so that different outcomes count as distinct
void tag(u64 v);
// When called in a run, the run counts as non-trivial (else not counted).
void nontrivial();
void computing(u64 accesses); // how many memory accesses without synchronisation are taken for an endless loop
// ---- simulated kernel ----------------------------------------------------------
namespace kernel {
void addFile(char const * path, void const * data, std::size_t size, bool regular);
void truncateAfter(char const * path, std::size_t bytesRead, std::size_t newSize); // concurrent truncation
void makePipe(int fds[2]);             // user-side pipe (never fails, not counted for leaks until closed)
int rawWrite(int fd, void const * p, std::size_t n); // harness side I/O: no faults, no scheduling
int rawRead(int fd, void * p, std::size_t n);
void rawClose(int fd);
void shutdownPeer(int fd);             // as of a socket: reads get to the end, EPOLLRDHUP is reported
bool isOpen(int fd);
unsigned openCount();                  // open descriptors not created by the harness side
unsigned openAll();
bool dataPending(int fd);              // bytes readable
void adopt(int fd);                    // the code under test now owns this harness descriptor
int statusFlags(int fd);
int fdOrigin(int fd);                  // id of the open file description
bool cloexec(int fd);
unsigned inheritable();                // descriptors the code under test has opened so far which child processes inherit
unsigned waitFailures();               // permanent failures of epoll_wait so far
}

} // namespace sim
#endif
