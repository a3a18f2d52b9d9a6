// Shared helpers of the harnesses.
#ifndef HARNESS_COMMON_H
#define HARNESS_COMMON_H
// Some headers of the library rely on their users for these.
#include <algorithm>
#include <atomic>
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include "sim.h"

using sim::u32; using sim::u64;

// True in runs in which execution speed is steady (no slow-execution leaps),
// so that promptness can be judged in simulated time.
static bool steadyRun;
static u64 const SEC = 1000000000ull, MS = 1000000ull;
#define STEADY_SETUP() do { steadyRun = sim::choose(2) == 0; sim::config.leaps = !steadyRun; } while (0)

// Bookkeeping of the oracle: lives on the host heap, invisible to the code
// under test. Use it inside ORACLE blocks only.
#define ORACLE for (struct { sim::Oracle o; bool go; } orc_{{}, true}; orc_.go; orc_.go = false)

struct UserError { int id; };

// A value whose life is fully accounted for: its payload is on the simulated
// heap, so leaks, double destruction and use after destruction are all seen.
struct Obj {
    static int live, created;
    static bool throwing;      // operations may throw UserError
    int * p;
    static void maybeThrow() { if (throwing && sim::userThrow()) throw UserError{-1}; }
    static void up() { sim::Oracle o; ++live; ++created; }
    static void down() { sim::Oracle o; --live; SIM_CHECK(live >= 0, "double-destroy", "more objects destroyed than created"); }
    explicit Obj(int v) : p(nullptr) { maybeThrow(); p = new int(v); up(); }
    Obj() : Obj(0) {}
    Obj(Obj const & c) : p(nullptr) { maybeThrow(); p = new int(*c.p); up(); }
    Obj(Obj && m) : p(nullptr) { maybeThrow(); p = new int(*m.p); *m.p = -1; up(); }
    Obj & operator=(Obj const & c) { maybeThrow(); *p = *c.p; return *this; }
    Obj & operator=(Obj && c) { maybeThrow(); int const v = *c.p; *c.p = -1; *p = v; return *this; }
    ~Obj() noexcept { delete p; p = reinterpret_cast<int *>(8); down(); }
    int value() const { return *p; }
    friend bool operator==(Obj const & a, Obj const & b) { return *a.p == *b.p; }
};
int Obj::live = 0; int Obj::created = 0; bool Obj::throwing = false;

// As Obj, but moves never throw.
struct NObj {
    static int live;
    int * p;
    explicit NObj(int v = 0) : p(new int(v)) { sim::Oracle o; ++live; }
    NObj(NObj const & c) : p(new int(c.value())) { sim::Oracle o; ++live; }
    NObj(NObj && m) noexcept : p(m.p) { m.p = nullptr; sim::Oracle o; ++live; }
    NObj & operator=(NObj && m) noexcept { std::swap(p, m.p); return *this; }
    NObj & operator=(NObj const & m) { NObj t(m); std::swap(p, t.p); return *this; }
    ~NObj() noexcept { delete p; p = reinterpret_cast<int *>(8); sim::Oracle o; --live; }
    int value() const { return p ? *p : -1; }
};
int NObj::live = 0;

// Plain (non-atomic) data handed from one thread to another: the simulator
// reports a data race when the hand-over is not properly ordered.
struct Plain {
    int v = 0;
    void set(int x) { v = x; }
    int get() const { return v; }
};

struct Threads {
    std::vector<std::thread> ts;
    Threads() { ts.reserve(16); }
    template <typename F> void add(F && f) { ts.emplace_back(std::forward<F>(f)); }
    void join() { for (auto & t : ts) t.join(); ts.clear(); }
};

inline void dawdle(u32 n);

// Steps the system clock back and forth a few times while it runs.
struct ClockJumper {
    std::thread t;
    void start() {
        if (sim::chance(2, 3)) return;
        u32 const n = 1 + sim::choose(3);
        t = std::thread([n] {
            for (u32 i = 0; i < n; ++i) {
                static std::int64_t const by[] = { -3600ll, 3600ll, -1ll, 1ll, 1000000000ll, -800000000ll };
                dawdle(sim::choose(20));
                if (sim::flip()) sim::sleepNs(sim::choose(3) * 2 * MS);
                sim::jumpRealtime(by[sim::choose(6)] * static_cast<std::int64_t>(SEC));
            }
        });
    }
    ~ClockJumper() { if (t.joinable()) t.join(); }
};

// A short, schedule-visible delay in workload code.
inline void dawdle(u32 n) { for (u32 i = 0; i < n; ++i) sim::yield(); }
#endif
