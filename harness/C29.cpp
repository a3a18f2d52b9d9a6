// C29: atomic flag operations are atomic read-modify-write steps.
#include "common.h"
#include <sharemind/AtomicFlags.h>
extern "C" char const * const sim_property = "C29";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(contended, "operations of several threads overlapped");
SIM_PROBE_DEF(casOk, "a compare-exchange succeeded");
SIM_PROBE_DEF(casFail, "a compare-exchange failed");
SIM_PROBE_DEF(published, "data was seen through an acquired flag");
SIM_PROBE_DEF(notYet, "a flag was not set yet");
SIM_PROBE_DEF(publishedCas, "data was seen through a failed compare-exchange");
SIM_PROBE_DEF(handed, "data were handed over");
SIM_PROBE_DEF(handedCas, "data were handed over to a successful compare-exchange");
SIM_PROBE_DEF(handedCasFail, "data were handed over to a failed compare-exchange");
SIM_PROBE_DEF(handedLast, "data were handed over to an exchange");
SIM_PROBE_DEF(plainFlags, "flags were combined without other threads");

enum class Byte : std::uint8_t {};
enum class Word : std::uint32_t {};
enum class Long : std::uint64_t {};

enum Kind { LOAD, ANY, ALL, NONE, STORE, XCHG, CAS_S, CAS_W, SET_ALL, FSET_ALL, FSET, UNSET_ALL, FUNSET_ALL, FUNSET, FTOGGLE, NKIND };
// One operation of the history: arguments, result, and when it ran.
struct Op { Kind k; u64 arg = 0, exp = 0, got = 0; bool ok = false; u64 call = 0, ret = 0; };
enum { MAXT = 4, MAXOPS = 8 };
Op ops[MAXT + 1][MAXOPS]; int cnt[MAXT + 1]; u64 clockTick;
u64 mask; bool strict;
u64 tick() { sim::Oracle o; return ++clockTick; }

// May op take effect on value v? If so, v becomes the value after it.
bool apply(Op const & o, u64 & v) {
    switch (o.k) {
    case LOAD: return o.got == v;
    case ANY: return o.ok == ((v & o.arg) != 0);
    case ALL: return o.ok == ((v & o.arg) == o.arg);
    case NONE: return o.ok == ((v & o.arg) == 0);
    case STORE: v = o.arg; return true;
    case SET_ALL: v = mask; return true;
    case UNSET_ALL: v = 0; return true;
    case XCHG: if (o.got != v) return false; v = o.arg; return true;
    case FSET_ALL: if (o.got != v) return false; v = mask; return true;
    case FUNSET_ALL: if (o.got != v) return false; v = 0; return true;
    case FSET: if (o.got != v) return false; v |= o.arg; return true;
    case FUNSET: if (o.got != v) return false; v &= ~o.arg & mask; return true;
    case FTOGGLE: if (o.got != v) return false; v ^= o.arg; return true;
    case CAS_S: if (o.ok) { if (v != o.exp || o.got != o.exp) return false; v = o.arg; return true; } return o.got == v && v != o.exp;
    case CAS_W: if (o.ok) { if (v != o.exp || o.got != o.exp) return false; v = o.arg; return true; } return o.got == v;
    default: return false;
    }
}
// Is there an order of all operations that respects real time and explains
// every result? Depth first, remembering dead ends.
struct Search {
    int n; u64 finalValue; std::set<std::pair<u64, u64> > dead;
    bool go(int * at, u64 v) {
        u64 key = 0; bool done = true; u64 firstRet = ~u64(0);
        for (int t = 0; t < n; ++t) { key = key * 16 + static_cast<u64>(at[t]); if (at[t] < cnt[t]) { done = false; firstRet = std::min(firstRet, ops[t][at[t]].ret); } }
        if (done) return v == finalValue;
        if (dead.count({ key, v })) return false;
        for (int t = 0; t < n; ++t) if (at[t] < cnt[t] && ops[t][at[t]].call < firstRet) {
            u64 w = v;
            if (!apply(ops[t][at[t]], w)) continue;
            ++at[t]; bool const ok = go(at, w); --at[t];
            if (ok) return true;
        }
        dead.insert({ key, v });
        return false;
    }
};
void explain(u64 initial, u64 finalValue, int n) {
    sim::Oracle o;
    for (int t = 0; t < n; ++t) for (int i = 0; i < cnt[t]; ++i) for (int u = 0; u < t; ++u) for (int j = 0; j < cnt[u]; ++j) if (ops[t][i].call < ops[u][j].ret && ops[u][j].call < ops[t][i].ret) SIM_HIT(contended);
    Search s{ n, finalValue, {} }; int at[MAXT + 1] = {};
    if (s.go(at, initial)) return;
    char buf[1500]; int k = 0;
    static char const * const names[] = { "load", "any", "all", "none", "store", "exchange", "cas", "casWeak", "setAll", "fetchSetAll", "fetchSet", "unsetAll", "fetchUnsetAll", "fetchUnset", "fetchToggle" };
    for (int t = 0; t < n; ++t) for (int i = 0; i < cnt[t]; ++i) { Op const & x = ops[t][i]; if (k < 1400) k += snprintf(buf + k, sizeof buf - static_cast<size_t>(k), " t%d[%llu,%llu]%s(%llx,%llx)=%llx/%d", t, (unsigned long long) x.call, (unsigned long long) x.ret, names[x.k], (unsigned long long) x.arg, (unsigned long long) x.exp, (unsigned long long) x.got, x.ok); }
    sim::fail("not-linearizable", "no order of the operations explains their results: from %llx to %llx:%s", (unsigned long long) initial, (unsigned long long) finalValue, buf);
}

std::memory_order rmwOrder() { static std::memory_order const o[] = { std::memory_order_seq_cst, std::memory_order_relaxed, std::memory_order_acquire, std::memory_order_release, std::memory_order_acq_rel }; return o[sim::choose(5)]; }
std::memory_order loadOrder() { static std::memory_order const o[] = { std::memory_order_seq_cst, std::memory_order_relaxed, std::memory_order_acquire }; return o[sim::choose(3)]; }
std::memory_order storeOrder() { static std::memory_order const o[] = { std::memory_order_seq_cst, std::memory_order_relaxed, std::memory_order_release }; return o[sim::choose(3)]; }

template <typename T, typename U> void operate(AtomicFlags<T> & f, int t, u64 & seen) {
    using F = Flags<T>;
    if (cnt[t] == MAXOPS) return;
    Op o; o.k = static_cast<Kind>(sim::choose(NKIND)); bool const dflt = sim::flip();
    static u64 const args[] = { 1, 2, 3, 0x80, 0xff, 0, 0x55, 0x80000001, 0x8000000000000001ull, ~u64(0) };
    o.arg = static_cast<U>(args[sim::choose(10)]);
    o.exp = sim::flip() ? seen : static_cast<U>(args[sim::choose(6)]);
    U const a = static_cast<U>(o.arg);
    std::memory_order const m = o.k <= NONE ? loadOrder() : o.k == STORE || o.k == SET_ALL || o.k == UNSET_ALL ? storeOrder() : rmwOrder();
    std::memory_order const fm = m == std::memory_order_seq_cst ? loadOrder() : std::memory_order_relaxed; // failure of compare-exchange
    u32 const form = sim::choose(4);
    AtomicFlags<T> const & c = f;
    o.call = tick();
    switch (o.k) {
    case LOAD: o.got = dflt ? f.load() : c.load(m); break;
    case ANY: o.ok = dflt ? c.hasAnyOf(a) : c.hasAnyOf(a, m); break;
    case ALL: o.ok = dflt ? c.hasAllOf(a) : c.hasAllOf(a, m); break;
    case NONE: o.ok = dflt ? c.hasNoneOf(a) : c.hasNoneOf(a, m); break;
    case STORE: if (dflt) f.store(a); else f.store(a, m); break;
    case XCHG: { F const r(dflt ? f.exchange(a) : f.exchange(a, m)); o.got = r.load(); break; }
    case CAS_S: {
        if (form < 2) { U e = static_cast<U>(o.exp); o.ok = form ? f.compareExchangeStrong(e, a, m, fm) : dflt ? f.compareExchangeStrong(e, a) : f.compareExchangeStrong(e, a, m); o.got = e; }
        else { F e(static_cast<U>(o.exp)); o.ok = form == 3 ? f.compareExchangeStrong(e, a, m, fm) : dflt ? f.compareExchangeStrong(e, a) : f.compareExchangeStrong(e, a, m); o.got = e.load(); }
        if (o.ok) SIM_HIT(casOk); else SIM_HIT(casFail);
        break; }
    case CAS_W: {
        if (form < 2) { U e = static_cast<U>(o.exp); o.ok = form ? f.compareExchangeWeak(e, a, m, fm) : dflt ? f.compareExchangeWeak(e, a) : f.compareExchangeWeak(e, a, m); o.got = e; }
        else { F e(static_cast<U>(o.exp)); o.ok = form == 3 ? f.compareExchangeWeak(e, a, m, fm) : dflt ? f.compareExchangeWeak(e, a) : f.compareExchangeWeak(e, a, m); o.got = e.load(); }
        if (o.ok) SIM_HIT(casOk); else SIM_HIT(casFail);
        break; }
    case SET_ALL: if (dflt) f.setFlags(); else f.setFlags(m); break;
    case FSET_ALL: o.got = dflt ? f.fetchSetFlags() : f.fetchSetFlags(m); break;
    case FSET: o.got = dflt ? f.fetchSetFlags(a) : f.fetchSetFlags(a, m); break;
    case UNSET_ALL: if (dflt) f.unsetFlags(); else f.unsetFlags(m); break;
    case FUNSET_ALL: o.got = dflt ? f.fetchUnsetFlags() : f.fetchUnsetFlags(m); break;
    case FUNSET: o.got = dflt ? f.fetchUnsetFlags(a) : f.fetchUnsetFlags(a, m); break;
    default: o.got = dflt ? f.fetchToggleFlags(a) : f.fetchToggleFlags(a, m); break;
    }
    o.ret = tick();
    if (o.k != STORE && o.k != SET_ALL && o.k != UNSET_ALL && (o.k == LOAD || o.k > NONE)) seen = o.got;
    // Plain loads may lag behind on weakly ordered machines.
    if (!strict && o.k <= NONE) return;
    ops[t][cnt[t]++] = o;
}

template <typename T, typename U> void histories() {
    mask = static_cast<U>(~U(0));
    u64 const initial = sim::flip() ? 0 : static_cast<U>(0x8000000000000051ull ^ (sim::choose(2) * 0x41));
    AtomicFlags<T> f(static_cast<U>(initial));
    int const n = 1 + static_cast<int>(sim::choose(MAXT));
    {
        Threads ts;
        for (int t = 1; t <= n; ++t) { u32 const k = 1 + sim::choose(n > 2 ? 4 : MAXOPS); ts.add([&f, t, k, initial] { u64 seen = initial; for (u32 i = 0; i < k; ++i) { operate<T, U>(f, t, seen); dawdle(sim::choose(2)); } }); }
        u64 seen = initial; for (u32 k = sim::choose(4); k--;) operate<T, U>(f, 0, seen);
        ts.join();
    }
    explain(initial, f.load(), n + 1);
}

// Each producer announces its data by its own bit; observers look before they use it.
template <typename T, typename U> void publication() {
    AtomicFlags<T> f(U(0));
    enum { N = 3 }; Plain data[N]; int const np = 1 + static_cast<int>(sim::choose(N)), nc = 1 + static_cast<int>(sim::choose(2));
    bool const plainStore = np == 1 && sim::flip(); // stores only by a single producer
    Threads ts;
    for (int p = 0; p < np; ++p) {
        u32 const how = sim::choose(9), ord = sim::choose(4);
        ts.add([&f, &data, p, how, ord, plainStore] {
            static std::memory_order const rel[] = { std::memory_order_seq_cst, std::memory_order_release, std::memory_order_acq_rel, std::memory_order_seq_cst };
            std::memory_order const m = rel[ord]; U const bit = static_cast<U>(1u << p);
            if (sim::flip()) (void) f.fetchToggleFlags(static_cast<U>(0x40), std::memory_order_relaxed); // noise
            dawdle(sim::choose(5));
            data[p].set(100 + p);
            if (plainStore) { std::memory_order const sm = m == std::memory_order_acq_rel ? std::memory_order_release : m; if (how & 1) f.setFlags(sm); else if (ord == 3) f.store(bit); else f.store(bit, sm); return; }
            switch (how) {
            case 0: f.fetchSetFlags(bit, m); break;
            case 1: f.fetchToggleFlags(bit, m); break;
            case 2: f.fetchUnsetFlags(static_cast<U>(0x20), std::memory_order_relaxed); f.fetchSetFlags(bit); break;
            case 3: f.fetchToggleFlags(bit); break;
            default: {
                U e = f.load(std::memory_order_relaxed); Flags<T> g(e);
                for (;;) {
                    bool ok; U const want = static_cast<U>((how >= 7 ? g.load() : e) | bit);
                    if (how == 4) ok = f.compareExchangeWeak(e, want, m, std::memory_order_relaxed); else if (how == 5) ok = f.compareExchangeStrong(e, want, m, std::memory_order_relaxed);
                    else if (how == 6) ok = f.compareExchangeWeak(e, want); else if (how == 7) ok = f.compareExchangeStrong(g, want, m, std::memory_order_relaxed); else ok = f.compareExchangeWeak(g, want, m, std::memory_order_relaxed);
                    if (ok) break;
                }
                break; }
            }
            if (sim::flip()) (void) f.fetchUnsetFlags(static_cast<U>(0x40), std::memory_order_relaxed); // more noise: keeps the release sequence
        });
    }
    for (int c = 0; c < nc; ++c) {
        u32 const looks = 1 + sim::choose(4);
        ts.add([&f, &data, np, looks] {
            for (u32 i = 0; i < looks; ++i) {
                int const p = static_cast<int>(sim::choose(static_cast<u32>(np))); U const bit = static_cast<U>(1u << p); bool on = false, cas = false;
                std::memory_order const m = sim::flip() ? std::memory_order_acquire : std::memory_order_seq_cst; bool const dflt = sim::flip();
                switch (sim::choose(10)) {
                case 0: on = (dflt ? f.load() : f.load(m)) .hasAnyOf(bit); break;
                case 1: on = dflt ? f.hasAnyOf(bit) : f.hasAnyOf(bit, m); break;
                case 2: on = dflt ? f.hasAllOf(bit) : f.hasAllOf(bit, m); break;
                case 3: on = !(dflt ? f.hasNoneOf(bit) : f.hasNoneOf(bit, m)); break;
                case 4: on = (dflt ? f.fetchSetFlags(U(0)) : f.fetchSetFlags(U(0), m)).hasAllOf(bit); break;
                case 5: on = (dflt ? f.fetchToggleFlags(U(0)) : f.fetchToggleFlags(U(0), m)).hasAnyOf(bit); break;
                case 6: on = (dflt ? f.fetchUnsetFlags(U(0x20)) : f.fetchUnsetFlags(U(0x20), m)).hasAnyOf(bit); break;
                case 7: { cas = true; U e = 0x10; bool const ok = dflt ? f.compareExchangeStrong(e, U(0x10)) : f.compareExchangeStrong(e, U(0x10), std::memory_order_acq_rel, m == std::memory_order_seq_cst ? std::memory_order_acquire : m); on = !ok && (e & bit); break; }
                case 8: { cas = true; Flags<T> e(U(0x10)); bool const ok = dflt ? f.compareExchangeStrong(e, U(0x10)) : f.compareExchangeStrong(e, U(0x10), m, std::memory_order_acquire); on = !ok && e.hasAnyOf(bit); break; }
                default: { cas = true; U e = 0x10; bool const ok = dflt ? f.compareExchangeWeak(e, U(0x10)) : f.compareExchangeWeak(e, U(0x10), m, std::memory_order_acquire); on = !ok && (e & bit); break; }
                }
                if (on) { SIM_HIT(published); if (cas) SIM_HIT(publishedCas); SIM_CHECK(data[p].get() == 100 + p, "not-published", "producer %d's flag is set, its data are not there", p); }
                else SIM_HIT(notYet);
                dawdle(sim::choose(3));
            }
        });
    }
    ts.join();
    U all = 0; for (int p = 0; p < np; ++p) all = static_cast<U>(all | (1u << p));
    SIM_CHECK(f.hasAllOf(all), "lost", "a flag that was set is missing: %llx", (unsigned long long) f.load().load());
    f.fetchUnsetFlags(); SIM_CHECK(f.hasNoneOf(static_cast<U>(~U(0))), "lost", "a flag is left");
}

// One thread hands data over by any operation that changes a flag; one thread
// takes them after any operation that shows the change.
template <typename T, typename U> void handover() {
    using F = Flags<T>;
    static u64 const starts[] = { 0, ~u64(0), 0x51, 0xaa };
    U const v0 = static_cast<U>(starts[sim::choose(4)]), bit = static_cast<U>(1u << sim::choose(8)), v1 = static_cast<U>(v0 ^ bit), never = 0x1c; // never: not a value the word takes
    bool const up = (v1 & bit) != 0;
    AtomicFlags<T> f(v0); Plain data;
    u32 const how = sim::choose(15), ord = sim::choose(3), wait = sim::choose(4);
    Threads ts;
    ts.add([&f, &data, how, ord, wait, v1, v0, bit, up] {
        dawdle(wait);
        data.set(7);
        bool const d = ord == 0; std::memory_order const m = ord == 1 ? std::memory_order_release : std::memory_order_acq_rel, s = std::memory_order_release, r = std::memory_order_relaxed;
        switch (how) {
        case 0: if (d) f.store(v1); else f.store(v1, s); break;
        case 1: if (d) f.exchange(v1); else f.exchange(v1, m); break;
        case 2: if (up) { if (d) f.setFlags(); else f.setFlags(s); } else { if (d) f.unsetFlags(); else f.unsetFlags(s); } break;
        case 3: if (up) { if (d) f.fetchSetFlags(); else f.fetchSetFlags(m); } else { if (d) f.fetchUnsetFlags(); else f.fetchUnsetFlags(m); } break;
        case 4: if (up) { if (d) f.fetchSetFlags(bit); else f.fetchSetFlags(bit, m); } else { if (d) f.fetchUnsetFlags(bit); else f.fetchUnsetFlags(bit, m); } break;
        case 5: case 6: if (d) f.fetchToggleFlags(bit); else f.fetchToggleFlags(bit, m); break;
        default: {
            U e = v0; F g(v0); bool ok = false;
            while (!ok) switch (how) {
                case 7: ok = d ? f.compareExchangeStrong(e, v1) : f.compareExchangeStrong(e, v1, m); break;
                case 8: ok = f.compareExchangeStrong(e, v1, d ? std::memory_order_seq_cst : m, r); break;
                case 9: ok = d ? f.compareExchangeStrong(g, v1) : f.compareExchangeStrong(g, v1, m); break;
                case 10: ok = f.compareExchangeStrong(g, v1, d ? std::memory_order_seq_cst : m, r); break;
                case 11: ok = d ? f.compareExchangeWeak(e, v1) : f.compareExchangeWeak(e, v1, m); break;
                case 12: ok = f.compareExchangeWeak(e, v1, d ? std::memory_order_seq_cst : m, r); break;
                case 13: ok = d ? f.compareExchangeWeak(g, v1) : f.compareExchangeWeak(g, v1, m); break;
                default: ok = f.compareExchangeWeak(g, v1, d ? std::memory_order_seq_cst : m, r); break;
            }
        } }
    });
    bool seen = false;
    for (u32 looks = 1 + sim::choose(6); looks-- && !seen;) {
        bool const d = sim::flip(), last = !looks; AtomicFlags<T> const & c = f; U got = v0; bool failed = false;
        std::memory_order const l = std::memory_order_acquire, m = sim::flip() ? std::memory_order_acquire : std::memory_order_acq_rel;
        u32 const what = sim::choose(last ? 21 : 15);
        auto take = [&](U e, bool strong, u32 form) { // to a value the word never takes; from e
            F g(e); bool ok;
            switch (form) {
            case 0: ok = strong ? (d ? f.compareExchangeStrong(e, never) : f.compareExchangeStrong(e, never, m)) : d ? f.compareExchangeWeak(e, never) : f.compareExchangeWeak(e, never, m); break;
            case 1: ok = strong ? f.compareExchangeStrong(e, never, d ? std::memory_order_seq_cst : m, l) : f.compareExchangeWeak(e, never, d ? std::memory_order_seq_cst : m, l); break;
            case 2: ok = strong ? (d ? f.compareExchangeStrong(g, never) : f.compareExchangeStrong(g, never, m)) : d ? f.compareExchangeWeak(g, never) : f.compareExchangeWeak(g, never, m); e = g.load(); break;
            default: ok = strong ? f.compareExchangeStrong(g, never, d ? std::memory_order_seq_cst : m, l) : f.compareExchangeWeak(g, never, d ? std::memory_order_seq_cst : m, l); e = g.load(); break;
            }
            failed = !ok;
            return e;
        };
        switch (what) {
        case 0: case 1: got = (d ? c.load() : c.load(l)).load(); break;
        case 2: got = (d ? c.hasAnyOf(bit) : c.hasAnyOf(bit, l)) ? bit : U(0); break;
        case 3: got = (d ? c.hasAllOf(bit) : c.hasAllOf(bit, l)) ? bit : U(0); break;
        case 4: got = (d ? c.hasNoneOf(bit) : c.hasNoneOf(bit, l)) ? U(0) : bit; break;
        case 5: got = (d ? f.fetchSetFlags(U(0)) : f.fetchSetFlags(U(0), m)).load(); break;
        case 6: got = (d ? f.fetchUnsetFlags(U(0)) : f.fetchUnsetFlags(U(0), m)).load(); break;
        case 7: got = (d ? f.fetchToggleFlags(U(0)) : f.fetchToggleFlags(U(0), m)).load(); break;
        case 8: case 9: case 10: case 11: case 12: case 13: case 14: got = take(never, what & 1, what & 2 ? sim::choose(4) : 2 * sim::choose(2)); break;
        case 15: got = (d ? f.exchange(never) : f.exchange(never, m)).load(); break;
        case 16: got = (d ? f.fetchSetFlags() : f.fetchSetFlags(m)).load(); break;
        case 17: got = (d ? f.fetchUnsetFlags() : f.fetchUnsetFlags(m)).load(); break;
        default: got = take(v1, what & 1, sim::choose(4)); break;
        }
        seen = ((got ^ v0) & bit) != 0;
        if (seen) {
            SIM_HIT(handed); if (what > 7 && what < 15) SIM_HIT(handedCasFail); if (what > 17 && !failed) SIM_HIT(handedCas); if (what > 14 && what < 18) SIM_HIT(handedLast);
            SIM_CHECK(data.get() == 7, "not-published", "the flag has changed, the data are not there");
        }
        dawdle(sim::choose(2));
    }
    ts.join();
}

// The words themselves, as used between the atomic operations.
template <typename T, typename U> void words() {
    SIM_HIT(plainFlags);
    U v = static_cast<U>(sim::choose(256)); Flags<T> f(v);
    for (u32 k = 1 + sim::choose(10); k--;) {
        U const a = static_cast<U>(sim::choose(256) * 0x0101010101010101ull); U old = v;
        Flags<T> * r = nullptr; // in-place operations give the word itself
        switch (sim::choose(15)) {
        case 0: r = &(f |= a); v = static_cast<U>(v | a); break; case 1: r = &(f &= a); v = static_cast<U>(v & a); break; case 2: r = &(f ^= a); v = static_cast<U>(v ^ a); break;
        case 3: r = &f.setFlags(); v = static_cast<U>(~U(0)); break; case 4: r = &f.unsetFlags(); v = 0; break; case 5: r = &f.toggleFlags(); v = static_cast<U>(~v); break;
        case 6: r = &f.setFlags(a); v = static_cast<U>(v | a); break; case 7: r = &f.unsetFlags(a); v = static_cast<U>(v & ~a); break; case 8: r = &f.toggleFlags(a); v = static_cast<U>(v ^ a); break;
        case 9: { Flags<T> const x(f.exchange(a)); SIM_CHECK(x.load() == old, "word", "exchange() returned something else"); v = a; break; }
        case 10: r = &f.store(a); v = a; break; case 11: r = &(f = a); v = a; break;
        case 12: SIM_CHECK((f & a).load() == static_cast<U>(v & a), "word", "wrong conjunction"); break;
        case 13: SIM_CHECK((f | a).load() == static_cast<U>(v | a), "word", "wrong disjunction"); break;
        default: SIM_CHECK((f ^ a).load() == static_cast<U>(v ^ a), "word", "wrong difference"); break;
        }
        SIM_CHECK(!r || r == &f, "word", "an operation in place gave another word");
        SIM_CHECK(f.load() == v && static_cast<U>(f) == v, "word", "%llx instead of %llx", (unsigned long long) f.load(), (unsigned long long) v);
        SIM_CHECK(f.hasAnyOf(a) == ((v & a) != 0) && f.hasAllOf(a) == ((v & a) == a) && f.hasNoneOf(a) == ((v & a) == 0), "word", "wrong answer for %llx in %llx", (unsigned long long) a, (unsigned long long) v);
    }
}
} // namespace

extern "C" void sim_setup() { strict = sim::flip(); if (strict) sim::config.staleReads = false; }
extern "C" void sim_main() {
    sim::nontrivial();
    switch (sim::choose(13)) {
    case 9: handover<Byte, std::uint8_t>(); break;
    case 10: handover<Word, std::uint32_t>(); break;
    case 11: handover<Long, std::uint64_t>(); break;
    case 12: handover<std::uint16_t, std::uint16_t>(); break;
    case 0: case 1: histories<Byte, std::uint8_t>(); break;
    case 2: histories<Word, std::uint32_t>(); break;
    case 3: histories<Long, std::uint64_t>(); break;
    case 4: histories<std::uint16_t, std::uint16_t>(); break;
    case 5: case 6: publication<Byte, std::uint8_t>(); break;
    case 7: publication<Long, std::uint64_t>(); break;
    default: if (sim::flip()) words<Byte, std::uint8_t>(); else words<std::uint64_t, std::uint64_t>();
    }
}
