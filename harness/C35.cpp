// C35: scope exits, nested exceptions and exceptions with messages.
#include "common.h"
#include <iostream>
#include <sstream>
#include <string.h>
#include <sharemind/ScopeExit.h>
#include <sharemind/Exception.h>
#include <sharemind/ExceptionMacros.h>
#include <sharemind/detail/ExceptionMacros.h>
#include <sharemind/ThrowNested.h>
#include <sharemind/ThrowWithNested.h>
#include <sharemind/DebugVerboseHandlers.h>
extern "C" char const * const sim_property = "C35";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(noMem, "memory ran out");
SIM_PROBE_DEF(guardFailed, "creating a scope exit failed");
SIM_PROBE_DEF(byException, "a scope was left by an exception");
SIM_PROBE_DEF(byReturn, "a scope was left by returning");
SIM_PROBE_DEF(actionThrew, "a scope exit action threw");
SIM_PROBE_DEF(chain, "three or more exceptions were nested");
SIM_PROBE_DEF(chainCut, "copying an exception of a chain failed");
SIM_PROBE_DEF(copyThrew, "the copy constructor of an exception threw");
SIM_PROBE_DEF(rethrown, "the current exception was rethrown");
SIM_PROBE_DEF(shared, "several threads looked into one exception");
SIM_PROBE_DEF(message, "several threads copied one exception with a message");
SIM_PROBE_DEF(messageFailed, "creating an exception with a message failed");
SIM_PROBE_DEF(printed, "a chain of exceptions was printed");

// ---- scope exits --------------------------------------------------------------------
enum { DEPTH = 5 };
struct Scopes {
    // 0: entered, 1: inside, 2: inner object destroyed, 3: action done, 4: left
    int state[DEPTH]; bool made[DEPTH];
    u32 depth; int exits[DEPTH]; bool throwsAction[DEPTH]; int thrown = 0;
};
struct Trail {
    int * s; bool * made; int from, to;
    ~Trail() {
        sim::Oracle o;
        if (to == 4 && !*made) { SIM_CHECK(*s == 0, "not-created", "the action of a scope exit which could not be created has run"); *s = 4; return; }
        SIM_CHECK(*s == from, "order", "an object of a scope is destroyed in state %d instead of %d", *s, from); *s = to;
    }
};
void action(Scopes * s, int d, int payload, int plain) {
    SIM_CHECK(plain == d + 60, "captured", "a scope exit sees %d instead of %d", plain, d + 60);
    SIM_CHECK(payload == d + 50, "captured", "a scope exit sees %d instead of %d", payload, d + 50);
    { sim::Oracle o; SIM_CHECK(s->made[d], "not-created", "the action of a scope exit has run before it was created"); SIM_CHECK(s->state[d] == 2, "order", "the action of a scope exit runs in state %d", s->state[d]); s->state[d] = 3; }
    if (s->throwsAction[d] && !std::uncaught_exception()) { SIM_HIT(actionThrew); { sim::Oracle o; s->thrown = 100 + d; } throw UserError{100 + d}; }
}
void level(Scopes * const s, int const d) {
    Trail const outer = { &s->state[d], &s->made[d], 3, 4 }; static_cast<void>(outer);
    NObj payload(d + 50); int plain = d + 60;
    sim::AllocFaults * f = nullptr; alignas(sim::AllocFaults) char mem[sizeof(sim::AllocFaults)];
    struct Off { sim::AllocFaults *& f; ~Off() { if (f) f->~AllocFaults(); f = nullptr; } };
    Off off = { f }; f = new (mem) sim::AllocFaults;
    SHAREMIND_SCOPE_EXIT(action(s, d, payload.value(), plain));
    f->~AllocFaults(); f = nullptr;
    { sim::Oracle o; s->made[d] = true; s->state[d] = 1; }
    SIM_CHECK(payload.value() == d + 50 && plain == d + 60, "captured", "creating a scope exit changed what it captured");
    payload = NObj(0); plain = 0; // the guard sees what it captured
    Trail const inner = { &s->state[d], &s->made[d], 1, 2 }; static_cast<void>(inner);
    dawdle(sim::choose(3));
    if (s->exits[d] == 1) { SIM_HIT(byReturn); return; }
    if (static_cast<u32>(d) + 1 < s->depth) level(s, d + 1);
    if (s->exits[d] == 2) { SIM_HIT(byException); { sim::Oracle o; s->thrown = d; } throw UserError{d}; }
}
void scopes() {
    std::unique_ptr<Scopes> s(new Scopes);
    s->depth = 1 + sim::choose(DEPTH);
    for (int d = 0; d < DEPTH; ++d) { s->state[d] = -1; s->made[d] = false; s->exits[d] = static_cast<int>(sim::choose(3)); s->throwsAction[d] = sim::chance(1, 4); }
    for (u32 d = 0; d < s->depth; ++d) s->state[d] = 0;
    s->thrown = -1;
    u64 const faults = sim::allocFaultsFired();
    bool clean = false;
    try { level(s.get(), 0); clean = true; }
    catch (UserError const & e) { SIM_CHECK(e.id == s->thrown, "wrong-exception", "exception %d was caught, %d was thrown", e.id, s->thrown); }
    catch (std::bad_alloc const &) { SIM_HIT(guardFailed); SIM_CHECK(sim::allocFaultsFired() > faults, "error-kind", "bad_alloc without a failed allocation"); }
    SIM_CHECK(!clean || s->thrown < 0, "lost-exception", "an exception got lost");
    bool reached = true;
    for (u32 d = 0; d < s->depth; ++d) {
        SIM_CHECK(s->state[d] == (reached ? 4 : 0), "not-run", "the scope of level %u was left in state %d", d, s->state[d]);
        if (!s->made[d] || s->exits[d] == 1) reached = false;
    }
}

// ---- nested exceptions ------------------------------------------------------------------
template <int> struct Ex {
    NObj o; bool breaks = false; // copying may fail
    explicit Ex(int v) : o(v) {}
    Ex(Ex const & c) : o((c.mayCopy(), c.o)), breaks(c.breaks) {}
    Ex(Ex && m) noexcept : o(std::move(m.o)), breaks(m.breaks) {}
    void mayCopy() const { if (breaks) { SIM_HIT(copyThrew); throw UserError{o.value()}; } }
};
struct StdEx: Exception { NObj o; explicit StdEx(int v) : o(v) {} StdEx(StdEx const &) = default; StdEx(StdEx &&) = default; char const * what() const noexcept override { return "std-ex"; } };
// The chain of exceptions, from the outermost; -1 is bad_alloc.
enum { MAXCHAIN = 8 };
struct Chain { int n = 0, v[MAXCHAIN]; void add(int x) { SIM_CHECK(n < MAXCHAIN, "wrong-chain", "the chain of exceptions does not end"); v[n++] = x; } };
void walk(std::exception_ptr const & p, Chain & c);
template <typename E> void nested(E const & e, Chain & c) {
    if (auto const n = dynamic_cast<std::nested_exception const *>(std::addressof(e))) if (n->nested_ptr()) walk(n->nested_ptr(), c);
}
struct Poly { virtual ~Poly() {} };
template <int I> struct PEx: Poly, Ex<I> { explicit PEx(int v) : Ex<I>(v) {} };
void walk(std::exception_ptr const & p, Chain & c) {
    try { std::rethrow_exception(p); }
    catch (PEx<0> const & e) { c.add(e.o.value()); nested(e, c); }
    catch (PEx<1> const & e) { c.add(e.o.value()); nested(e, c); }
    catch (PEx<2> const & e) { c.add(e.o.value()); nested(e, c); }
    catch (StdEx const & e) { c.add(e.o.value()); nested(e, c); }
    catch (std::bad_alloc const & e) { SIM_HIT(noMem); c.add(-1); nested(e, c); }
    catch (UserError const & e) { c.add(-100 - e.id); }
    catch (int i) { c.add(i); }
}
std::exception_ptr makeChain(int & n) {
    u32 const kind = sim::choose(11); bool const faults = sim::flip();
    std::exception_ptr r;
    PEx<0> a(1); PEx<1> b(2); PEx<2> c(3); StdEx d(4);
    if (sim::chance(1, 6)) a.breaks = true;
    if (sim::chance(1, 6)) b.breaks = true;
    if (sim::chance(1, 6)) c.breaks = true;
    auto const go = [&] {
        switch (kind) {
        case 0: n = 1; throwNested(a);
        case 1: n = 2; throwNested(std::move(a), b);
        case 2: n = 3; throwNested(a, b, std::move(c));
        case 3: n = 4; throwNested(a, std::move(b), c, d);
        case 4: n = 1; try { throw 1; } catch (...) { SIM_HIT(rethrown); throwWithNested(); }
        case 5: n = 2; try { throw 1; } catch (...) { throwWithNested(b); }
        case 6: n = 4; try { throw 1; } catch (...) { throwWithNested(b, std::move(c), d); }
        case 7: n = 4; try { throwNested(a, b); } catch (...) { throwWithNested(c, std::move(d)); }
        case 8: n = 1; try { throw 7; } catch (...) { throwNested(a); }
        case 9: n = 2; try { throw 7; } catch (...) { throwNested(std::move(a), b); }
        default: n = 4; throwNested(1, std::move(b), std::move(c), std::move(d));
        }
    };
    try { if (faults) { sim::AllocFaults f; go(); } else go(); }
    catch (...) { r = std::current_exception(); }
    SIM_CHECK(r, "no-exception", "nothing was thrown");
    // Exceptions which were not moved into the call are left as they were.
    static unsigned const moved[] = { 0, 1, 4, 2, 0, 0, 4, 8, 0, 1, 14 };
    unsigned const m = moved[kind];
    SIM_CHECK(((m & 1) || a.o.value() == 1) && ((m & 2) || b.o.value() == 2) && ((m & 4) || c.o.value() == 3) && ((m & 8) || d.o.value() == 4), "argument-changed", "an exception passed by kind %u of call was changed", kind);
    return r;
}
void checkChain(Chain const & c, int n, bool faults) {
    int want = n;
    for (int i = 0; i < c.n; ++i) {
        if (c.v[i] == -1) { SIM_HIT(chainCut); SIM_CHECK(faults, "error-kind", "bad_alloc without a failed allocation"); SIM_CHECK(i + 1 == c.n, "wrong-chain", "something is nested in a failure to copy an exception"); return; }
        if (c.v[i] == -100 - want) { SIM_HIT(chainCut); SIM_CHECK(i + 1 == c.n, "wrong-chain", "something is nested in a failure to copy an exception"); return; }
        SIM_CHECK(c.v[i] == want, "wrong-chain", "exception %d of the chain of %d is %d instead of %d", i, n, c.v[i], want);
        --want;
    }
    SIM_CHECK(want == 0, "wrong-chain", "the chain of %d exceptions ends after %d", n, c.n);
    if (n > 2) SIM_HIT(chain);
}
void chains() {
    int n = 0; u64 const before = sim::allocFaultsFired();
    std::exception_ptr p = makeChain(n);
    bool const faults = sim::allocFaultsFired() > before;
    if (sim::flip()) {
        SIM_HIT(shared);
        Threads ts;
        u32 const k = 1 + sim::choose(2);
        for (u32 i = 0; i < k; ++i) ts.add([q = p, n, faults]() mutable { Chain c; walk(q, c); dawdle(sim::choose(3)); q = nullptr; checkChain(c, n, faults); });
        if (sim::flip()) p = nullptr;
        else { Chain c; walk(p, c); checkChain(c, n, faults); }
        ts.join();
    } else { Chain c; walk(p, c); checkChain(c, n, faults); }
}

// ---- exceptions with messages -----------------------------------------------------------
SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_STDSTRING(Exception, TextEx);
SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_MSG(Exception, ConstEx, "constant message");
SHAREMIND_DECLARE_EXCEPTION_NOINLINE(std::exception, PlainEx);
SHAREMIND_DEFINE_EXCEPTION_NOINLINE(std::exception,, PlainEx);
SHAREMIND_DECLARE_EXCEPTION_CONST_STDSTRING_NOINLINE(PlainEx, TextEx2);
SHAREMIND_DEFINE_EXCEPTION_CONST_STDSTRING_NOINLINE(PlainEx,, TextEx2);
SHAREMIND_DECLARE_EXCEPTION_CONST_MSG_NOINLINE(PlainEx, ConstEx2);
SHAREMIND_DEFINE_EXCEPTION_CONST_MSG_NOINLINE(PlainEx,, ConstEx2, "another message");
void text(char * out, u32 v) { u32 const n = 1 + v % 40; for (u32 i = 0; i < n; ++i) out[i] = static_cast<char>('a' + (v + i) % 26); out[n] = 0; }
template <typename T> void user(T const & from, u32 v) {
    char want[64]; text(want, v);
    u32 const other = sim::choose(200); char wantOther[64]; text(wantOther, other);
    dawdle(sim::choose(3));
    u64 const faults = sim::allocFaultsFired();
    sim::AllocFaults f;
    T copy(from);
    SIM_CHECK(!strcmp(copy.what(), want), "wrong-message", "a copy says %s instead of %s", copy.what(), want);
    try {
        T t((std::string(wantOther)));
        if (sim::flip()) { copy = t; dawdle(sim::choose(2)); SIM_CHECK(!strcmp(copy.what(), wantOther), "wrong-message", "an assigned exception says %s instead of %s", copy.what(), wantOther); copy = from; }
        SIM_CHECK(!strcmp(t.what(), wantOther), "wrong-message", "an exception says %s instead of %s", t.what(), wantOther);
    } catch (std::bad_alloc const &) { SIM_HIT(messageFailed); SIM_CHECK(sim::allocFaultsFired() > faults, "error-kind", "bad_alloc without a failed allocation"); }
    try { throw copy; } catch (std::exception const & e) { SIM_CHECK(!strcmp(e.what(), want), "wrong-message", "a caught exception says %s instead of %s", e.what(), want); }
}
template <typename T> void messages() {
    SIM_HIT(message);
    u32 const v = sim::choose(1000); char want[64]; text(want, v);
    std::unique_ptr<T> e(new T(std::string(want)));
    Threads ts;
    u32 const k = 1 + sim::choose(2);
    for (u32 i = 0; i < k; ++i) ts.add([c = *e, v] { user(c, v); });
    if (sim::flip()) user(*e, v);
    e.reset();
    ts.join();
    try { if (sim::flip()) throw ConstEx(); throw ConstEx2(); }
    catch (ConstEx const & c) { ConstEx d(c); d = c; SIM_CHECK(!strcmp(d.what(), "constant message"), "wrong-message", "%s", d.what()); }
    catch (PlainEx const & c) { SIM_CHECK(!strcmp(c.what(), "another message"), "wrong-message", "%s", c.what()); }
}
void errnos() {
    static int const all[] = { 0, 1, 2, 4, 11, 12, 22, 24, 28, 32, 110, 133, 134, 4095, -1, 99999 };
    int const e = sim::flip() ? all[sim::choose(16)] : static_cast<int>(sim::choose(140));
    ErrnoException const x(e); ErrnoException const y(x);
    char buf[1024]; char const * want; { sim::Oracle o; want = strerror_r(e, buf, sizeof buf); }
    SIM_CHECK(y.errorNumber() == e && x.errorNumber() == e, "wrong-errno", "%d instead of %d", y.errorNumber(), e);
    SIM_CHECK(!strcmp(x.what(), want) && !strcmp(y.what(), want), "wrong-message", "error %d says %s instead of %s", e, y.what(), want);
}

// ---- printing ---------------------------------------------------------------------------
void print() {
    SIM_HIT(printed);
    u32 const n = 1 + sim::choose(4); u32 v[4]; for (u32 & x : v) x = sim::choose(1000);
    bool const foreign = sim::chance(1, 3); bool const hollow = sim::chance(1, 4);
    std::exception_ptr p;
    auto const mk = [&](u32 i) { char t[64]; text(t, v[i]); return TextEx(std::string(t)); };
    try {
        if (foreign) throw 1;
        if (hollow) std::throw_with_nested(mk(0));
        throw mk(0);
    } catch (...) { p = std::current_exception(); }
    for (u32 i = 1; i < n; ++i) try { std::rethrow_exception(p); } catch (...) { try { throwWithNested(mk(i)); } catch (...) { p = std::current_exception(); } }
    std::ostringstream oss;
    verbosePrintException(p, oss);
    std::string const got = oss.str();
    // Lines "k: [type] message", from the outermost to the innermost.
    std::istringstream in(got); std::string line; u32 k = 0;
    for (u32 i = n; i--;) {
        char t[64]; text(t, v[i]); ++k;
        SIM_CHECK(static_cast<bool>(std::getline(in, line)), "not-printed", "exception %u of %u is missing", k, n);
        char head[16]; snprintf(head, sizeof head, "%u: [", k);
        SIM_CHECK(line.compare(0, strlen(head), head) == 0, "not-printed", "line %u is %s", k, line.c_str());
        if (i || !foreign) { std::size_t const at = line.size() - std::min(line.size(), strlen(t)); SIM_CHECK(line.compare(at, std::string::npos, t) == 0, "not-printed", "line %u is %s without %s", k, line.c_str(), t); }
    }
    bool const more = static_cast<bool>(std::getline(in, line));
    SIM_CHECK(more == foreign, "not-printed", "%s", got.c_str());
}
void handlers() { // verbose handlers are in force only inside their scope
    auto const t = std::get_terminate(); auto const u = std::get_unexpected();
    for (u32 n = 1 + sim::choose(2); n--;) {
        { ScopedDebugVerboseHandlers const h; static_cast<void>(h);
          bool const in = std::get_terminate() == &verboseTerminateHandler && std::get_unexpected() == &verboseUnexpectedHandler;
          { ScopedDebugVerboseHandlers const h2; static_cast<void>(h2); }
          bool const still = std::get_terminate() == &verboseTerminateHandler && std::get_unexpected() == &verboseUnexpectedHandler;
          std::set_terminate(t); std::set_unexpected(u);
          SIM_CHECK(in && still, "handlers", "the verbose handlers are not in force inside the scope"); }
        bool const restored = std::get_terminate() == t && std::get_unexpected() == u;
        std::set_terminate(t); std::set_unexpected(u);
        SIM_CHECK(restored, "handlers", "the handlers before the scope are not in force after it");
    }
}
void part() {
    switch (sim::choose(8)) {
    case 0: case 1: case 2: scopes(); break;
    case 3: case 4: chains(); break;
    case 5: if (sim::flip()) messages<TextEx>(); else messages<TextEx2>(); break;
    case 6: errnos(); break;
    default: print();
    }
}
} // namespace

extern "C" void sim_main() {
    sim::nontrivial();
    if (sim::chance(1, 8)) handlers();
    { Threads ts; if (sim::flip()) ts.add([] { part(); }); for (u32 n = 1 + sim::choose(3); n--;) part(); ts.join(); }
    SIM_CHECK(NObj::live == 0, "leak", "%d objects alive", NObj::live);
}
