// C38: wide unsigned integers against a model of 2048 bits.
#include "common.h"
#include <ostream>
#include <sstream>
#include <sharemind/IsPowerOfTwo.h>
#include <sharemind/integer_demotion.h>
#include <sharemind/uint128_t.h>
#include <sharemind/uint_t.h>
extern "C" char const * const sim_property = "C38";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(carried, "an addition or multiplication overflowed");
SIM_PROBE_DEF(borrowed, "a subtraction went below zero");
SIM_PROBE_DEF(divided, "a number was divided by one of more than half of its width");
SIM_PROBE_DEF(byZero, "a division by zero was refused");
SIM_PROBE_DEF(cut, "a conversion to a narrower type dropped bits");
SIM_PROBE_DEF(printed, "a number was printed");
SIM_PROBE_DEF(wide, "a number of more than 765 bits was printed");
SIM_PROBE_DEF(streamThrew, "the stream threw while a number was printed");
SIM_PROBE_DEF(partly, "the stream took a part of a number only");
SIM_PROBE_DEF(noMemory, "memory ran out while a number was printed");
SIM_PROBE_DEF(genThrew, "a random source threw");
SIM_PROBE_DEF(sharedUse, "several threads calculated with the same numbers");

// Numbers of the model: of 2048 bits, calculated with bit by bit or word by word.
#define NOSAN __attribute__((no_sanitize_thread))
struct M {
    static constexpr int n = 64; std::uint32_t w[n];
    NOSAN M(std::uint64_t v = 0) { for (int i = 0; i < n; ++i) w[i] = 0; w[0] = static_cast<std::uint32_t>(v); w[1] = static_cast<std::uint32_t>(v >> 32); }
    NOSAN M(M const & o) { for (int i = 0; i < n; ++i) w[i] = o.w[i]; }
    NOSAN M & operator=(M const & o) { for (int i = 0; i < n; ++i) w[i] = o.w[i]; return *this; }
    NOSAN int top() const { int i = n; while (i > 0 && !w[i - 1]) --i; return i; } // words in use
    NOSAN bool bit(unsigned i) const { return w[i / 32] >> (i % 32) & 1u; }
    NOSAN void bit(unsigned i, bool v) { if (v) w[i / 32] |= 1u << (i % 32); else w[i / 32] &= ~(1u << (i % 32)); }
    NOSAN int compare(M const & o) const { for (int i = n; i-- > 0;) if (w[i] != o.w[i]) return w[i] < o.w[i] ? -1 : 1; return 0; }
    NOSAN M & operator+=(M const & o) { std::uint64_t c = 0; for (int i = 0; i < n; ++i) { c += std::uint64_t(w[i]) + o.w[i]; w[i] = static_cast<std::uint32_t>(c); c >>= 32; } return *this; }
    NOSAN M & operator-=(M const & o) { std::int64_t c = 0; for (int i = 0; i < n; ++i) { c += std::int64_t(w[i]) - std::int64_t(o.w[i]); w[i] = static_cast<std::uint32_t>(c); c = c < 0 ? -1 : 0; } return *this; }
    NOSAN M & operator&=(M const & o) { for (int i = 0; i < n; ++i) w[i] &= o.w[i]; return *this; }
    NOSAN M & operator|=(M const & o) { for (int i = 0; i < n; ++i) w[i] |= o.w[i]; return *this; }
    NOSAN M & operator^=(M const & o) { for (int i = 0; i < n; ++i) w[i] ^= o.w[i]; return *this; }
    NOSAN M & operator<<=(unsigned k) { int const q = static_cast<int>(k / 32), r = static_cast<int>(k % 32); for (int i = n; i-- > 0;) { std::uint64_t v = i >= q ? std::uint64_t(w[i - q]) << 32 : 0; if (i > q) v |= w[i - q - 1]; w[i] = static_cast<std::uint32_t>(v >> (32 - r)); } return *this; }
    NOSAN M & operator>>=(unsigned k) { int const q = static_cast<int>(k / 32), r = static_cast<int>(k % 32); for (int i = 0; i < n; ++i) { std::uint64_t v = i + q < n ? w[i + q] : 0u; if (i + q + 1 < n) v |= std::uint64_t(w[i + q + 1]) << 32; w[i] = static_cast<std::uint32_t>(v >> r); } return *this; }
    NOSAN M & operator*=(M const & o) {
        M r; int const ta = top(), tb = o.top();
        for (int i = 0; i < ta; ++i) { std::uint64_t c = 0; for (int j = 0; i + j < n && (j < tb || c); ++j) { c += std::uint64_t(w[i]) * o.w[j] + r.w[i + j]; r.w[i + j] = static_cast<std::uint32_t>(c); c >>= 32; } }
        return *this = r;
    }
    NOSAN static void divide(M const & x, M const & y, M & q, M & r) {
        M qq, rr;
        if (y.top() <= 1) { std::uint64_t c = 0; for (int i = n; i-- > 0;) { c = c << 32 | x.w[i]; qq.w[i] = static_cast<std::uint32_t>(c / y.w[0]); c %= y.w[0]; } rr = M(c); }
        else for (int i = 32 * x.top(); i-- > 0;) { rr <<= 1; if (x.bit(static_cast<unsigned>(i))) rr.w[0] |= 1u; if (rr.compare(y) >= 0) { rr -= y; qq.bit(static_cast<unsigned>(i), true); } }
        q = qq; r = rr;
    }
    M & operator/=(M const & o) { M r; divide(*this, o, *this, r); return *this; }
    M & operator%=(M const & o) { M q; divide(*this, o, q, *this); return *this; }
};
#define OP(op) M operator op(M a, M const & b) { a op##= b; return a; }
OP(+) OP(-) OP(*) OP(/) OP(%) OP(&) OP(|) OP(^)
M operator<<(M a, unsigned k) { a <<= k; return a; }
M operator>>(M a, unsigned k) { a >>= k; return a; }
bool operator==(M const & a, M const & b) { return a.compare(b) == 0; }
bool operator!=(M const & a, M const & b) { return a.compare(b) != 0; }
bool operator<(M const & a, M const & b) { return a.compare(b) < 0; }
bool operator>(M const & a, M const & b) { return a.compare(b) > 0; }
bool operator<=(M const & a, M const & b) { return a.compare(b) <= 0; }
bool operator>=(M const & a, M const & b) { return a.compare(b) >= 0; }
std::uint64_t low(M const & m) { return std::uint64_t(m.w[1]) << 32 | m.w[0]; }
M pow2(unsigned n) { M m; m.bit(n, true); return m; }

M randomModel(unsigned bits) {
    M m(0);
    switch (sim::choose(8)) {
    case 0: m = sim::choose(4); break;
    case 1: m = pow2(bits) - 1 - sim::choose(3); break;
    case 2: m = pow2(sim::choose(bits)); break;
    case 3: m = pow2(sim::choose(bits)) - 1; break;
    case 4: m = pow2(sim::choose(bits)) + pow2(sim::choose(bits)) - 1; break;
    default: {
        unsigned const n = sim::flip() ? bits : 1 + sim::choose(bits);
        for (unsigned i = 0; i < n; i += 16) { m <<= 16; m |= sim::chance(1, 5) ? 0xffffu : sim::chance(1, 5) ? 0u : sim::choose(65535); }
    } }
    return m & (pow2(bits) - 1);
}

// A buffer which takes some characters, and then nothing more or throws.
struct Sink: std::streambuf {
    std::string got; int room; bool throws;
    Sink(int r, bool t) : room(r), throws(t) {}
    int_type overflow(int_type c) override {
        if (!room) { if (throws) throw UserError{3}; return traits_type::eof(); }
        --room; got.push_back(static_cast<char>(c)); return c;
    }
};
std::string text(M m, unsigned base, bool up, bool plus) {
    std::string s;
    if (m == 0) return "0";
    while (m != 0) {
        M q, r; M::divide(m, M(base), q, r); m = q;
        s.push_back((up ? "0123456789ABCDEF" : "0123456789abcdef")[low(r)]);
    }
    if (plus) s.push_back('+');
    std::reverse(s.begin(), s.end());
    return s;
}
template <typename U> void print(U const & u, M const & m, bool mayAlloc) {
    unsigned const base = sim::choose(3) == 0 ? 16 : sim::flip() ? 8 : 10; bool const up = sim::flip(), plus = sim::flip();
    std::string want; want = text(m, base, up, plus);
    bool const fail = sim::faultRun() && sim::chance(1, 3), throws = sim::flip(), exceptions = sim::flip();
    int const room = fail ? static_cast<int>(sim::choose(static_cast<u32>(want.size()))) : -1;
    Sink sink(room, throws); sink.got.reserve(want.size() + 8);
    std::ostream os(&sink);
    if (base == 16) os << std::hex; else if (base == 8) os << std::oct;
    if (up) os << std::uppercase;
    if (plus) os << std::showpos;
    if (exceptions) os.exceptions(std::ios::badbit | std::ios::failbit);
    bool threw = false, noMem = false;
    {
        std::unique_ptr<sim::AllocFaults> af(mayAlloc && sim::faultRun() && sim::chance(1, 3) ? new sim::AllocFaults : nullptr);
        try { os << u; }
        catch (std::bad_alloc const &) { noMem = true; }
        catch (UserError const & e) { threw = true; SIM_CHECK(e.id == 3 && throws, "wrong-exception", "another exception was thrown"); }
        catch (std::ios_base::failure const &) { threw = true; SIM_CHECK(exceptions, "wrong-exception", "a stream failure was thrown which was not asked for"); }
    }
    if (noMem) { SIM_CHECK(sim::allocFaultsFired(), "wrong-exception", "memory was said to have run out"); // (also for the exception of the stream, after it took its part)
        SIM_CHECK(sink.got.empty() || (fail && sink.got == want.substr(0, static_cast<std::size_t>(room))), "wrong-output", "a part of a number was written"); SIM_HIT(noMemory); return; }
    if (fail) {
        SIM_CHECK(sink.got == want.substr(0, static_cast<std::size_t>(room)), "wrong-output", "the start of a number was written wrong");
        SIM_CHECK(threw || !os.good(), "unreported", "a failure to write a number was not reported");
        if (threw) SIM_HIT(streamThrew); else SIM_HIT(partly);
        return;
    }
    SIM_CHECK(!threw && os.good(), "wrong-failure", "writing a number failed");
    SIM_CHECK(sink.got == want, "wrong-output", "a number was written as %s instead of %s", sink.got.substr(0, 60).c_str(), want.substr(0, 60).c_str());
    SIM_HIT(printed); if (mayAlloc) SIM_HIT(wide);
}

struct Zero { template <typename B> void operator()(B * b, B * e) const { std::fill(b, e, B(0)); } };

template <unsigned N, typename B> struct W {
    using U = uint_t<N, B>;
    static constexpr unsigned bits = N;
    static M mask() { return pow2(N) - 1; }
    static U make(M const & m, bool throwing = false) {
        auto gen = [&](B * b, B * e) {
            SIM_CHECK(e - b == static_cast<std::ptrdiff_t>((N + 8 * sizeof(B) - 1) / (8 * sizeof(B))), "wrong-blocks", "a random source was asked for %d blocks for %u bits", static_cast<int>(e - b), N);
            M r(m);
            // bits which the number does not have must be dropped
            if (N % (8 * sizeof(B)) != 0 && sim::flip()) r |= pow2(static_cast<unsigned>(e - b) * 8 * sizeof(B)) - pow2(N);
            for (; b != e; ++b) { if (throwing && sim::userThrow()) throw UserError{4}; *b = static_cast<B>(low(r)); r >>= 8 * sizeof(B); }
        };
        return U(gen);
    }
    static M model(U const & u) {
        M m(0);
        for (auto p = u.end(); p != u.begin();) { m <<= 8 * sizeof(B); m |= static_cast<std::uint64_t>(*--p); }
        return m;
    }
    static void same(U const & u, M const & want, char const * what) {
        M const got = model(u);
        SIM_CHECK(got == want, "wrong-number", "%s of %u bits in blocks of %zu bytes: %s instead of %s", what, N, sizeof(B), text(got, 16, false, false).c_str(), text(want, 16, false, false).c_str());
    }
    static void calculate(U const & x, M const & mx, U const & y, M const & my) {
        M const mod = pow2(N), mk = mask();
        U r(x);
        same(r, mx, "copy");
        switch (sim::choose(15)) {
        case 0: if (mx + my >= mod) SIM_HIT(carried); same(x + y, (mx + my) & mk, "sum"); SIM_CHECK(&(r += y) == &r, "wrong-result", "+= does not return its left side"); same(r, (mx + my) & mk, "+="); break;
        case 1: if (mx < my) SIM_HIT(borrowed); same(x - y, (mx + mod - my) & mk, "difference"); r -= y; same(r, (mx + mod - my) & mk, "-="); break;
        case 2: if (mx * my >= mod) SIM_HIT(carried); same(x * y, (mx * my) & mk, "product"); r *= y; same(r, (mx * my) & mk, "*="); break;
        case 3: case 4:
            try {
                auto const d = divMod(x, y); U const q = x / y; r /= y; U t(x); t %= y; U const m = x % y;
                SIM_CHECK(my != 0, "divided-by-zero", "a division by zero gave a result");
                if ((my >> (N / 2)) != 0) SIM_HIT(divided);
                same(d.quot, mx / my, "quotient"); same(d.rem, mx % my, "remainder"); same(q, mx / my, "/"); same(r, mx / my, "/="); same(t, mx % my, "%="); same(m, mx % my, "%");
            } catch (typename U::division_by_zero_error const & e) { SIM_CHECK(my == 0, "refused", "a division by another number than zero was refused"); std::runtime_error const & re = e; SIM_CHECK(re.what()[0] != 0, "refused", "no message"); same(r, mx, "dividend"); SIM_HIT(byZero); }
            break;
        case 5: same(x & y, mx & my, "and"); r &= y; same(r, mx & my, "&="); break;
        case 6: same(x | y, mx | my, "or"); r |= y; same(r, mx | my, "|="); break;
        case 7: same(x ^ y, mx ^ my, "xor"); r ^= y; same(r, mx ^ my, "^="); break;
        case 8: same(~x, mk - mx, "complement"); same(-x, (mod - mx) & mk, "negation"); SIM_CHECK(!x == (mx == 0), "wrong-number", "! is wrong"); break;
        case 9: {
            std::uint64_t const s = sim::choose(N);
            same(x << s, (mx << static_cast<unsigned>(s)) & mk, "left shift"); same(x >> s, mx >> static_cast<unsigned>(s), "right shift");
            if (sim::flip()) { r <<= s; same(r, (mx << static_cast<unsigned>(s)) & mk, "<<="); } else { r >>= s; same(r, mx >> static_cast<unsigned>(s), ">>="); }
#ifndef HARNESS_FALLBACK
            U const us(s); // (narrow types may not be able to hold their width)
            unsigned const m = static_cast<unsigned>(low(model(us)));
            r = x; r <<= us; same(r, (mx << m) & mk, "<<= by such a number"); r = x; r >>= us; same(r, mx >> m, ">>= by such a number"); same(x << us, (mx << m) & mk, "<<"); same(x >> us, mx >> m, ">>");
#endif
            break; }
        case 10: { U const o = r++; same(o, mx, "x++"); same(r, (mx + 1) & mk, "x++"); U & p = ++r; SIM_CHECK(&p == &r, "wrong-result", "++ does not return its operand"); same(r, (mx + 2) & mk, "++x"); break; }
        case 11: { U const o = r--; same(o, mx, "x--"); same(r, (mx + mod - 1) & mk, "x--"); U & p = --r; SIM_CHECK(&p == &r, "wrong-result", "-- does not return its operand"); same(r, (mx + mod * 2 - 2) & mk, "--x"); break; }
        case 12:
            SIM_CHECK((x == y) == (mx == my) && (x != y) == (mx != my) && (x < y) == (mx < my) && (x > y) == (mx > my) && (x <= y) == (mx <= my) && (x >= y) == (mx >= my), "wrong-comparison", "numbers of %u bits compare wrong", N);
            SIM_CHECK(x == r && x <= r && x >= r && !(x < r) && !(x > r) && !(x != r), "wrong-comparison", "a number compares unlike itself");
            break;
        case 13: {
            M m = mx; bool const all = sim::chance(1, 8);
            for (u32 n = all ? N : 1 + sim::choose(3), i = 0; i < n; ++i) {
                u32 const b = all ? i : sim::choose(N); bool const v = sim::flip(), was = m.bit(b);
                U const & c = r;
                SIM_CHECK(c[b] == was && static_cast<bool>(r[b]) == was && ~r[b] == !was, "wrong-bit", "bit %u of %u is wrong", b, N);
                bool now = v;
                switch (sim::choose(7)) { case 0: r[b] = v; break; case 1: r[b] |= v; now = was || v; break; case 2: r[b] &= v; now = was && v; break; case 3: r[b] ^= v; now = was != v; break;
                    case 4: r[b] -= v; now = was && !v; break; case 5: r[b].flip(); now = !was; break; default: { u32 const o = sim::choose(N); now = m.bit(o); r[b] = r[o]; } }
                m.bit(b, now);
                same(r, m, "change of a bit");
            }
            break; }
        default: { // other integers
            std::uint64_t const v = low(randomModel(64));
            M const mv = M(v) & mk;
            same(U(v), mv, "conversion of 64 bits"); same(U(static_cast<std::uint32_t>(v)), M(static_cast<std::uint32_t>(v)) & mk, "conversion of 32 bits"); same(U(static_cast<std::uint16_t>(v)), M(static_cast<std::uint16_t>(v)) & mk, "conversion of 16 bits");
            same(U(static_cast<std::uint8_t>(v)), M(static_cast<std::uint8_t>(v)) & mk, "conversion of 8 bits"); same(U(v % 2 == 0), M(v % 2 == 0), "conversion of a truth value"); same(U(static_cast<int>(v & 0x7fffffff)), M(v & 0x7fffffff) & mk, "conversion of an int");
            r = v; same(r, mv, "assignment of 64 bits"); r = x; r = r; same(r, mx, "self assignment"); r = std::move(r); same(r, mx, "self assignment");
            same(x + v, (mx + mv) & mk, "sum with 64 bits"); same(v - x, (mv + mod - mx) & mk, "difference of 64 bits"); SIM_CHECK((x == v) == (mx == mv), "wrong-comparison", "a number was compared to 64 bits wrong");
            M const m2 = randomModel(128); uint128_t const w(low(m2 >> 64), low(m2));
#ifndef HARNESS_FALLBACK
            same(U(w), m2 & mk, "conversion of 128 bits");
            r = w; same(r, m2 & mk, "assignment of 128 bits");
#endif
        } }
        same(x, mx, "left operand after an operation"); same(y, my, "right operand after an operation");
    }
    static M random() { return randomModel(N); }
    static void run() {
        M const mx = random(), my = sim::chance(1, 12) ? mx : random();
        U x, y; same(x, M(0), "default value");
        bool const thr = sim::faultRun() && sim::chance(1, 4);
        try { x = make(mx, thr); y = make(my, thr); }
        catch (UserError const & e) { SIM_CHECK(e.id == 4 && thr, "wrong-exception", "another exception was thrown"); SIM_HIT(genThrew); x = make(mx); y = make(my); }
        same(x, mx, "generated number");
        for (u32 n = 1 + sim::choose(N > 300 ? 2 : 5); n--;) calculate(x, mx, y, my);
        if (sim::chance(1, N > 300 ? 6 : 3)) {
            if (N <= 256) print(x, mx, false);
            else if (sim::chance(1, 100)) { sim::computing(400000000); print(x, mx, 1 + (N + 2) / 3 > 256); sim::computing(3000000); }
            else { M const mz = randomModel(30); sim::yield(); print(make(mz), mz, 1 + (N + 2) / 3 > 256); }
        }
    }
};
template <unsigned N, typename B, unsigned N2, typename B2> void convert() {
    M const m = randomModel(N); auto const u = W<N, B>::make(m);
    uint_t<N2, B2> const v(u); uint_t<N2, B2> w; w = u;
    if (N2 < N && (m >> N2) != 0) SIM_HIT(cut);
    W<N2, B2>::same(v, m & W<N2, B2>::mask(), "conversion of another width"); W<N2, B2>::same(w, m & W<N2, B2>::mask(), "assignment of another width");
    W<N, B>::same(u, m, "converted number");
}
template <unsigned N, typename B, unsigned N2, typename B2> void demote() {
    M const m = randomModel(N); auto const u = W<N, B>::make(m);
    W<N2, B2>::same(demote_integer<uint_t<N2, B2> >(u), m & W<N2, B2>::mask(), "demotion");
    convert<N, B, N2, B2>(); convert<N2, B2, N, B>();
}
template <unsigned N, typename B, typename T> void demoteTo() {
    M const m = randomModel(N); auto const u = W<N, B>::make(m);
    SIM_CHECK(demote_integer<T>(u) == static_cast<T>(low(m)), "wrong-number", "a number of %u bits was demoted to %zu bytes wrong", N, sizeof(T));
    SIM_CHECK(demote_integer<bool>(u) == (m != 0), "wrong-number", "a number of %u bits was demoted to a truth value wrong", N);
}
template <unsigned N, typename B> void demoteTo128() {
    M const m = randomModel(N); auto const u = W<N, B>::make(m); uint128_t const r = demote_integer<uint128_t>(u);
    SIM_CHECK(r.upper() == low(m >> 64) && r.lower() == low(m), "wrong-number", "a number of %u bits was demoted to 128 bits wrong", N);
    W<N, B>::same(uint_t<N, B>(r), m & (pow2(128) - 1), "number demoted and promoted");
}

using U = uint128_t;
M model(U const & u) { M m(u.upper()); m <<= 64; m |= u.lower(); return m; }
U make(M const & m) { return U(low(m >> 64), low(m)); }
void same(U const & u, M const & want, char const * what) { SIM_CHECK(model(u) == want, "wrong-number", "%s of a uint128_t: %s instead of %s", what, text(model(u), 16, false, false).c_str(), text(want, 16, false, false).c_str()); }
void calculate128(U const & x, M const & mx, U const & y, M const & my) {
    M const mod = pow2(128), mk = mod - 1; U r(x);
    switch (sim::choose(14)) {
    case 0: if (mx + my >= mod) SIM_HIT(carried); same(x + y, (mx + my) & mk, "sum"); SIM_CHECK(&(r += y) == &r, "wrong-result", "+= does not return its left side"); same(r, (mx + my) & mk, "+="); break;
    case 1: if (mx < my) SIM_HIT(borrowed); same(x - y, (mx + mod - my) & mk, "difference"); r -= y; same(r, (mx + mod - my) & mk, "-="); break;
    case 2: if (mx * my >= mod) SIM_HIT(carried); same(x * y, (mx * my) & mk, "product"); r *= y; same(r, (mx * my) & mk, "*="); break;
    case 3: case 4:
        try { U const q = x / y, m = x % y; U t(x); t %= y; r /= y; SIM_CHECK(my != 0, "divided-by-zero", "a division by zero gave a result"); if ((my >> 64) != 0) SIM_HIT(divided);
            same(q, mx / my, "/"); same(m, mx % my, "%"); same(t, mx % my, "%="); same(r, mx / my, "/="); }
        catch (U::division_by_zero_error const &) { SIM_CHECK(my == 0, "refused", "a division by another number than zero was refused"); same(r, mx, "dividend"); SIM_HIT(byZero); }
        break;
    case 5: same(x & y, mx & my, "and"); r &= y; same(r, mx & my, "&="); break;
    case 6: same(x | y, mx | my, "or"); r |= y; same(r, mx | my, "|="); break;
    case 7: same(x ^ y, mx ^ my, "xor"); r ^= y; same(r, mx ^ my, "^="); break;
    case 8: same(~x, mk - mx, "complement"); same(-x, (mod - mx) & mk, "negation"); SIM_CHECK(!x == (mx == 0), "wrong-number", "! is wrong"); break;
    case 9: { unsigned const s = sim::choose(128); same(x << s, (mx << s) & mk, "left shift"); same(x >> s, mx >> s, "right shift"); if (sim::flip()) { r <<= s; same(r, (mx << s) & mk, "<<="); } else { r >>= s; same(r, mx >> s, ">>="); } break; }
    case 10: { U const o = r++; same(o, mx, "x++"); same(r, (mx + 1) & mk, "x++"); U & p = ++r; SIM_CHECK(&p == &r, "wrong-result", "++ does not return its operand"); same(r, (mx + 2) & mk, "++x"); break; }
    case 11: { U const o = r--; same(o, mx, "x--"); same(r, (mx + mod - 1) & mk, "x--"); --r; same(r, (mx + mod * 2 - 2) & mk, "--x"); break; }
    case 12: SIM_CHECK((x == y) == (mx == my) && (x != y) == (mx != my) && (x < y) == (mx < my) && (x > y) == (mx > my) && (x <= y) == (mx <= my) && (x >= y) == (mx >= my), "wrong-comparison", "uint128_t compares wrong"); break;
    default: {
        std::uint64_t const v = low(randomModel(64)); same(U(v), M(v), "conversion of 64 bits"); r = static_cast<std::uint16_t>(v); same(r, M(v & 0xffff), "assignment of 16 bits"); same(x + v, (mx + v) & mk, "sum with 64 bits");
        SIM_CHECK((x == v) == (mx == v) && demote_integer<std::uint64_t>(x) == low(mx) && demote_integer<std::uint32_t>(x) == static_cast<std::uint32_t>(low(mx)) && demote_integer<std::uint8_t>(x) == static_cast<std::uint8_t>(low(mx)) && demote_integer<bool>(x) == (mx != 0),
                  "wrong-number", "a uint128_t was demoted wrong");
        SIM_CHECK(demote_integer<std::uint16_t>(v) == static_cast<std::uint16_t>(v) && demote_integer<bool>(v) == (v != 0), "wrong-number", "64 bits were demoted wrong");
        int ones = 0; for (unsigned i = 0; i < 8; ++i) ones += static_cast<int>(v >> i & 1);
        SIM_CHECK(isPowerOfTwo(v) == (v != 0 && (v & (v - 1)) == 0) && isPowerOfTwo(static_cast<std::uint8_t>(v)) == (ones == 1) && isPowerOfTwo(static_cast<std::int8_t>(v)) == (ones == 1 && (v & 0x80) == 0), "wrong-number", "a power of two was not seen, or another number taken for one");
    } }
}
template <unsigned N> void halves() { // products of two words
    using T = typename std::conditional<N == 8, std::uint8_t, typename std::conditional<N == 16, std::uint16_t, typename std::conditional<N == 32, std::uint32_t, std::uint64_t>::type>::type>::type;
    M const a = randomModel(N), b = randomModel(N); auto const r = multHiLo<T>(static_cast<T>(low(a)), static_cast<T>(low(b)));
    M const got = (M(static_cast<std::uint64_t>(r.hi)) << N) | M(static_cast<std::uint64_t>(r.lo));
    SIM_CHECK(got == a * b, "wrong-number", "a product of two words of %u bits is wrong", N);
}
void step() {
    sim::yield();
    using u8 = std::uint8_t; using u16 = std::uint16_t; using u32_ = std::uint32_t; using u64_ = std::uint64_t;
    switch (sim::choose(22)) {
    case 0: W<8, u8>::run(); break;
    case 1: W<13, u8>::run(); break;
    case 2: W<64, u64_>::run(); break;
    case 3: W<100, u64_>::run(); break;
    case 4: W<65, u64_>::run(); break;
    case 5: W<128, u32_>::run(); break;
    case 6: W<160, u32_>::run(); break;
    case 7: W<200, u16>::run(); break;
    case 8: W<256, u64_>::run(); break;
    case 9: W<24, u8>::run(); break;
    case 10: if (sim::chance(1, 4)) W<800, u64_>::run(); else W<192, u64_>::run(); break;
    case 11: W<5, u8>::run(); W<4, u8>::run(); W<3, u8>::run(); break;
    case 12: W<33, u32_>::run(); break;
    case 13: demote<256, u64_, 64, u64_>(); demote<128, u32_, 13, u8>(); demote<160, u32_, 128, u32_>(); break;
    case 14: demote<200, u16, 65, u64_>(); demote<100, u64_, 24, u8>(); demote<256, u64_, 200, u16>(); break;
    case 15: demoteTo<256, u64_, u64_>(); demoteTo<128, u32_, u64_>(); demoteTo<24, u8, u16>(); demoteTo<100, u64_, u8>(); demoteTo<200, u16, u32_>(); demoteTo<65, u64_, u64_>(); break;
    case 16: demoteTo128<256, u64_>(); demoteTo128<160, u32_>(); demoteTo128<200, u16>(); convert<128, u32_, 128, u64_>(); break;
    case 17: halves<8>(); halves<16>(); halves<32>(); halves<64>(); break;
    case 18:
#ifndef HARNESS_FALLBACK
        W<1, u8>::run(); W<2, u16>::run(); break;
#endif
    case 20: if (sim::chance(1, 3)) { W<264, u8>::run(); break; }
    [[fallthrough]];
    case 19: { using L = W<800, u64_>; M const m = randomModel(1 + sim::choose(10)) & M(sim::choose(3) ? ~0ull : 0u); print(L::make(m), m, true); break; }
    default: {
        M const mx = randomModel(128), my = sim::chance(1, 12) ? mx : randomModel(128); U const x = make(mx), y = make(my);
        for (u32 n = 1 + sim::choose(5); n--;) calculate128(x, mx, y, my);
        same(x, mx, "left operand after an operation"); same(y, my, "right operand after an operation");
        if (sim::chance(1, 3)) print(x, mx, false);
    } }
}
} // namespace

extern "C" void sim_main() {
#ifdef HARNESS_FALLBACK
    sim::fail("unusable", "this does not compile: shifting wide integers by wide integers, or conversions from 128 bits");
#endif
    using S = W<192, std::uint64_t>;
    M const mx = S::random(), my = S::random(); S::U const x = S::make(mx), y = S::make(my);
    u32 const threads = sim::chance(1, 4) ? 1 + sim::choose(2) : 0;
    auto work = [&] { for (u32 n = 1 + sim::choose(3); n--;) if (threads && sim::flip()) { S::calculate(x, mx, y, my); if (sim::flip()) print(x, mx, false); SIM_HIT(sharedUse); } else step(); };
    Threads ts;
    for (u32 i = 0; i < threads; ++i) ts.add(work);
    work();
    ts.join();
    if (threads) sim::nontrivial();
}
