// C31: bit vectors hold exactly the bits put into them.
#include "common.h"
#include <iterator>
#include <ostream>
#include <sharemind/BitVector.h>
#include <sharemind/NetworkMessage.h>
extern "C" char const * const sim_property = "C31";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(noMem, "memory ran out");
SIM_PROBE_DEF(noMemAppend, "memory ran out while bits were appended");
SIM_PROBE_DEF(appended, "bits were appended in the middle of a block");
SIM_PROBE_DEF(selfAppend, "a vector was appended to itself");
SIM_PROBE_DEF(pushed, "a bit was pushed after other growth or shrinkage");
SIM_PROBE_DEF(shrunk, "a vector shrank");
SIM_PROBE_DEF(range, "an index out of range was reported");
SIM_PROBE_DEF(roundTrip, "a vector was sent and received");
SIM_PROBE_DEF(truncated, "a truncated message was received");
SIM_PROBE_DEF(otherSize, "a message with another number of bits was received");
SIM_PROBE_DEF(combined, "vectors were combined bit by bit");
SIM_PROBE_DEF(onePass, "bits came from an iterator which can be read only once");
SIM_PROBE_DEF(movedFrom, "a vector was moved from");

enum { VECS = 3, MAXBITS = 300 };
// The expected bits: 0, 1, or 2 for bits nobody has set yet.
struct Model {
    std::size_t n = 0; unsigned char b[MAXBITS * 2 + 8];
    void size(std::size_t to) { while (n < to) b[n++] = 2; n = to; }
    void fill(int v) { for (std::size_t i = 0; i < n; ++i) b[i] = static_cast<unsigned char>(v); }
};
unsigned char comb(int op, unsigned char x, unsigned char y) {
    if (op == 0) return x == 2 || y == 2 ? 2 : x ^ y;
    if (op == 1) return x == 1 || y == 1 ? 1 : x == 2 || y == 2 ? 2 : 0;
    return x == 0 || y == 0 ? 0 : x == 2 || y == 2 ? 2 : 1;
}
struct Rng { u64 s; void fillBytes(void * p, std::size_t n) { for (std::size_t i = 0; i < n; ++i) { s = s * 6364136223846793005ull + 1442695040888963407ull; static_cast<unsigned char *>(p)[i] = static_cast<unsigned char>(s >> 33); } } };

// Each position can be read only before the iterator moves on.
struct OnePass {
    typedef std::input_iterator_tag iterator_category; typedef bool value_type; typedef std::ptrdiff_t difference_type; typedef bool const * pointer; typedef bool const & reference;
    bool const * p;
    bool const & operator*() const { return *p; }
    OnePass & operator++() { ++p; return *this; }
    OnePass operator++(int) { OnePass r(*this); ++p; return r; }
    bool operator==(OnePass const & o) const { return p == o.p; }
    bool operator!=(OnePass const & o) const { return p != o.p; }
};

template <typename B> struct World {
    typedef BitVec<B> V;
    std::unique_ptr<V> v[VECS]; Model m[VECS];

    // Everything that can be read of one vector.
    static void compare(V const & x, Model const & e, char const * when) {
        SIM_CHECK(x.size() == e.n, "wrong-size", "%s: the vector has %zu bits, it should have %zu", when, x.size(), e.n);
        SIM_CHECK(x.empty() == !e.n, "wrong-size", "%s: empty() is %d with %zu bits", when, x.empty(), e.n);
        for (std::size_t i = 0; i < e.n; ++i) {
            bool const g = i % 2 ? x[i] : x.at(i);
            SIM_CHECK(e.b[i] == 2 || g == (e.b[i] == 1), "wrong-bit", "%s: bit %zu of %zu is %d, it should be %d", when, i, e.n, g, e.b[i]);
        }
        if (e.n) { SIM_CHECK(x.front() == x[0] && x.back() == x[e.n - 1], "wrong-bit", "%s: front() or back() differs", when); }
    }
    void verify(char const * when) {
        for (int i = 0; i < VECS; ++i) compare(*v[i], m[i], when);
        for (int i = 0; i < VECS; ++i) for (int j = 0; j < VECS; ++j) {
            int must = m[i].n != m[j].n ? 0 : 1;
            for (std::size_t k = 0; must && k < m[i].n; ++k) { if (m[i].b[k] == 2 || m[j].b[k] == 2) { if (i != j) must = -1; } else if (m[i].b[k] != m[j].b[k]) { must = 0; break; } }
            for (std::size_t k = 0; must == -1 && k < m[i].n; ++k) if (m[i].b[k] != 2 && m[j].b[k] != 2 && m[i].b[k] != m[j].b[k]) must = 0;
            if (must >= 0) SIM_CHECK((*v[i] == *v[j]) == (must == 1) && (*v[i] != *v[j]) == (must == 0), "wrong-comparison", "%s: vectors %d and %d compare %d", when, i, j, *v[i] == *v[j]);
        }
    }
    static std::size_t someSize() {
        static unsigned const s[] = { 0, 1, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129 };
        return sim::flip() ? s[sim::choose(14)] : sim::choose(MAXBITS);
    }
    void step() {
        int const i = static_cast<int>(sim::choose(VECS)), j = static_cast<int>(sim::choose(VECS));
        V & x = *v[i]; Model & e = m[i]; Model const before = e;
        u64 const faults = sim::allocFaultsFired(); bool failed = false;
        char const * what = "";
        auto const tryIt = [&](auto f) {
            try { sim::AllocFaults g; f(); return true; }
            catch (std::bad_alloc const &) { SIM_HIT(noMem); SIM_CHECK(sim::allocFaultsFired() > faults, "error-kind", "bad_alloc without a failed allocation"); failed = true; return false; }
        };
        switch (sim::choose(24)) {
        case 0: { what = "after a construction"; std::size_t const n = someSize(); bool const b = sim::flip(); std::unique_ptr<V> p;
            if (tryIt([&] { if (!b && sim::flip()) p.reset(new V(n)); else p.reset(new V(n, b)); })) { v[i] = std::move(p); e.n = n; e.fill(b); } break; }
        case 1: { what = "after a construction from a range"; std::size_t const n = someSize(); bool in[MAXBITS]; for (std::size_t k = 0; k < n; ++k) in[k] = sim::flip(); std::unique_ptr<V> p;
            if (tryIt([&] { p.reset(new V(in, in + n)); })) { v[i] = std::move(p); e.n = n; for (std::size_t k = 0; k < n; ++k) e.b[k] = in[k]; } break; }
        case 2: { what = "after a copy"; std::unique_ptr<V> p;
            if (tryIt([&] { p.reset(new V(static_cast<V const &>(*v[j]))); })) { v[i] = std::move(p); e = m[j]; } break; }
        case 3: { what = "after a copy assignment"; if (tryIt([&] { x = static_cast<V const &>(*v[j]); })) e = m[j]; break; }
        case 4: { if (i == j) break; what = "after a move"; SIM_HIT(movedFrom); std::unique_ptr<V> p;
            if (tryIt([&] { p.reset(new V(std::move(*v[j]))); })) { v[i] = std::move(p); e = m[j]; m[j].n = 0; } break; }
        case 5: { if (i == j) break; what = "after a move assignment"; SIM_HIT(movedFrom); x = std::move(*v[j]); e = m[j]; m[j].n = 0; break; }
        case 6: { what = "after a swap"; x.swap(*v[j]); Model const t = m[i]; m[i] = m[j]; m[j] = t; break; }
        case 7: case 8: case 9: { what = "after push_back()"; SIM_HIT(pushed); for (u32 k = 1 + sim::choose(12); k-- && e.n < MAXBITS;) { bool const b = sim::flip(); if (tryIt([&] { x.push_back(b); })) e.b[e.n++] = b; else break; } break; }
        case 10: { what = "after pop_back()"; for (u32 k = 1 + sim::choose(12); k-- && e.n;) { SIM_HIT(shrunk); x.pop_back(); --e.n; } break; }
        case 11: { what = "after resize()"; std::size_t const n = someSize(); if (n < e.n) SIM_HIT(shrunk); if (tryIt([&] { x.resize(n); })) e.size(n); break; }
        case 12: { what = "after assign()"; std::size_t const n = someSize(); bool const b = sim::flip(); if (tryIt([&] { x.assign(n, b); })) { e.n = n; e.fill(b); } break; }
        case 13: case 14: case 15: { what = "after append()"; if (e.n + m[j].n > MAXBITS) break;
            if (e.n % (8 * sizeof(B)) && m[j].n) SIM_HIT(appended);
            if (i == j && e.n) SIM_HIT(selfAppend);
            if (tryIt([&] { x.append(*v[j]); })) { std::size_t const n = m[j].n; for (std::size_t k = 0; k < n; ++k) e.b[before.n + k] = i == j ? before.b[k] : m[j].b[k]; e.n = before.n + n; }
            else SIM_HIT(noMemAppend);
            break; }
        case 16: { what = "after set(), reset() or flip()"; u32 const k = sim::choose(3); V & r = k == 0 ? x.set() : k == 1 ? x.reset() : x.flip(); SIM_CHECK(&r == &x, "wrong-result", "another vector was returned");
            if (k < 2) e.fill(k == 0); else for (std::size_t q = 0; q < e.n; ++q) if (e.b[q] != 2) e.b[q] ^= 1; break; }
        case 17: { what = "after combining"; if (e.n != m[j].n) break; SIM_HIT(combined); int const op = static_cast<int>(sim::choose(3));
            Model r; r.n = e.n; for (std::size_t k = 0; k < e.n; ++k) r.b[k] = comb(op, e.b[k], m[j].b[k]);
            if (i == j && op) for (std::size_t k = 0; k < e.n; ++k) r.b[k] = e.b[k];
            if (i == j && !op) for (std::size_t k = 0; k < e.n; ++k) r.b[k] = 0;
            if (sim::flip()) { V & o = op == 0 ? x ^= *v[j] : op == 1 ? x |= *v[j] : x &= *v[j]; SIM_CHECK(&o == &x, "wrong-result", "another vector was returned"); e = r; }
            else { std::unique_ptr<V> p; if (tryIt([&] { p.reset(new V(op == 0 ? x ^ *v[j] : op == 1 ? x | *v[j] : x & *v[j])); })) compare(*p, r, "combined"); }
            break; }
        case 18: case 19: { what = "after changing a bit"; if (!e.n) break; std::size_t const k = sim::choose(static_cast<u32>(e.n)); bool const b = sim::flip(); unsigned char & q = e.b[k];
            if (q == 2) { x[k] = b; q = b; break; }
            switch (sim::choose(7)) {
            case 0: x[k] = b; q = b; break;
            case 1: x.at(k) = b; q = b; break;
            case 2: x[k] |= b; q = q || b; break;
            case 3: x[k] &= b; q = q && b; break;
            case 4: x[k] ^= b; q = q ^ b; break;
            case 5: x[k] -= b; q = q && !b; break;
            default: { x[k].flip(); q ^= 1; bool const now = x[k], inv = ~x[k]; SIM_CHECK(now == (q == 1) && inv != now, "wrong-bit", "a reference reads %d and inverted %d", now, inv); std::size_t const s = sim::choose(static_cast<u32>(e.n)); if (e.b[s] != 2) { x[k] = x[s]; q = e.b[s]; } }
            } break; }
        case 20: { what = "after at()"; std::size_t const k = e.n + sim::choose(3) * 40; bool thrown = false;
            try { if (sim::flip()) static_cast<void>(static_cast<bool>(x.at(k))); else static_cast<void>(static_cast<V const &>(x).at(k)); } catch (std::out_of_range const &) { thrown = true; SIM_HIT(range); }
            SIM_CHECK(thrown, "range-unchecked", "at(%zu) of %zu bits did not throw", k, e.n); break; }
        case 21: { u32 const k = sim::choose(3); what = k == 0 ? "after clear()" : k == 1 ? "after clear_and_release()" : "after assign()";
            if (k == 0) { x.clear(); e.n = 0; } else if (k == 1) { x.clear_and_release(); e.n = 0; } else if (e.n == m[j].n) { if (sim::flip()) { x.assign(*v[j]); e = m[j]; } else { bool in[MAXBITS]; for (std::size_t q = 0; q < e.n; ++q) in[q] = sim::flip(); std::list<bool> l; u32 const via = sim::choose(4); if (via == 0) l.assign(in, in + e.n);
                if (via == 1) { SIM_HIT(onePass); if (!tryIt([&] { x.assign(OnePass{in}, OnePass{in + e.n}); })) break; } else if (via == 0) x.assign(l.begin(), l.end()); else x.assign(in, in + e.n);
                for (std::size_t q = 0; q < e.n; ++q) e.b[q] = in[q]; } } break; }
        case 22: { what = "after a transfer"; std::vector<unsigned char> wire; u64 sent = m[j].n;
            { OutgoingNetworkMessage out; if (!tryIt([&] { v[j]->serialize(out); })) break; wire.assign(static_cast<unsigned char const *>(out.getData()), static_cast<unsigned char const *>(out.getData()) + out.getSize()); }
            SIM_CHECK(wire.size() == 8 + (sent + 63) / 64 * 8, "wrong-message", "%zu bytes were written for %llu bits", wire.size(), (unsigned long long) sent);
            bool const cut = sim::chance(1, 3); std::size_t const len = cut ? sim::choose(static_cast<u32>(wire.size())) : wire.size();
            std::unique_ptr<unsigned char[]> net(new unsigned char[len]); if (len) memcpy(net.get(), wire.data(), len);
            if (sim::chance(2, 3) && i != j) { x = V(m[j].n); e.n = m[j].n; e.fill(0); }
            IncomingNetworkMessage in(net.get(), len);
            bool const got = x.deserialize(in), should = !cut && e.n == sent;
            SIM_CHECK(got == should, "wrong-result", "receiving %llu bits from %zu of %zu bytes into %zu bits returned %d", (unsigned long long) sent, len, wire.size(), e.n, got);
            if (got) { SIM_HIT(roundTrip); e = m[j]; SIM_CHECK(in.getOffset() == len, "wrong-message", "%zu of %zu bytes were read", in.getOffset(), len); }
            else { if (len >= 8 && e.n != sent) SIM_HIT(otherSize); else { SIM_HIT(truncated); if (len >= 8) e.fill(2); } }
            break; }
        default: { what = "after randomizing"; u64 const s = sim::choose(1000); Rng r{s}, r2{s}; x.randomize(r); unsigned char raw[MAXBITS]; r2.fillBytes(raw, MAXBITS); B blk;
            for (std::size_t k = 0; k < e.n; ++k) { memcpy(&blk, raw + k / (8 * sizeof(B)) * sizeof(B), sizeof blk); e.b[k] = (blk >> (k % (8 * sizeof(B)))) & 1; }
            if (e.n) SIM_CHECK(!memcmp(x.data(), raw, e.n / 8), "wrong-bit", "data() differs from the bytes filled in");
            if (e.n && e.n % 64 == 0 && sim::flip()) { std::uint64_t w[MAXBITS / 64 + 1]; for (std::size_t k = 0; k < e.n / 64; ++k) w[k] = s * 77 + k * 0x9e3779b97f4a7c15ull; x.assignBits(w, w + e.n / 64); for (std::size_t k = 0; k < e.n; ++k) e.b[k] = (w[k / 64] >> (k % 64)) & 1; }
            }
        }
        verify(failed ? "after a failure" : what);
    }
    void run() {
        for (auto & p : v) p.reset(new V);
        verify("in the beginning");
        for (u32 s = 1 + sim::choose(40); s--;) step();
    }
};
} // namespace

extern "C" void sim_main() {
    sim::nontrivial();
    switch (sim::choose(4)) {
    case 0: { std::unique_ptr<World<std::uint8_t> > w(new World<std::uint8_t>); w->run(); break; }
    case 1: { std::unique_ptr<World<std::uint32_t> > w(new World<std::uint32_t>); w->run(); break; }
    case 2: { std::unique_ptr<World<std::uint16_t> > w(new World<std::uint16_t>); w->run(); break; }
    default: { std::unique_ptr<World<std::uint64_t> > w(new World<std::uint64_t>); w->run(); }
    }
}
