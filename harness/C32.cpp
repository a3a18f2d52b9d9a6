// C32: dynamic storage is big enough, aligned, owned once and unshared, or an
// error is reported and nothing changes.
#include "common.h"
#include <sharemind/AlignedAllocator.h>
#include <sharemind/UninitializedDynamicArray.h>
#include <sharemind/DynamicPackedStruct.h>
#include <sharemind/PackedStruct.h>
#include <sharemind/ReferenceVector.h>
extern "C" char const * const sim_property = "C32";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(noMem, "memory ran out");
SIM_PROBE_DEF(tooBig, "an impossible amount of memory was asked for");
SIM_PROBE_DEF(containers, "a container used aligned storage");
SIM_PROBE_DEF(overAligned, "objects with extended alignment were created");
SIM_PROBE_DEF(ctorThrew, "the constructor of an object in aligned storage threw");
SIM_PROBE_DEF(arrays, "an uninitialised array was moved");
SIM_PROBE_DEF(selfMove, "an uninitialised array was moved to itself");
SIM_PROBE_DEF(structCopied, "a packed structure was copied");
SIM_PROBE_DEF(limited, "structures with fields of limited size were used");
SIM_PROBE_DEF(walked, "a pointer walked over a vector field");
SIM_PROBE_DEF(prefixes, "structures of different size with the same leading bytes were compared");
SIM_PROBE_DEF(structMoved, "a packed structure was moved");
SIM_PROBE_DEF(released, "the storage of a packed structure was released");
SIM_PROBE_DEF(assignFailed, "assigning a packed structure failed");
SIM_PROBE_DEF(rawViews, "typed views of raw memory were used");
SIM_PROBE_DEF(randomThrew, "a source of randomness threw while filling a view");
SIM_PROBE_DEF(converted, "a value of another type was assigned to a field");

template <typename F> bool tryIt(F f) {
    u64 const faults = sim::allocFaultsFired();
    try { sim::AllocFaults g; f(); return true; }
    catch (std::bad_alloc const &) { SIM_HIT(noMem); SIM_CHECK(sim::allocFaultsFired() > faults, "error-kind", "bad_alloc without a failed allocation"); return false; }
}
template <std::size_t A> bool aligned(void const * p) { return reinterpret_cast<std::uintptr_t>(p) % A == 0; }

// ---- containers with AlignedAllocator -------------------------------------------
template <std::size_t A> struct alignas(A) Wide { int v; unsigned char pad[A > 8 ? 7 : 1]; Wide(int x = 0) : v(x) { memset(pad, x & 255, sizeof pad); } };
template <std::size_t A> int val(Wide<A> const & w) { for (unsigned char c : w.pad) SIM_CHECK(c == (w.v & 255), "wrong-data", "bytes of an element were overwritten"); return w.v; }
int val(char c) { return c; }
int val(short c) { return c; }
int val(double c) { return static_cast<int>(c); }
int val(NObj const & o) { return o.value(); }
template <typename T> T mk(int v) { return T(static_cast<signed char>(v)); }
template <> NObj mk<NObj>(int v) { return NObj(v); }

template <typename T> void huge() {
    SIM_HIT(tooBig);
    static std::size_t const max = std::numeric_limits<std::size_t>::max();
    std::size_t const n = sim::flip() ? max / sizeof(T) + sim::choose(3) : max / 2 - sim::choose(2);
    if (n <= (std::size_t(1) << 40)) return;
    bool thrown = false; T * p = nullptr;
    try { p = AlignedAllocator<T>::allocate(n); } catch (std::bad_alloc const &) { thrown = true; }
    SIM_CHECK(thrown, "overflow", "allocate(%zu) of elements of %zu bytes returned %p", n, sizeof(T), static_cast<void *>(p));
}
template <typename T> void containers() {
    SIM_HIT(containers);
    AlignedAllocator<T> a; AlignedAllocator<char> const other(a);
    SIM_CHECK(a == other && !(a != other), "allocator", "allocators differ");
    if (sim::chance(1, 4)) huge<T>();
    // Raw storage: blocks do not overlap and stay as they were written.
    struct Block { unsigned char * p; std::size_t n; unsigned char c; };
    std::vector<Block> raw; raw.reserve(8);
    std::vector<T, AlignedAllocator<T> > v, w; std::list<T, AlignedAllocator<T> > l; std::deque<T, AlignedAllocator<T> > d;
    int mv[64], mw[64], ml[64], md[64]; unsigned nv = 0, nw = 0, nl = 0, nd = 0;
    for (u32 s = 1 + sim::choose(20); s--;) {
        int const x = static_cast<int>(sim::choose(120));
        switch (sim::choose(9)) {
        case 0: case 1: if (nv < 60 && tryIt([&] { v.push_back(mk<T>(x)); })) mv[nv++] = x; break;
        case 2: if (nl < 60 && tryIt([&] { l.push_back(mk<T>(x)); })) ml[nl++] = x; break;
        case 3: if (nd < 60 && tryIt([&] { d.push_back(mk<T>(x)); })) md[nd++] = x; break;
        case 4: if (tryIt([&] { std::vector<T, AlignedAllocator<T> > t(v); w.swap(t); })) { nw = nv; for (unsigned i = 0; i < nv; ++i) mw[i] = mv[i]; } break;
        case 5: v = std::move(w); nv = nw; for (unsigned i = 0; i < nw; ++i) mv[i] = mw[i]; w.clear(); nw = 0; break;
        case 6: if (nv) { v.pop_back(); --nv; } if (nl) { l.pop_back(); --nl; } break;
        case 7: tryIt([&] { v.shrink_to_fit(); }); break;
        default: {
            if (raw.size() < 6 && sim::chance(2, 3)) {
                std::size_t const n = 1 + sim::choose(5); T * p = nullptr;
                if (tryIt([&] { p = AlignedAllocator<T>::allocate(n); })) {
                    SIM_CHECK(p, "null", "allocate() returned a null pointer");
                    SIM_CHECK(aligned<alignof(T)>(p), "alignment", "%p is not aligned to %zu bytes", static_cast<void *>(p), alignof(T));
                    Block b = { reinterpret_cast<unsigned char *>(p), n * sizeof(T), static_cast<unsigned char>(x) };
                    memset(b.p, b.c, b.n); raw.push_back(b);
                }
            } else if (!raw.empty()) { Block const b = raw.back(); raw.pop_back(); AlignedAllocator<T>::deallocate(reinterpret_cast<T *>(b.p), b.n / sizeof(T)); }
        } }
        for (Block const & b : raw) for (std::size_t i = 0; i < b.n; ++i) SIM_CHECK(b.p[i] == b.c, "wrong-data", "a block was overwritten");
        SIM_CHECK(v.size() == nv && w.size() == nw && l.size() == nl && d.size() == nd, "wrong-size", "a container has another size");
        for (unsigned i = 0; i < nv; ++i) SIM_CHECK(val(v[i]) == mv[i] && aligned<alignof(T)>(&v[i]), "wrong-data", "element %u of a vector is %d instead of %d, or not aligned", i, val(v[i]), mv[i]);
        for (unsigned i = 0; i < nw; ++i) SIM_CHECK(val(w[i]) == mw[i], "wrong-data", "element %u of a copy is %d instead of %d", i, val(w[i]), mw[i]);
        unsigned i = 0; for (T const & e : l) { SIM_CHECK(val(e) == ml[i] && aligned<alignof(T)>(&e), "wrong-data", "element %u of a list differs", i); ++i; }
        i = 0; for (T const & e : d) { SIM_CHECK(val(e) == md[i], "wrong-data", "element %u of a deque differs", i); ++i; }
    }
    while (!raw.empty()) { AlignedAllocator<T>::deallocate(reinterpret_cast<T *>(raw.back().p), raw.back().n / sizeof(T)); raw.pop_back(); }
}

// ---- classes with aligned operators ------------------------------------------------
template <std::size_t A, std::size_t S> struct Item {
    SHAREMIND_ALIGNEDALLOCATION_MEMBERS(A)
    unsigned char b[S]; NObj o;
    Item(unsigned char c, bool fails) : o(c) { memset(b, c, S); if (fails) throw UserError{1}; }
    Item() : Item(7, false) {}
    void check(unsigned char c) const { for (unsigned char x : b) SIM_CHECK(x == c, "wrong-data", "bytes of an object were overwritten"); SIM_CHECK(o.value() == c, "wrong-data", "an object is damaged"); }
};
template <typename I, std::size_t A> void items() {
    SIM_HIT(overAligned);
    I * one[4] = { nullptr, nullptr, nullptr, nullptr }; unsigned char c[4] = { 0, 0, 0, 0 };
    for (u32 s = 1 + sim::choose(12); s--;) {
        u32 const i = sim::choose(4);
        if (one[i]) { one[i]->check(c[i]); delete one[i]; one[i] = nullptr; continue; }
        c[i] = static_cast<unsigned char>(sim::choose(200));
        bool const fails = sim::chance(1, 6);
        u64 const faults = sim::allocFaultsFired();
        try {
            sim::AllocFaults g;
            if (sim::flip()) { one[i] = new I(c[i], fails); SIM_CHECK(one[i], "null", "new returned a null pointer"); }
            else { one[i] = new (std::nothrow) I(c[i], fails); if (!one[i]) { SIM_HIT(noMem); SIM_CHECK(sim::allocFaultsFired() > faults, "error-kind", "a null pointer without a failed allocation"); } }
            SIM_CHECK(!fails || !one[i], "error-kind", "the exception of the constructor got lost");
        }
        catch (std::bad_alloc const &) { SIM_HIT(noMem); SIM_CHECK(sim::allocFaultsFired() > faults, "error-kind", "bad_alloc without a failed allocation"); }
        catch (UserError const &) { SIM_HIT(ctorThrew); SIM_CHECK(fails, "error-kind", "an unexpected exception"); }
        SIM_CHECK(aligned<A>(one[i]), "alignment", "%p is not aligned to %zu bytes", static_cast<void *>(one[i]), A);
        for (u32 k = 0; k < 4; ++k) if (one[k]) one[k]->check(c[k]);
    }
    for (I * p : one) delete p;
    std::size_t const n = sim::choose(4); I * arr = nullptr;
    if (sim::flip()) tryIt([&] { arr = new I[n]; }); else try { sim::AllocFaults g; arr = new (std::nothrow) I[n]; } catch (std::bad_alloc const &) { SIM_CHECK(sim::allocFaultsFired(), "error-kind", "bad_alloc without a failed allocation"); }
    if (arr) for (std::size_t i = 0; i < n; ++i) arr[i].check(7);
    delete[] arr;
}

// ---- UninitializedDynamicArray ----------------------------------------------------------
template <typename T> void arrays() {
    typedef UninitializedDynamicArray<T> U;
    std::unique_ptr<U> a[3]; struct M { std::size_t n = 0; unsigned char c = 0; } m[3];
    for (auto & p : a) p.reset(new U);
    for (u32 s = 1 + sim::choose(20); s--;) {
        int const i = static_cast<int>(sim::choose(3)), j = static_cast<int>(sim::choose(3));
        switch (sim::choose(5)) {
        case 0: {
            std::size_t const n = sim::choose(9);
            if (sim::chance(1, 8)) {
                SIM_HIT(tooBig); bool thrown = false;
                try { U u(std::numeric_limits<std::size_t>::max() / sizeof(T) - sim::choose(2) + 2 * sim::choose(2)); static_cast<void>(u.data()); } catch (std::bad_alloc const &) { thrown = true; }
                SIM_CHECK(thrown || sizeof(T) == 1, "overflow", "an impossible array was created");
                break;
            }
            tryIt([&] { U u(n); *a[i] = std::move(u); m[i].n = n; m[i].c = static_cast<unsigned char>(sim::choose(200)); if (n) memset(static_cast<void *>(a[i]->data()), m[i].c, n * sizeof(T)); });
            break; }
        case 1: { SIM_HIT(arrays); if (i == j) SIM_HIT(selfMove); U & r = (*a[i] = std::move(*a[j])); SIM_CHECK(&r == a[i].get(), "wrong-result", "assigning returned another array"); if (i != j) { m[i] = m[j]; m[j].n = 0; } break; }
        case 2: { if (i == j) break; SIM_HIT(arrays); std::unique_ptr<U> p; if (tryIt([&] { p.reset(new U(std::move(*a[j]))); })) { a[i] = std::move(p); m[i] = m[j]; m[j].n = 0; } break; }
        case 3: if (m[i].n) { m[i].c = static_cast<unsigned char>(sim::choose(200)); for (T & e : *a[i]) memset(static_cast<void *>(&e), m[i].c, sizeof(T)); } break;
        default: std::swap(*a[i], *a[j]); std::swap(m[i], m[j]);
        }
        for (int k = 0; k < 3; ++k) {
            U & u = *a[k]; U const & c = u;
            SIM_CHECK(u.size() == m[k].n && u.empty() == !m[k].n, "wrong-size", "an array has %zu elements, it should have %zu", u.size(), m[k].n);
            SIM_CHECK(static_cast<std::size_t>(u.end() - u.begin()) == m[k].n && c.begin() == u.begin() && c.end() == u.end() && c.cbegin() == u.begin() && c.cend() == u.end() && u.data() == u.begin() && c.data() == u.begin(), "wrong-range", "the range of an array is wrong");
            SIM_CHECK(aligned<alignof(T)>(u.data()), "alignment", "an array is not aligned");
            for (std::size_t e = 0; e < m[k].n; ++e) {
                SIM_CHECK(&u[e] == u.begin() + e && &c[e] == &u[e] && u.data(e) == &u[e] && c.data(e) == &u[e], "wrong-element", "element %zu is elsewhere", e);
                unsigned char const * b = reinterpret_cast<unsigned char const *>(&u[e]);
                for (std::size_t q = 0; q < sizeof(T); ++q) SIM_CHECK(b[q] == m[k].c, "wrong-data", "an element was overwritten");
            }
        }
    }
}

// ---- packed structures ---------------------------------------------------------------------
typedef DynamicFieldPlaceholder<> Raw;
typedef DynamicVectorFieldPlaceholder<double> Doubles;
typedef DynamicPackedStruct<std::int64_t, char, Raw, std::uint16_t, Doubles, std::int32_t> S;
struct SM { bool set = false; bool gone = false; std::size_t n = 0, k = 0; std::int64_t a = 0; char b = 0; unsigned char raw[20] = {}; std::uint16_t c = 0; double d[12] = {}; std::int32_t e = 0; };
void compare(S & s, SM const & m) {
    if (m.gone) { SIM_CHECK(!s.data(), "not-released", "a structure kept its storage"); return; }
    S const & c = s;
    std::size_t const size = 8 + 1 + m.n + 2 + 8 * m.k + 4;
    SIM_CHECK(s.size() == size && s.data() && c.data() == s.data() && c.constData() == s.data(), "wrong-size", "a structure has %zu bytes, it should have %zu", s.size(), size);
    SIM_CHECK(s.endVoidPtr() == static_cast<char *>(s.data()) + size && c.endVoidPtr() == s.endVoidPtr() && c.endConstVoidPtr() == s.endVoidPtr(), "wrong-range", "the end of a structure is wrong");
    SIM_CHECK(s.elemOffset<0>() == 0 && s.elemOffset<1>() == 8 && s.elemOffset<2>() == 9 && s.elemOffset<3>() == 9 + m.n && s.elemOffset<4>() == 11 + m.n && s.elemOffset<5>() == 11 + m.n + 8 * m.k, "wrong-offset", "fields are elsewhere");
    SIM_CHECK(s.get<0>() == m.a && s.get<1>() == m.b && s.get<3>() == m.c && s.get<5>() == m.e, "wrong-data", "a field has another value");
    SIM_CHECK(c.cref<0>() == m.a && c.cref<3>() == m.c && s.ref<5>() == m.e && *c.constPtr<1>() == m.b, "wrong-data", "a reference reads another value");
    SIM_CHECK(!m.n || !memcmp(c.ptr<2>(), m.raw, m.n), "wrong-data", "raw bytes differ");
    for (std::size_t i = 0; i < m.k; ++i) SIM_CHECK(static_cast<double>(c.constPtr<4>()[i]) == m.d[i], "wrong-data", "element %zu of a vector field is %g instead of %g", i, static_cast<double>(c.constPtr<4>()[i]), m.d[i]);
    auto const p = s.ptr<4>(), q = p + m.k;
    SIM_CHECK(q - p == static_cast<std::ptrdiff_t>(m.k) && p - q == -static_cast<std::ptrdiff_t>(m.k) && p <= q && (p == q) == !m.k && static_cast<void *>(q) == s.voidPtr<5>(), "wrong-range", "pointers into a vector field are wrong");
}
void fill(S & s, SM & m) { // all fields
    m.a = sim::choose(1000) - 500ll * 1000000007ll; m.b = static_cast<char>(sim::choose(100)); m.c = static_cast<std::uint16_t>(sim::choose(60000)); m.e = -static_cast<std::int32_t>(sim::choose(60000));
    s.set<0>(m.a); s.set<1>(m.b); s.set<3>(m.c); s.set<5>(m.e);
    for (std::size_t i = 0; i < m.n; ++i) m.raw[i] = static_cast<unsigned char>(sim::choose(256));
    if (m.n) memcpy(s.ptr<2>(), m.raw, m.n);
    for (std::size_t i = 0; i < m.k; ++i) { m.d[i] = sim::choose(1000) / 8.0; s.ptr<4>()[i] = m.d[i]; }
}
// A walk over a vector field, next to one over an ordinary array.
void walk(S & s, SM & m) {
    SIM_HIT(walked);
    auto const begin = s.ptr<4>(); auto p = begin; std::size_t i = 0; S const & c = s; auto const cbegin = c.constPtr<4>();
    for (u32 q = 1 + sim::choose(10); q--;) {
        std::size_t const to = sim::choose(static_cast<u32>(m.k) + 1u);
        switch (sim::choose(10)) {
        case 0: if (i < m.k) { auto & r = ++p; ++i; SIM_CHECK(&r == &p, "wrong-result", "moving a pointer returned another one"); } break;
        case 1: if (i) { auto & r = --p; --i; SIM_CHECK(&r == &p, "wrong-result", "moving a pointer returned another one"); } break;
        case 2: if (i < m.k) { auto const o = p++; SIM_CHECK(o == begin + i, "wrong-range", "a pointer moved too early"); ++i; } break;
        case 3: if (i) { auto const o = p--; SIM_CHECK(o == begin + i, "wrong-range", "a pointer moved too early"); --i; } break;
        case 4: if (to >= i) { p += to - i; i = to; } break;
        case 5: if (to <= i) { p -= i - to; i = to; } break;
        case 6: if (to <= i) { p = p - (i - to); i = to; } break;
        case 7: if (to >= i) { p = (to - i) + p; i = to; } break;
        case 8: if (i < m.k) { double const v = sim::choose(1000) / 4.0; *p = v; m.d[i] = v; } break;
        default: if (to < m.k) { double const v = sim::choose(1000) / 2.0; begin[to] = v; m.d[to] = v; SIM_CHECK(static_cast<double>(*(cbegin + to)) == v, "wrong-data", "an element reads back another value"); }
        }
        auto const o = begin + to;
        SIM_CHECK(static_cast<bool>(p) && static_cast<void *>(p) == static_cast<char *>(s.voidPtr<4>()) + 8 * i, "wrong-range", "a pointer to element %zu refers to another", i);
        SIM_CHECK((p == o) == (i == to) && (p != o) == (i != to) && (p < o) == (i < to) && (p <= o) == (i <= to) && (p > o) == (i > to) && (p >= o) == (i >= to), "wrong-comparison", "pointers to elements %zu and %zu compare wrongly", i, to);
        SIM_CHECK(p - o == static_cast<std::ptrdiff_t>(i) - static_cast<std::ptrdiff_t>(to) && (p == cbegin) == (i == 0) && p - cbegin == static_cast<std::ptrdiff_t>(i), "wrong-range", "the distance of elements is wrong");
        if (i < m.k) SIM_CHECK(static_cast<double>(*p) == m.d[i], "wrong-data", "element %zu reads another value", i);
    }
}
void structs() {
    std::unique_ptr<S> s[3]; SM m[3];
    for (int i = 0; i < 3; ++i) { m[i].n = sim::choose(5); m[i].k = sim::choose(4); s[i].reset(new S(m[i].n, m[i].k)); fill(*s[i], m[i]); }
    for (u32 q = 1 + sim::choose(25); q--;) {
        int const i = static_cast<int>(sim::choose(3)), j = static_cast<int>(sim::choose(3));
        S & x = *s[i]; SM & e = m[i];
        switch (sim::choose(11)) {
        case 0: { SM t; t.n = sim::choose(20); t.k = sim::choose(12); std::unique_ptr<S> p; if (tryIt([&] { p.reset(new S(t.n, t.k)); })) { fill(*p, t); s[i] = std::move(p); e = t; } break; }
        case 1: { SIM_HIT(structCopied); std::unique_ptr<S> p; bool const k = sim::flip(); if (tryIt([&] { if (k) p.reset(new S(static_cast<S const &>(*s[j]))); else p.reset(new S(*s[j])); })) { s[i] = std::move(p); e = m[j]; } break; }
        case 2: case 3: { SIM_HIT(structCopied); bool k = sim::flip(); if (tryIt([&] { S & r = k ? x = static_cast<S const &>(*s[j]) : x = *s[j]; SIM_CHECK(&r == &x, "wrong-result", "assigning returned another structure"); })) e = m[j]; else SIM_HIT(assignFailed); break; }
        case 4: { if (i == j) break; SIM_HIT(structMoved); S & r = (x = std::move(*s[j])); SIM_CHECK(&r == &x, "wrong-result", "assigning returned another structure"); e = m[j]; m[j].gone = true; break; }
        case 5: { if (i == j) break; SIM_HIT(structMoved); std::unique_ptr<S> p; if (tryIt([&] { p.reset(new S(std::move(*s[j]))); })) { s[i] = std::move(p); e = m[j]; m[j].gone = true; } break; }
        case 6: { if (e.gone || sim::chance(2, 3)) break; SIM_HIT(released); void * const was = x.data(); { auto const p = x.release(); SIM_CHECK(p.get() == was && !x.data(), "not-released", "other storage was released"); if (e.n) SIM_CHECK(!memcmp(static_cast<char *>(p.get()) + 9, e.raw, e.n), "wrong-data", "released bytes differ"); } e.gone = true; break; }
        case 7: { // assignments of other types and from other fields
            if (e.gone) break; SIM_HIT(converted);
            short const v = static_cast<short>(sim::choose(2000) - 1000); char const w = static_cast<char>(sim::choose(100));
            x.ref<0>() = v; e.a = v; x.ref<5>() = w; e.e = w;
            if (e.k > 1) { auto const p = x.ptr<4>(); p[0] = v; e.d[0] = v; p[1] = p[0]; e.d[1] = e.d[0]; auto r = x.set<3>(static_cast<std::uint16_t>(7)); r = static_cast<std::uint16_t>(8); e.c = 8; }
            break; }
        case 8: { if (!e.gone) fill(x, e); break; }
        case 9: { if (!e.gone) walk(x, e); break; }
        default: {
            if (e.gone || m[j].gone) break;
            if (sim::chance(1, 3)) { // the bytes of one begin like the other
                std::size_t const n = sim::choose(20), k = sim::choose(12); std::unique_ptr<S> p;
                if (n + 8 * k == e.n + 8 * e.k || !tryIt([&] { p.reset(new S(n, k)); })) break;
                SIM_HIT(prefixes); memset(p->data(), 0, p->size()); memcpy(p->data(), x.data(), std::min(x.size(), p->size()));
                S const & y = *p; S const & z = x;
                SIM_CHECK(!(z == y) && !(y == z) && z != y && y != z, "wrong-comparison", "structures of %zu and %zu bytes are equal", z.size(), y.size());
                break;
            }
            bool same = e.n == m[j].n && e.k == m[j].k && e.a == m[j].a && e.b == m[j].b && e.c == m[j].c && e.e == m[j].e && !memcmp(e.raw, m[j].raw, e.n);
            for (std::size_t k = 0; same && k < e.k; ++k) same = e.d[k] == m[j].d[k];
            std::size_t const si = e.n + 8 * e.k, sj = m[j].n + 8 * m[j].k;
            if (si == sj && e.n != m[j].n) break; // the same bytes could mean something else
            SIM_CHECK((x == *s[j]) == same && (x != *s[j]) == !same, "wrong-comparison", "structures compare %d", x == *s[j]);
        } }
        for (int k = 0; k < 3; ++k) compare(*s[k], m[k]);
    }
}
// Dynamic fields of limited size, vectors before other dynamic fields, and one at the end.
typedef DynamicVectorFieldPlaceholder<std::int32_t, 0, 6> UpTo6;
typedef DynamicFieldPlaceholder<1, 9> OneTo9;
typedef DynamicVectorFieldPlaceholder<std::uint16_t, 1, 5> OneTo5;
typedef DynamicPackedStruct<std::uint16_t, UpTo6, char, OneTo9, std::int64_t, OneTo5> S2;
typedef DynamicPackingInfo<std::uint16_t, UpTo6, char, OneTo9, std::int64_t, OneTo5> I2;
void limitedStructs() {
    SIM_HIT(limited);
    SIM_CHECK(S2::minSizeInBytes() == 2 + 1 + 1 + 8 + 2 && S2::maxSizeInBytes() == 2 + 24 + 1 + 9 + 8 + 10 && S2::numFields() == 6 && S2::numDynamicFields() == 3 && S2::hasDynamicFields(), "wrong-size", "a structure of %zu to %zu bytes with %zu fields", S2::minSizeInBytes(), S2::maxSizeInBytes(), S2::numFields());
    std::unique_ptr<S2> s[2]; std::vector<unsigned char> m[2]; std::size_t v[2] = { 0, 0 }, n[2] = { 0, 0 }, w[2] = { 0, 0 };
    for (u32 q = 2 + sim::choose(12); q--;) {
        u32 const i = sim::choose(2);
        if (!s[i] || sim::chance(1, 4)) {
            std::size_t const nv = sim::choose(7), nn = 1 + sim::choose(9), nw = 1 + sim::choose(5);
            for (u32 k = 0; k < 4; ++k) { // sizes outside of the limits
                std::size_t const a = k == 1 ? 7 : nv, b = k == 2 ? 10 : k == 3 ? 0 : nn, c = sim::chance(1, 8) ? sim::choose(2) * 6 : nw;
                SIM_CHECK(I2::validSizes(a, b, c) == (a <= 6 && b >= 1 && b <= 9 && c >= 1 && c <= 5), "wrong-limits", "sizes %zu, %zu and %zu are valid: %d", a, b, c, I2::validSizes(a, b, c));
            }
            std::unique_ptr<S2> p; if (!tryIt([&] { p.reset(new S2(nv, nn, nw)); })) continue;
            s[i] = std::move(p); v[i] = nv; n[i] = nn; w[i] = nw;
            m[i].assign(2 + 4 * nv + 1 + nn + 8 + 2 * nw, 0);
            SIM_CHECK(s[i]->size() == m[i].size() && I2::sizeInBytes(nv, nn, nw) == m[i].size(), "wrong-size", "a structure has %zu bytes, it should have %zu", s[i]->size(), m[i].size());
            memset(s[i]->data(), 0, m[i].size());
        }
        S2 & x = *s[i]; unsigned char * const b = m[i].data(); S2 const & c = x;
        std::size_t const o[7] = { 0, 2, 2 + 4 * v[i], 3 + 4 * v[i], 3 + 4 * v[i] + n[i], 11 + 4 * v[i] + n[i], m[i].size() };
        u32 const r = sim::choose(1000);
        switch (sim::choose(7)) {
        case 0: { std::uint16_t const z = static_cast<std::uint16_t>(r); x.set<0>(z); memcpy(b + o[0], &z, 2); break; }
        case 1: if (v[i]) { u32 const k = sim::choose(static_cast<u32>(v[i])); std::int32_t const z = static_cast<std::int32_t>(r) * -77777; x.ptr<1>()[k] = z; memcpy(b + o[1] + 4 * k, &z, 4); } break;
        case 2: { char const z = static_cast<char>(r % 100); x.ref<2>() = z; b[o[2]] = static_cast<unsigned char>(z); break; }
        case 3: { u32 const k = sim::choose(static_cast<u32>(n[i])); static_cast<unsigned char *>(x.ptr<3>())[k] = static_cast<unsigned char>(r); b[o[3] + k] = static_cast<unsigned char>(r); break; }
        case 4: { std::int64_t const z = r * 1000000007ll; *x.ptr<4>() = z; memcpy(b + o[4], &z, 8); break; }
        case 5: { u32 const k = sim::choose(static_cast<u32>(w[i])); std::uint16_t const z = static_cast<std::uint16_t>(r * 60); x.ptr<5>()[k] = z; memcpy(b + o[5] + 2 * k, &z, 2); break; }
        default: if (s[0] && s[1]) { if (!tryIt([&] { x = static_cast<S2 const &>(*s[1 - i]); })) break; m[i] = m[1 - i]; v[i] = v[1 - i]; n[i] = n[1 - i]; w[i] = w[1 - i]; continue; }
        }
        SIM_CHECK(x.elemOffset<0>() == o[0] && x.elemOffset<1>() == o[1] && x.elemOffset<2>() == o[2] && x.elemOffset<3>() == o[3] && x.elemOffset<4>() == o[4] && x.elemOffset<5>() == o[5] && x.size() == o[6] && c.endConstVoidPtr() == static_cast<char const *>(c.data()) + o[6], "wrong-offset", "fields are elsewhere");
        SIM_CHECK(!memcmp(x.data(), b, m[i].size()), "wrong-data", "a field has another value");
        // The layout computed without a structure.
        I2::AccumArrayType const layout(v[i], n[i], w[i]);
        std::size_t sums[3] = { 0, 0, 0 }; I2::populateAccumArray(sums, v[i], n[i], w[i]);
        SIM_CHECK(I2::sizeFromAccum(layout) == o[6] && layout.structSizeInBytes() == o[6] && I2::elemOffset<4>(layout) == o[4] && I2::elemOffset<5>(layout) == o[5] && sums[0] == o[2] && sums[1] == o[4] && sums[2] == o[6], "wrong-offset", "the computed layout is another one");
        SIM_CHECK(I2::voidPtr<4>(x.data(), layout) == x.voidPtr<4>() && I2::constVoidPtr<5>(x.data(), layout) == x.voidPtr<5>() && I2::endVoidPtr(x.data(), layout) == x.endVoidPtr() && I2::get<4>(x.data(), layout) == x.get<4>(), "wrong-offset", "fields are elsewhere in the computed layout");
    }
}
typedef PackedStruct<char, std::int64_t, std::uint16_t, double> P;
void packed() {
    // Placed at any address.
    std::unique_ptr<char[]> mem(new char[3 * sizeof(P) + 8]);
    u32 const off = sim::choose(8); P * const p = reinterpret_cast<P *>(mem.get() + off);
    struct PM { char a = 0; std::int64_t b = 0; std::uint16_t c = 0; double d = 0; } m[3];
    memset(static_cast<void *>(p), 0, 3 * sizeof(P));
    SIM_CHECK(sizeof(P) == 19 && P::staticSize() == 19, "wrong-size", "a packed structure has %zu bytes", sizeof(P));
    for (u32 s = 1 + sim::choose(15); s--;) {
        u32 const i = sim::choose(3), j = sim::choose(3); u32 const v = sim::choose(100);
        switch (sim::choose(7)) {
        case 0: p[i].set<0>(static_cast<char>(v)); m[i].a = static_cast<char>(v); break;
        case 1: p[i].set<1>(v * 1000000007ll); m[i].b = v * 1000000007ll; break;
        case 2: p[i].ref<2>() = static_cast<std::uint16_t>(v * 600); m[i].c = static_cast<std::uint16_t>(v * 600); break;
        case 3: p[i].ref<3>() = v; m[i].d = v; break;
        case 4: p[i] = p[j]; m[i] = m[j]; break;
        case 5: p[i].ref<1>() = p[j].ref<2>(); m[i].b = m[j].c; SIM_HIT(converted); break;
        default: p[i].refs().set<3>(v / 4.0); m[i].d = v / 4.0;
        }
        for (u32 k = 0; k < 3; ++k) {
            P const & c = p[k];
            SIM_CHECK(c.get<0>() == m[k].a && c.get<1>() == m[k].b && c.get<2>() == m[k].c && c.get<3>() == m[k].d, "wrong-data", "a field of a packed structure has another value");
            SIM_CHECK(c.cref<1>() == m[k].b && *c.constPtr<2>() == m[k].c && c.crefs().get<3>() == m[k].d, "wrong-data", "a reference reads another value");
            for (u32 l = 0; l < 3; ++l) { bool const same = m[k].a == m[l].a && m[k].b == m[l].b && m[k].c == m[l].c && m[k].d == m[l].d; SIM_CHECK((c == p[l]) == same && (c != p[l]) == !same, "wrong-comparison", "packed structures compare %d", c == p[l]); }
        }
    }
}

// Typed views of raw memory (given as an address and a number of bytes).
struct RawMemory { void * pData; std::size_t size; };
struct ConstRawMemory { void const * pData; std::size_t size; };
struct Source {
    u64 s; std::size_t failAt; void const * from = nullptr; std::size_t asked = 0;
    unsigned char next() { s = s * 6364136223846793005ull + 1442695040888963407ull; return static_cast<unsigned char>(s >> 33); }
    void fillBytes(void * p, std::size_t n) { for (std::size_t i = 0; i < n; ++i) { if (asked++ == failAt) { SIM_HIT(randomThrew); throw UserError{7}; } static_cast<unsigned char *>(p)[i] = next(); } }
    template <typename T> void fillBlock(T * b, T * e) { from = b; fillBytes(b, static_cast<std::size_t>(e - b) * sizeof(T)); }
};
template <typename T>
void views() {
    SIM_HIT(rawViews);
    std::size_t const n = sim::choose(20), extra = sizeof(T) > 1 ? sim::choose(sizeof(T)) : 0u, bytes = n * sizeof(T) + extra;
    std::unique_ptr<T[]> const mem(new T[n + 1]); unsigned char * const raw = reinterpret_cast<unsigned char *>(mem.get());
    unsigned char model[21 * 16];
    for (std::size_t i = 0; i < (n + 1) * sizeof(T); ++i) raw[i] = model[i] = static_cast<unsigned char>(std::is_same<T, bool>::value ? sim::choose(2) : sim::choose(256));
    RawMemory r{mem.get(), bytes}; ConstRawMemory cr{mem.get(), bytes};
    RefVec<T> v(r); RefVec<T> const & c = v; CRefVec<T> const w(cr);
    for (u32 steps = 1 + sim::choose(8); steps--;) {
        switch (sim::choose(4)) {
        case 0: if (n) { std::size_t const i = sim::choose(static_cast<u32>(n)); T const x = static_cast<T>(sim::choose(256)); v[i] = x; memcpy(model + i * sizeof(T), &x, sizeof(T)); } break;
        case 1: { T const x = static_cast<T>(sim::choose(256)); for (auto & e : v) e = x; for (std::size_t i = 0; i < n; ++i) memcpy(model + i * sizeof(T), &x, sizeof(T)); break; }
        case 2: {
            Source s{sim::choose(1000), sim::flip() ? sim::choose(64) : ~std::size_t(0)}, t{s.s, s.failAt};
            bool ok = true; u64 const a0 = sim::allocFaultsFired();
            try { sim::AllocFaults af; v.randomize(s); }
            catch (UserError const &) { ok = false; }
            catch (std::bad_alloc const &) { ok = false; SIM_HIT(noMem); SIM_CHECK(sim::allocFaultsFired() > a0, "error-kind", "bad_alloc without a failed allocation"); }
            if (std::is_same<T, bool>::value) { // through the bits of a bit vector
                if (ok) { BitVec<> bits(n); bits.randomize(t); for (std::size_t i = 0; i < n; ++i) model[i] = bits[i]; }
            } else { try { t.fillBytes(model, n * sizeof(T)); } catch (UserError const &) { SIM_CHECK(!ok, "wrong-data", "an exception of the source of randomness was lost"); } }
            break;
        }
        default: break;
        }
        SIM_CHECK(v.size() == n && w.size() == n && c.empty() == !n && w.empty() == !n && v.end() - v.begin() == static_cast<std::ptrdiff_t>(n), "wrong-size", "a view of %zu bytes has %zu elements of %zu bytes", bytes, v.size(), sizeof(T));
        SIM_CHECK(static_cast<void *>(v.begin()) == mem.get() && c.begin() == v.begin() && w.end() == c.end(), "wrong-data", "a view refers to other memory");
        for (std::size_t i = 0; i < n; ++i) SIM_CHECK(!memcmp(&v[i], model + i * sizeof(T), sizeof(T)) && &c[i] == &v[i] && &w[i] == &v[i], "wrong-data", "element %zu of a view is another one", i);
        SIM_CHECK(!memcmp(raw, model, (n + 1) * sizeof(T)), "wrong-data", "bytes outside of a view were changed");
    }
}
} // namespace

extern "C" void sim_main() {
    sim::nontrivial();
    switch (sim::choose(21)) {
    case 0: containers<Wide<4> >(); break;
    case 1: containers<char>(); break;
    case 2: containers<short>(); break;
    case 3: containers<double>(); break;
    case 4: containers<Wide<16> >(); break;
    case 5: containers<Wide<64> >(); break;
    case 6: containers<Wide<256> >(); break;
    case 7: containers<NObj>(); break;
    case 8: items<Item<16, 5>, 16>(); break;
    case 9: items<Item<2, 3>, 2>(); break;
    case 10: items<Item<128, 130>, 128>(); break;
    case 11: arrays<char>(); arrays<NObj>(); break;
    case 12: arrays<double>(); arrays<Wide<16> >(); break;
    case 13: packed(); break;
    case 14: limitedStructs(); break;
    case 15: switch (sim::choose(4)) { case 0: views<char>(); break; case 1: views<int>(); break; case 2: views<bool>(); break; default: views<long long>(); } break;
    default: structs();
    }
    SIM_CHECK(NObj::live == 0, "leak", "%d objects alive", NObj::live);
}
