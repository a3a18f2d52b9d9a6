// C39: unaligned pointers and references, pointers to bytes, hashes of bytes.
#include "common.h"
#include <cstring>
#include <sharemind/ConstUnalignedReference.h>
#include <sharemind/Hash.h>
#include <sharemind/PotentiallyVoidTypeInfo.h>
#include <sharemind/UnalignedPointer.h>
#include <sharemind/UnalignedReference.h>
extern "C" char const * const sim_property = "C39";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(odd, "a value was accessed where its type may not be placed");
SIM_PROBE_DEF(overlapped, "a value was assigned from one it overlaps");
SIM_PROBE_DEF(neighbours, "threads wrote neighbouring values");
SIM_PROBE_DEF(shared, "threads read the same values");
SIM_PROBE_DEF(hashed, "bytes were hashed in parts");
SIM_PROBE_DEF(converted, "a value of another type was assigned");
SIM_PROBE_DEF(between, "pointers not a whole number of values apart were subtracted");

typedef unsigned char Byte;
struct Three { Byte b[3]; };
struct Odd { Byte b[13]; };
struct Padded { char c; std::int32_t i; };
template <typename T> T randomValue() { T v; Byte b[sizeof(T)]; for (Byte & x : b) x = static_cast<Byte>(sim::choose(256)); std::memcpy(&v, b, sizeof v); return v; }
// Types all of whose bytes count:
template <typename T> bool same(T const & v, Byte const * const p) { return std::memcmp(&v, p, sizeof v) == 0; }
bool same(Padded const & v, Byte const * const p) { Padded w; std::memcpy(&w, p, sizeof w); return v.c == w.c && v.i == w.i; }

// Bytes in memory of exactly their size, and what they should be.
struct Bytes {
    Byte * p; std::vector<Byte> model;
    explicit Bytes(std::size_t const n) : p(new Byte[n]), model(n) { for (std::size_t i = 0; i < n; ++i) p[i] = model[i] = static_cast<Byte>(sim::choose(256)); }
    Bytes(Bytes const &) = delete;
    ~Bytes() { delete[] p; }
    void check() const { for (std::size_t i = 0; i < model.size(); ++i) SIM_CHECK(p[i] == model[i], "wrong-bytes", "byte %zu of %zu is %u, not %u", i, model.size(), p[i], model[i]); }
};

// A walk of pointers over values which begin at an offset.
template <typename T> void walk() {
    std::size_t const n = 1 + sim::choose(6), off = sim::choose(9), slack = sim::choose(3);
    Bytes b(off + n * sizeof(T) + slack);
    Byte * const start = b.p + off;
    if (reinterpret_cast<std::uintptr_t>(start) % alignof(T)) SIM_HIT(odd);
    typedef UnalignedPointer<T> P; typedef UnalignedPointer<T const> CP;
    P p(start); std::size_t at = 0; // in values, n is the end
    P const begin(start), end(start + n * sizeof(T));
    auto where = [&](P const & q) { return static_cast<std::size_t>(static_cast<Byte *>(static_cast<void *>(q)) - start); };
    auto whereC = [&](CP const & q) { return static_cast<std::size_t>(static_cast<Byte const *>(static_cast<void const *>(q)) - start); };
    auto read = [&](std::size_t const i, T const & v) { SIM_CHECK(same(v, b.model.data() + off + i * sizeof(T)), "wrong-value", "value %zu of %zu bytes was read wrong", i, sizeof(T)); };
    for (u32 k = 2 + sim::choose(8); k--;) {
        switch (sim::choose(11)) {
        case 0: if (at < n) { P & r = ++p; SIM_CHECK(&r == &p, "wrong-pointer", "a pointer was not returned"); ++at; } break;
        case 1: if (at > 0) { P & r = --p; SIM_CHECK(&r == &p, "wrong-pointer", "a pointer was not returned"); --at; } break;
        case 2: if (at < n) { P const o = p++; SIM_CHECK(where(o) == at * sizeof(T), "wrong-pointer", "p++ is not the old pointer"); ++at; } break;
        case 3: if (at > 0) { P const o = p--; SIM_CHECK(where(o) == at * sizeof(T), "wrong-pointer", "p-- is not the old pointer"); --at; } break;
        case 4: { std::size_t const to = sim::choose(static_cast<u32>(n + 1));
            if (to >= at) { if (sim::flip()) p += to - at; else p = sim::flip() ? p + (to - at) : (to - at) + p; }
            else { if (sim::flip()) p -= at - to; else p = p - (at - to); }
            at = to; break; }
        case 5: if (at < n) { // write
            T const v = randomValue<T>();
            if (sim::flip()) *p = v; else { std::size_t const i = sim::choose(static_cast<u32>(n - at)); p[i] = v; std::memcpy(&b.model[off + (at + i) * sizeof(T)], &v, sizeof v); break; }
            std::memcpy(&b.model[off + at * sizeof(T)], &v, sizeof v); } break;
        case 6: if (at < n) { T const v = *p; read(at, v); std::size_t const i = sim::choose(static_cast<u32>(n - at)); T const w = p[i]; read(at + i, w);
            CP const c(start + at * sizeof(T)); T const x = *c; read(at, x); T const y = c[i]; read(at + i, y); } break;
        case 7: { // assign one from another, which it may overlap
            std::size_t const room = b.model.size() - sizeof(T);
            std::size_t const i = sim::choose(static_cast<u32>(room + 1)), d = sim::choose(static_cast<u32>(sizeof(T) + 1));
            std::size_t const j = sim::flip() ? (i + d <= room ? i + d : room) : (i >= d ? i - d : 0);
            if (i != j && (i > j ? i - j : j - i) < sizeof(T)) SIM_HIT(overlapped);
            UnalignedReference<T> to(b.p + i);
            if (sim::flip()) to = UnalignedReference<T>(b.p + j); else to = static_cast<T>(ConstUnalignedReference<T>(static_cast<void const *>(b.p + j)));
            T v; std::memcpy(&v, &b.model[j], sizeof v);
            std::memcpy(&b.model[i], &v, sizeof v);
            if (std::is_same<T, Padded>::value) std::memcpy(&b.model[i], b.p + i, sizeof v); // its padding may change
            SIM_CHECK(same(v, b.p + i), "wrong-value", "a value of %zu bytes assigned from one %zu bytes further on is wrong", sizeof v, j - i);
            break; }
        case 8: { // compare
            std::size_t const i = sim::choose(static_cast<u32>(n + 1)); P const q(start + i * sizeof(T)); CP const c(start + i * sizeof(T));
            SIM_CHECK((p == q) == (at == i) && (p != q) == (at != i) && (p < q) == (at < i) && (p <= q) == (at <= i) && (p > q) == (at > i) && (p >= q) == (at >= i), "wrong-comparison", "pointers to values %zu and %zu were compared wrong", at, i);
            SIM_CHECK((p == c) == (at == i) && (c != p) == (at != i) && (c < p) == (i < at) && (p <= c) == (at <= i) && (c > p) == (i > at) && (p >= c) == (at >= i), "wrong-comparison", "a pointer and one to constants were compared wrong");
            std::ptrdiff_t const d = static_cast<std::ptrdiff_t>(at) - static_cast<std::ptrdiff_t>(i);
            SIM_CHECK(p - q == d && q - p == -d && p - c == d && c - p == -d, "wrong-distance", "pointers to values %zu and %zu are said to be %td apart", at, i, p - q);
            if (sizeof(T) > 1 && i < n) { // part of a value more does not count
                SIM_HIT(between);
                P const part(start + i * sizeof(T) + 1 + sim::choose(static_cast<u32>(sizeof(T) - 1)));
                SIM_CHECK(part - begin == static_cast<std::ptrdiff_t>(i) && begin - part == -static_cast<std::ptrdiff_t>(i) && (part == q) == false && part > q, "wrong-distance", "a pointer within value %zu is said to be %td from the first", i, part - begin);
            }
            break; }
        case 9: { // copy, assign, convert to bool
            P c(p); P m(std::move(c)); P a(begin); a = m; P z(nullptr);
            SIM_CHECK(where(m) == at * sizeof(T) && where(a) == at * sizeof(T) && static_cast<bool>(p) && !static_cast<bool>(z) && !(z == p) && z == P(nullptr), "wrong-pointer", "a copied pointer is wrong");
            z = a; SIM_CHECK(z == p, "wrong-pointer", "an assigned pointer is wrong");
            break; }
        default: { // from the start to the end
            std::size_t i = 0; CP c(start);
            for (P q(begin); q != end; ++q, c++, ++i) { T const v = *q; read(i, v); SIM_CHECK(whereC(c) == i * sizeof(T), "wrong-pointer", "a pointer to constants was incremented wrong"); }
            SIM_CHECK(i == n && end - begin == static_cast<std::ptrdiff_t>(n), "wrong-distance", "%zu values were passed, not %zu", i, n);
            while (i) { --i; --c; T const v = *c; read(i, v); }
            break; }
        }
        SIM_CHECK(where(p) == at * sizeof(T), "wrong-pointer", "a pointer is %zu bytes on, not %zu", where(p), at * sizeof(T));
        if (!std::is_same<T, Padded>::value) b.check();
        else for (std::size_t i = 0; i < b.model.size(); ++i) if (i < off || i >= off + n * sizeof(T)) { if (b.p[i] != b.model[i]) b.model[i] = b.p[i]; } else b.model[i] = b.p[i];
    }
}

// Values of other types which convert.
template <typename T, typename U> void assigned() {
    std::size_t const off = sim::choose(9); Bytes b(off + sizeof(T) + sim::choose(3));
    U const u = static_cast<U>(sim::choose(1u << 15)); T const t = u;
    UnalignedReference<T> r(b.p + off);
    UnalignedReference<T> & s = r = u; // assignment returns the reference
    std::memcpy(&b.model[off], &t, sizeof t); b.check(); SIM_HIT(converted);
    SIM_CHECK(&s == &r && static_cast<T>(s) == t, "wrong-value", "an assigned value was read wrong");
}

// Distances of pointers to bytes or to objects, and copies.
void bytes() {
    std::size_t const n = 1 + sim::choose(20); Bytes b(n * 4);
    std::size_t const i = sim::choose(static_cast<u32>(n + 1)), j = sim::choose(static_cast<u32>(n + 1));
    void * const v = b.p; void const * const c = b.p;
    SIM_CHECK(ptrAdd(v, i) == b.p + i && ptrAdd(c, i) == b.p + i && ptrSub(ptrAdd(v, i), i) == v && ptrSub(ptrAdd(c, i), i) == c && ptrAdd(ptrAdd(v, i), -static_cast<std::ptrdiff_t>(i)) == v
              && ptrDist(ptrAdd(c, i), ptrAdd(c, j)) == static_cast<std::ptrdiff_t>(j) - static_cast<std::ptrdiff_t>(i) && ptrDist(ptrAdd(v, i), ptrAdd(v, j)) == static_cast<std::ptrdiff_t>(j) - static_cast<std::ptrdiff_t>(i), "wrong-pointer", "a pointer to bytes is wrong");
    std::uint32_t * const w = new std::uint32_t[n];
    for (std::size_t k = 0; k < n; ++k) std::memcpy(w + k, b.p + 4 * k, 4);
    std::uint32_t const * const cw = w;
    bool const good = ptrAdd(w, i) == w + i && ptrSub(ptrAdd(cw, i), i) == w && ptrDist(w + i, w + j) == (w + j) - (w + i) && sizeOf<void>() == 1 && sizeOf<void const>() == 1 && sizeOf<std::uint32_t>() == 4;
    std::size_t const m = sim::choose(static_cast<u32>(n - (i < n ? i : n - 1) + 1)), from = i < n ? i : n - 1;
    std::uint32_t * const w2 = new std::uint32_t[n]; Bytes b2(n);
    for (std::size_t k = 0; k < n; ++k) w2[k] = 7;
    sharemind::copy(cw + from, w2, m); sharemind::copy(static_cast<void const *>(b.p + from), static_cast<void *>(b2.p), m);
    bool copied = true;
    for (std::size_t k = 0; k < n; ++k) { if (w2[k] != (k < m ? w[from + k] : 7)) copied = false; if (k < m) b2.model[k] = b.model[from + k]; }
    delete[] w; delete[] w2;
    SIM_CHECK(good, "wrong-pointer", "a pointer to objects is wrong"); SIM_CHECK(copied, "wrong-bytes", "objects were copied wrong"); b.check(); b2.check();
}

// Hashes depend on nothing but the bytes, and on every one of them.
void hashes() {
    std::size_t const n = sim::choose(sim::flip() ? 9 : 40), off1 = sim::choose(9), off2 = sim::choose(9);
    Bytes a(off1 + n), b(off2 + n);
    Byte * const p = a.p + off1, * const q = b.p + off2;
    std::memcpy(q, p, n); // copied to another place
    HashValue const seed = sim::flip() ? 0 : sim::choose(60000), h = hashCombineRawData(seed, p, n);
    SIM_CHECK(h == hashCombineRawData(seed, q, n) && (seed || (h == hashRawData(p, n) && h == hashRawData(q, n))), "wrong-hash", "the same %zu bytes hash differently", n);
    std::size_t const cut = sim::choose(static_cast<u32>(n + 1)), cut2 = cut + sim::choose(static_cast<u32>(n - cut + 1)); SIM_HIT(hashed);
    SIM_CHECK(hashCombineRawData(seed, p, cut, p + cut, n - cut) == hashCombineRawData(hashCombineRawData(seed, q, cut), q + cut, n - cut), "wrong-hash", "two parts hash differently together than one after the other");
    SIM_CHECK(hashRawData(p, cut, p + cut, cut2 - cut, p + cut2, n - cut2) == hashCombineRawData(hashCombineRawData(hashCombineRawData(0u, q, cut), q + cut, cut2 - cut), q + cut2, n - cut2), "wrong-hash", "three parts hash differently together than one after another");
    if (n) { // other bytes: one collision could be chance, eight are not
        std::size_t const i = sim::choose(static_cast<u32>(n)); u32 collisions = 0, others = 0; Byte const o = q[i];
        for (u32 k = 0; k < 8; ++k) { q[i] = static_cast<Byte>(o ^ (1u << k)); collisions += hashCombineRawData(seed, q, n) == h; others += hashCombineRawData(seed, p, i, q + i, n - i) == hashCombineRawData(seed, p, i, p + i, n - i); }
        q[i] = o;
        SIM_CHECK(collisions < 8 && others < 8, "wrong-hash", "byte %zu of %zu does not count in the hash", i, n);
        u32 seeds = 0; for (u32 k = 1; k < 9; ++k) seeds += hashCombineRawData(seed + k, p, n) == h;
        SIM_CHECK(seeds < 8, "wrong-hash", "the hash to combine with does not count");
    }
    std::uint64_t const x = randomValue<std::uint64_t>(); Three const t = randomValue<Three>();
    SIM_CHECK(RawHasher()(x) == hashRawData(&x, sizeof x) && RawHasherT<std::uint64_t>()(x) == RawHasher()(x) && RawHasher()(t) == hashRawData(&t, 3u) && RawHasherT<Three>()(t) == RawHasher()(t), "wrong-hash", "an object hashes differently than its bytes");
    struct H { HashValue v; HashValue hash() const noexcept { return v; } } const m{h};
    SIM_CHECK(HashMemberCaller()(m) == h && HashMemberCallerT<H>()(m) == h, "wrong-hash", "an object's own hash was not used");
}

template <typename F> void anyType(F && f) {
    switch (sim::choose(8)) { case 0: f(char()); break; case 1: f(std::uint16_t()); break; case 2: f(std::int32_t()); break; case 3: f(std::uint64_t()); break;
        case 4: f(Three()); break; case 5: f(Odd()); break; case 6: f(Padded()); break; default: f((unsigned __int128)(0)); }
}

// Threads write values next to each other's while others read a constant one.
template <typename T> void together(u32 const threads) {
    std::size_t const off = sim::choose(9); Bytes b(off + (threads + 1) * sizeof(T)); SIM_HIT(neighbours);
    T const common = randomValue<T>(); std::memcpy(b.p + off + threads * sizeof(T), &common, sizeof common); std::memcpy(&b.model[off + threads * sizeof(T)], &common, sizeof common);
    Threads ts; UnalignedPointer<T> const all(b.p + off);
    for (u32 i = 0; i < threads; ++i)
        ts.add([&, i] {
            UnalignedPointer<T> mine = all + i;
            for (u32 k = 1 + sim::choose(3); k--;) {
                T const v = randomValue<T>();
                *mine = v; if (sim::chance(1, 3)) sim::yield();
                std::memcpy(&b.model[off + i * sizeof(T)], &v, sizeof v);
                T const r = all[i]; SIM_CHECK(same(r, &b.model[off + i * sizeof(T)]), "wrong-value", "a thread's value was changed");
                UnalignedPointer<T const> const c(static_cast<void *>(all + threads)); T const x = *c; SIM_HIT(shared);
                SIM_CHECK(same(x, &b.model[off + threads * sizeof(T)]), "wrong-value", "a shared value was read wrong");
            }
        });
    ts.join();
    b.check(); sim::nontrivial();
}
} // namespace

extern "C" void sim_main() {
    for (u32 n = 1 + sim::choose(4); n--;)
        switch (sim::choose(6)) {
        case 0: case 1: anyType([](auto v) { walk<decltype(v)>(); }); break;
        case 2: { u32 const t = 2 + sim::choose(2);
            switch (sim::choose(4)) { case 0: together<std::uint16_t>(t); break; case 1: together<std::uint64_t>(t); break; case 2: together<Three>(t); break; default: together<Odd>(t); } break; }
        case 3: switch (sim::choose(4)) { case 0: assigned<std::uint64_t, Byte>(); break; case 1: assigned<std::int16_t, std::int64_t>(); break; case 2: assigned<double, int>(); break; default: assigned<std::uint32_t, std::uint16_t>(); } break;
        case 4: bytes(); break;
        default: hashes(); break;
        }
}
