// C24: network messages survive whatever the network does to them.
#include "common.h"
#include <sharemind/NetworkMessage.h>
extern "C" char const * const sim_property = "C24";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(intact, "a message arrived intact and was read back");
SIM_PROBE_DEF(damaged, "a message arrived damaged");
SIM_PROBE_DEF(cut, "a message arrived truncated");
SIM_PROBE_DEF(none, "an empty message arrived");
SIM_PROBE_DEF(failedRead, "a read failed");
SIM_PROBE_DEF(overflow, "a size did not fit");
SIM_PROBE_DEF(noMemWrite, "memory ran out in a write");
SIM_PROBE_DEF(noMemRead, "memory ran out in a read");
SIM_PROBE_DEF(tooLong, "a write exceeded the upper limit");
SIM_PROBE_DEF(whole, "a message was written into another one");
SIM_PROBE_DEF(moved, "the read position was moved");
SIM_PROBE_DEF(mismatch, "a reader expected other types than were written");

struct __attribute__((packed)) Triple { std::uint8_t a; std::uint16_t b; std::uint32_t c; };
struct Overflow {};
enum Kind { U8, U16, U32, U64, DBL, POD, BOOL, STR, SIZE16, SIZE32, SIZE64, BYTES, ARR8, ARR32, ARRPOD, NKIND };
typedef std::vector<unsigned char> Raw;      // used in oracle scopes only
struct Item { Kind k; u64 v; std::size_t n; };  // what was written: kind, seed of its content, length

unsigned char gen(u64 seed, std::size_t i) { u64 x = (seed + 1) * 0x9e3779b97f4a7c15ull + i * 0xbf58476d1ce4e5b9ull; return static_cast<unsigned char>(x >> 37); }
void put(Raw & r, u64 v, unsigned n) { for (unsigned i = 0; i < n; ++i) r.push_back(static_cast<unsigned char>(v >> (8 * i))); }
u64 get(unsigned char const * p, unsigned n) { u64 v = 0; for (unsigned i = 0; i < n; ++i) v |= u64(p[i]) << (8 * i); return v; }

Raw * expected; std::vector<Item> * items; std::size_t before;
bool equal(OutgoingNetworkMessage const & m, Raw const & r) { return m.getSize() == r.size() && (!r.size() || !memcmp(m.getData(), r.data(), r.size())); }
void checkOut(OutgoingNetworkMessage const & m, char const * when) {
    sim::Oracle o;
    SIM_CHECK(equal(m, *expected), "wrong-content", "%s the message has %zu bytes, expected %zu, or other content", when, m.getSize(), expected->size());
    SIM_CHECK(m.getOffset() == expected->size() && m.getRemainingSize() == 0, "offset", "%s the write position is %zu of %zu", when, m.getOffset(), expected->size());
}

// One write; on success the item is added to the model.
void write(OutgoingNetworkMessage & m) {
    Kind const k = static_cast<Kind>(sim::choose(NKIND)); u64 v = sim::choose(1000);
    if (k == SIZE16 || k == SIZE32 || k == SIZE64) { static u64 const e[] = { 0, 1, 255, 256, 65535, 65536, 0xffffffffull, 0x100000000ull, ~0ull }; v = e[sim::choose(9)]; if (k == SIZE16) v &= 0xffff; if (k == SIZE32) v &= 0xffffffff; }
    static std::size_t const lens[] = { 0, 1, 2, 7, 40, 300 };
    std::size_t const n = lens[sim::choose(6)];
    u32 const form = sim::choose(4);
    Raw add;
    unsigned char buf[300 * 7 + 8];
    for (std::size_t i = 0; i < n * 7 + 8; ++i) buf[i] = gen(v, i);
    u64 const a0 = sim::allocFaultsFired();
    Item it{ k, v, n };
    bool ok = false;
    try {
        std::unique_ptr<std::string> s; if (k == STR) s.reset(new std::string(reinterpret_cast<char *>(buf), n));
        std::unique_ptr<char[]> z; if (k == STR && form >= 2) { z.reset(new char[n + 1]); for (std::size_t i = 0; i < n; ++i) { if (!buf[i]) buf[i] = 1; z[i] = static_cast<char>(buf[i]); } z[n] = 0; it.v |= 1ull << 32; }
        sim::AllocFaults f;
        switch (k) {
        case U8: { std::uint8_t x = buf[0]; m.write(x); break; }
        case U16: { std::uint16_t x; memcpy(&x, buf, 2); if (form & 1) { std::uint16_t const y = x; m.write(y); } else m.write(x); break; }
        case U32: { std::uint32_t x; memcpy(&x, buf, 4); m.write(std::uint32_t(x)); break; }
        case U64: { std::uint64_t x; memcpy(&x, buf, 8); m.write(x); break; }
        case DBL: { double x; memcpy(&x, buf, 8); m.write(x); break; }
        case POD: { Triple x; memcpy(&x, buf, 7); m.write(x); break; }
        case BOOL: { bool x = buf[0] & 1; if (form & 1) m.write(x); else m.write(static_cast<bool>(x)); break; }
        case STR:
            if (form == 0) m.write(*s); else if (form == 1) { std::string const & c = *s; m.write(c); }
            else if (form == 2) { char const * c = z.get(); m.write(c); }
            else { char * c = z.get(); if (v & 1) m.write(c); else m.write(c, n); }
            break;
        case SIZE16: m.writeSize<std::uint16_t>(static_cast<std::uint16_t>(v)); break;
        case SIZE32: m.writeSize<std::uint32_t>(static_cast<std::uint32_t>(v)); break;
        case SIZE64: m.writeSize(v); break;
        case BYTES: m.writeBytes(n || form ? buf : nullptr, n); break;
        case ARR8: if (form & 1) m.writeArray(buf, static_cast<std::uint16_t>(n)); else m.writeSizeAndArray(buf, n); break;
        case ARR32: { std::uint32_t x[300]; memcpy(x, buf, n * 4); if (form & 1) m.writeArray(x, n); else m.writeSizeAndArray<std::uint32_t>(x, static_cast<std::uint32_t>(n)); break; }
        default: { Triple x[300]; memcpy(static_cast<void *>(x), buf, n * 7); if (form & 1) m.writeArray(x, n); else m.writeSizeAndArray<std::uint16_t>(x, static_cast<std::uint16_t>(n)); break; }
        }
        ok = true;
    } catch (std::bad_alloc const &) { SIM_HIT(noMemWrite); SIM_CHECK(sim::allocFaultsFired() > a0, "error-kind", "bad_alloc without a failed allocation"); }
    if (ok) {
        sim::Oracle o;
        auto bytes = [&](std::size_t c) { for (std::size_t i = 0; i < c; ++i) add.push_back(buf[i]); };
        switch (k) {
        case U8: bytes(1); break; case U16: bytes(2); break; case U32: bytes(4); break; case U64: case DBL: bytes(8); break; case POD: bytes(7); break;
        case BOOL: add.push_back(buf[0] & 1); break;
        case STR: put(add, n, 8); bytes(n); break;
        case SIZE16: put(add, v, 2); break; case SIZE32: put(add, v, 4); break; case SIZE64: put(add, v, 8); break;
        case BYTES: bytes(n); break;
        case ARR8: if (!(form & 1)) put(add, n, 8); bytes(n); break;
        case ARR32: if (!(form & 1)) put(add, n, 4); bytes(n * 4); break;
        default: if (!(form & 1)) put(add, n, 2); bytes(n * 7); break;
        }
        if (k == ARR8 || k == ARR32 || k == ARRPOD) it.v = (form & 1) ? 0 : 1; // with its size?
        expected->insert(expected->end(), add.begin(), add.end());
        items->push_back(it);
    }
    { sim::Oracle o; Raw().swap(add); }
    checkOut(m, ok ? "after a write" : "after a failed write");
}
void tooMuch(OutgoingNetworkMessage & m) { // sizes no machine has
    unsigned char b[8] = {}; std::uint32_t w[2] = {}; Triple t[1] = {};
    std::size_t const M = std::numeric_limits<std::size_t>::max(); std::size_t const sz = m.getSize();
    bool limit = false, any = false;
    try {
        switch (sim::choose(5)) {
        case 0: any = !sz; m.writeBytes(b, M - (sz ? sim::choose(static_cast<u32>(sz)) : 0)); break;
        case 1: limit = true; m.writeArray(w, M / 4 + 1 + sim::choose(2)); break;
        case 2: limit = true; m.writeSizeAndArray(b, M - sim::choose(8)); break;
        case 3: limit = true; m.writeSizeAndArray(t, M / 7 - (sz ? 0 : 0)); break;
        default: limit = true; m.writeArray(t, M / 7 + 1); break;
        }
        SIM_CHECK(false, "error-lost", "writing more than memory can hold succeeded");
    } catch (NetworkMessage::MessageLengthError const &) { SIM_HIT(tooLong); }
    catch (std::bad_alloc const &) { SIM_CHECK(!limit || any, "error-kind", "an excessive size was reported as lack of memory"); }
    checkOut(m, "after a failed write");
}

// The receiving side, checked against this decoder.
struct Reader {
    unsigned char const * p; std::size_t size, at;
    bool take(void * to, std::size_t n) { if (size - at < n) return false; if (n) memcpy(to, p + at, n); at += n; return true; }
};
template <typename T> void plain(IncomingNetworkMessage & in, Reader & r) {
    T x, y; memset(&x, 0x5a, sizeof x); memset(&y, 0x5a, sizeof y);
    bool const a = in.read(x); bool const b = r.take(&y, sizeof y);
    if (!b) SIM_HIT(failedRead);
    SIM_CHECK(a == b, "read-result", "read() of %zu bytes returned %d with %zu left", sizeof x, a, r.size - r.at);
    SIM_CHECK(!memcmp(&x, &y, sizeof x), "read-value", "read() %s the wrong value", a ? "returned" : "left");
}
template <typename Wire, typename To, bool own> void sized(IncomingNetworkMessage & in, Reader & r) {
    To x = 77; int res = -1;
    try { res = own ? in.template readSize<Wire>(x, Overflow{}) : in.template readSize<Wire, std::bad_array_new_length>(x); }
    catch (Overflow const &) { SIM_CHECK(own, "error-kind", "wrong exception"); res = 2; }
    catch (std::bad_array_new_length const &) { SIM_CHECK(!own, "error-kind", "wrong exception"); res = 2; }
    unsigned char b[8]; std::size_t const at0 = r.at; int want = r.take(b, sizeof(Wire));
    u64 v = 77;
    if (want) { v = get(b, sizeof(Wire)); if (v > std::numeric_limits<To>::max()) { SIM_HIT(overflow); want = 2; r.at = at0; v = 77; } } else SIM_HIT(failedRead);
    SIM_CHECK(res == want, "read-result", "readSize() ended with %d, expected %d", res, want);
    SIM_CHECK(x == static_cast<To>(v), "read-value", "readSize() gave %llu instead of %llu", (unsigned long long) x, (unsigned long long) v);
}
void text(IncomingNetworkMessage & in, Reader & r, bool faults) {
    std::string s("before"); int res; u64 const a0 = sim::allocFaultsFired();
    if (!faults) res = in.read(s);
    else try { sim::AllocFaults f; res = in.read(s); } catch (std::bad_alloc const &) { SIM_HIT(noMemRead); res = 2; SIM_CHECK(sim::allocFaultsFired() > a0, "error-kind", "bad_alloc without a failed allocation"); }
    std::size_t const at0 = r.at; unsigned char b[8];
    bool want = r.take(b, 8); u64 n = 0;
    if (want && (n = get(b, 8)) > r.size - r.at) want = false;
    if (!want) { r.at = at0; SIM_HIT(failedRead); SIM_CHECK(!res, "read-result", "reading a string returned %d, it is incomplete", res); }
    else if (res == 2) r.at = at0;
    else SIM_CHECK(res == 1, "read-result", "reading a string of %llu bytes failed", (unsigned long long) n);
    if (res == 1) { SIM_CHECK(s.size() == n && !memcmp(s.data(), r.p + r.at, s.size()), "read-value", "a wrong string of %zu bytes was read, expected %llu", s.size(), (unsigned long long) n); r.at += n; }
    else SIM_CHECK(s == "before", "read-value", "a failed read changed the string");
}
template <typename T, typename S> void array(IncomingNetworkMessage & in, Reader & r, std::size_t n, std::size_t cap) {
    std::vector<T> x(cap ? cap : 1), y(cap ? cap : 1);
    bool const a = in.readArray(x.data(), static_cast<S>(n));
    bool const fits = n <= r.size / sizeof(T) + 1; // (no overflow in the model)
    bool const b = fits && r.take(y.data(), n * sizeof(T));
    if (!b) SIM_HIT(failedRead);
    SIM_CHECK(a == b, "read-result", "readArray() of %zu returned %d", n, a);
    SIM_CHECK(!memcmp(static_cast<void *>(x.data()), static_cast<void *>(y.data()), x.size() * sizeof(T)), "read-value", "readArray() gave wrong elements");
}
void bytes(IncomingNetworkMessage & in, Reader & r, std::size_t n) {
    std::vector<char> x(n + 1), y(n + 1);
    bool const a = in.readBytes(x.data(), n), b = r.take(y.data(), n);
    if (!b) SIM_HIT(failedRead);
    SIM_CHECK(a == b, "read-result", "readBytes() of %zu returned %d with %zu left", n, a, r.size - r.at);
    SIM_CHECK(x == y, "read-value", "readBytes() gave wrong bytes");
}
void boolean(IncomingNetworkMessage & in, Reader & r) {
    bool x = sim::flip(); bool const x0 = x;
    bool const a = in.read(x);
    std::size_t const at0 = r.at; unsigned char c = 0; bool b = r.take(&c, 1); if (b && c > 1) { b = false; r.at = at0; }
    if (!b) SIM_HIT(failedRead);
    SIM_CHECK(a == b, "read-result", "reading a bool returned %d", a);
    SIM_CHECK(x == (b ? c == 1 : x0), "read-value", "reading a bool gave %d", x);
}
void step(IncomingNetworkMessage & in, Reader & r, Kind k, std::size_t n, bool withSize, bool retry) {
    switch (k) {
    case U8: plain<std::uint8_t>(in, r); break; case U16: plain<std::uint16_t>(in, r); break; case U32: plain<std::uint32_t>(in, r); break;
    case U64: plain<std::uint64_t>(in, r); break; case DBL: plain<u64>(in, r); break; case POD: plain<Triple>(in, r); break;
    case BOOL: boolean(in, r); break; case STR: if (retry) { std::size_t const at0 = r.at; text(in, r, true); if (r.at == at0) text(in, r, false); } else text(in, r, true); break;
    case SIZE16: if (n & 1) sized<std::uint16_t, std::uint8_t, true>(in, r); else sized<std::uint16_t, std::size_t, false>(in, r); break;
    case SIZE32: if (n & 1) sized<std::uint32_t, std::uint16_t, true>(in, r); else sized<std::uint32_t, std::uint32_t, false>(in, r); break;
    case SIZE64: if (n & 1) sized<std::uint64_t, std::uint32_t, true>(in, r); else if (n & 2) sized<std::uint64_t, std::uint8_t, false>(in, r); else sized<std::uint64_t, std::size_t, true>(in, r); break;
    case BYTES: bytes(in, r, n); break;
    case ARR8: if (withSize) sized<std::uint64_t, std::size_t, true>(in, r); array<std::uint8_t, std::size_t>(in, r, n, n); break;
    case ARR32: if (withSize) sized<std::uint32_t, std::size_t, true>(in, r); array<std::uint32_t, std::uint32_t>(in, r, n, n); break;
    default: if (withSize) sized<std::uint16_t, std::size_t, true>(in, r); array<Triple, std::uint64_t>(in, r, n, n); break;
    }
    SIM_CHECK(in.getOffset() == r.at, "offset", "the read position is %zu, expected %zu", in.getOffset(), r.at);
    SIM_CHECK(in.getRemainingSize() == r.size - r.at, "offset", "%zu bytes remain, expected %zu", in.getRemainingSize(), r.size - r.at);
}
void receive(bool clean) {
    std::size_t n; unsigned char * d; bool allSame = true;
    { sim::Oracle o; n = expected->size(); }
    u32 const how = clean ? 0 : sim::choose(5);
    if (how == 1 && n) { n = sim::choose(static_cast<u32>(n)); SIM_HIT(cut); allSame = false; }
    if (how == 2) { n = 0; allSame = false; }
    bool const null = n == 0 && sim::flip();
    if (!n) SIM_HIT(none);
    // Exactly as large as the message: nothing beyond it may be touched.
    std::unique_ptr<unsigned char[]> mem(null ? nullptr : new unsigned char[n]);
    d = mem.get();
    { sim::Oracle o; for (std::size_t i = 0; i < n; ++i) d[i] = (*expected)[i]; }
    if (how >= 3 && n) {
        SIM_HIT(damaged); allSame = false;
        for (u32 k = 1 + sim::choose(3); k--;) { std::size_t const at = sim::choose(static_cast<u32>(n)); static unsigned char const x[] = { 1, 0x80, 0xff, 2 }; d[at] = static_cast<unsigned char>(d[at] ^ x[sim::choose(4)]); }
    }
    IncomingNetworkMessage in(d, n);
    Reader r{ d, n, 0 };
    std::size_t cnt; { sim::Oracle o; cnt = items->size(); }
    bool const follow = clean || !sim::chance(1, 3);
    if (!follow) SIM_HIT(mismatch);
    for (std::size_t i = 0; i < cnt + (clean ? 0 : sim::choose(4)); ++i) {
        if (follow && i < cnt) {
            Item it; { sim::Oracle o; it = (*items)[i]; }
            std::size_t m = it.n; // even: sizes are read into types that can hold them
            if (it.k == SIZE16 || it.k == SIZE32 || it.k == SIZE64) m = clean ? 0 : it.n;
            step(in, r, it.k, m, it.v == 1, clean);
        } else {
            static std::size_t const lens[] = { 0, 1, 2, 3, 8, 50, 299 };
            step(in, r, static_cast<Kind>(sim::choose(NKIND)), lens[sim::choose(7)], sim::flip(), false);
        }
        if (!clean && sim::chance(1, 6)) {
            SIM_HIT(moved);
            std::size_t const to = sim::choose(3) ? sim::choose(static_cast<u32>(n) + 3) : ~std::size_t(0) - sim::choose(3);
            bool const a = in.seek(to); SIM_CHECK(a == (to < n), "seek", "seek(%zu) in %zu bytes returned %d", to, n, a);
            if (a) r.at = to;
            SIM_CHECK(in.getOffset() == r.at, "offset", "after seek(): %zu, expected %zu", in.getOffset(), r.at);
        }
        if (sim::chance(1, 8)) { std::uint32_t w[4]; std::size_t const wraps = (std::size_t(1) << 62) + sim::choose(4); /* its size in bytes wraps around */ bool const a = in.readArray(w, sim::flip() ? wraps : std::numeric_limits<std::size_t>::max() / 2); SIM_CHECK(!a, "read-result", "an array larger than memory was read"); SIM_CHECK(in.getOffset() == r.at, "offset", "a failed read moved"); }
        if (sim::chance(1, 8)) { char w[1]; bool const a = in.readBytes(w, std::numeric_limits<std::size_t>::max() - sim::choose(2)); SIM_CHECK(!a, "read-result", "more bytes than memory has were read"); SIM_CHECK(in.getOffset() == r.at, "offset", "a failed read moved"); }
    }
    if (clean) { SIM_HIT(intact); SIM_CHECK(r.at == n, "harness", "not everything was read"); }
    (void) allSame;
}
} // namespace

extern "C" void sim_main() {
    sim::nontrivial();
    { sim::Oracle o; expected = new Raw; items = new std::vector<Item>; }
    {
        OutgoingNetworkMessage m;
        for (u32 k = sim::choose(10); k--;) {
            write(m);
            if (sim::chance(1, 8)) tooMuch(m);
        }
        bool some; { sim::Oracle o; some = !expected->empty(); }
        // The whole message as part of another one; a stand-alone copy must be identical.
        if (sim::chance(1, 3)) {
            SIM_HIT(whole);
            OutgoingNetworkMessage e;
            u32 const form = sim::choose(3); bool ok = false;
            try {
                sim::AllocFaults f;
                if (form == 0) e.write(m); else if (form == 1) { OutgoingNetworkMessage const & c = m; e.write(c); } else { NetworkMessage & n = m; e.write(n); }
                ok = true;
            } catch (std::bad_alloc const &) { SIM_HIT(noMemWrite); }
            if (ok) checkOut(e, "as a part,"); else SIM_CHECK(!e.getSize() && !e.getOffset(), "wrong-content", "a failed write left something");
        }
        if (sim::flip()) { m.rewind(); SIM_CHECK(m.getOffset() == 0 && (!some || m.getPtr() == m.getData()), "offset", "after rewind()"); }
        receive(true);
        for (u32 k = 1 + sim::choose(3); k--;) receive(false);
    }
}
