// C06: the circular buffer is a lossless FIFO between one producer and one consumer.
#include "common.h"
#include <sharemind/CircBufferSCSP.h>
extern "C" char const * const sim_property = "C06";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(shortWrite, "a write was cut short by a full buffer");
SIM_PROBE_DEF(shortRead, "a read was cut short by an empty buffer");
SIM_PROBE_DEF(wrapWrite, "a write wrapped around the end of the buffer");
SIM_PROBE_DEF(wrapRead, "a read wrapped around the end of the buffer");
SIM_PROBE_DEF(lazyActor, "an actor used less than it was offered");
SIM_PROBE_DEF(wasFull, "the buffer was full");
SIM_PROBE_DEF(wasEmpty, "the buffer was empty");
SIM_PROBE_DEF(noLocking, "no-locking variant");
SIM_PROBE_DEF(oom, "out of memory making a buffer");

struct Big { u32 seq; u32 inv; unsigned char pad[3]; };
template <typename T> struct El { static T make(u32 i) { return static_cast<T>(i * 7 + 1); } static bool is(T const & t, u32 i) { return t == make(i); } };
template <> struct El<Big> { static Big make(u32 i) { return Big{i, ~i, {1, 2, 3}}; } static bool is(Big const & t, u32 i) { return t.seq == i && t.inv == ~i && t.pad[2] == 3; } };

u32 wroteStarted, wroteDone, readDone; // oracle counters

template <typename B, typename T> void checkCounts(B & b, bool producer) {
    size_t const cap = b.bufferSize();
    size_t ube = ~size_t(0);
    u32 lo0, hi0;
    { sim::Oracle o; lo0 = wroteDone; hi0 = readDone; }
    size_t const n = producer ? b.spaceAvailable(ube) : b.dataAvailable(ube);
    sim::Oracle o;
    SIM_CHECK(n <= cap && ube <= n, "count", "%zu of %zu available, %zu contiguous", n, cap, ube);
    if (producer) { // the space is at least what it was before
        SIM_CHECK(static_cast<long>(n) >= static_cast<long>(cap) - static_cast<long>(wroteDone - hi0), "count", "%zu elements of space when %u of %zu are used", n, wroteDone - hi0, cap);
    } else {
        SIM_CHECK(static_cast<long>(n) >= static_cast<long>(lo0) - static_cast<long>(readDone), "count", "%zu elements of data when %u were written and %u read", n, lo0, readDone);
        SIM_CHECK(n <= wroteStarted - readDone, "count", "%zu elements of data when at most %u were written", n, wroteStarted - readDone);
    }
    if (!n) { if (producer) SIM_HIT(wasFull); else SIM_HIT(wasEmpty); }
}
// The least that was there for a transfer that starts now.
template <typename B> size_t leastSpace(B & b) { sim::Oracle o; return wroteDone - readDone < b.bufferSize() ? b.bufferSize() - (wroteDone - readDone) : 0; } // the other side's count may lag
size_t leastData() { sim::Oracle o; return wroteDone > readDone ? wroteDone - readDone : 0; } // the other side's count may lag
// What is contiguously available to one side: at least `least`, and no more than what there could be.
template <typename B> void checkUbe(B & b, size_t ube, size_t least, bool producer) {
    size_t const toEnd = b.bufferSize() - (producer ? b.writeOffset() : b.readOffset());
    sim::Oracle o;
    size_t const most = producer ? b.bufferSize() : wroteStarted - readDone;
    SIM_CHECK(ube >= std::min(least, toEnd) && ube <= std::min(most, toEnd), "count", "%zu elements contiguously available, at least %zu and at most %zu are available, %zu to the end", ube, least, most, toEnd);
}

template <typename B, typename T> u32 produceSome(B & b, u32 next, u32 left) {
    if (sim::chance(1, 6)) { size_t const l = leastSpace(b); checkUbe(b, b.spaceAvailableUntilBufferEnd(), l, true); }
    size_t const off = b.writeOffset(), least = leastSpace(b);
    SIM_CHECK(off < b.bufferSize(), "offset", "write offset %zu of %zu", off, b.bufferSize());
    u32 got = 0;
    switch (sim::choose(5)) {
    case 0: case 1: { // from memory
        u32 const want = 1 + sim::choose(std::min<u32>(left, 12));
        std::vector<T> v(want);
        for (u32 i = 0; i < want; ++i) v[i] = El<T>::make(next + i);
        { sim::Oracle o; wroteStarted = next + want; }
        size_t const r = b.write(v.data(), want);
        SIM_CHECK(r <= want, "return", "wrote %zu of %u", r, want);
        if (r < want) SIM_HIT(shortWrite);
        SIM_CHECK(r >= std::min<size_t>(want, least), "short", "wrote %zu of %u although there was space for %zu", r, want, least);
        got = static_cast<u32>(r);
    } break;
    case 2: case 3: { // through an actor
        u32 const want = 1 + sim::choose(std::min<u32>(left, 12));
        { sim::Oracle o; wroteStarted = next + want; }
        u32 made = 0; bool done = false;
        size_t const r = b.write([&](T * const p, size_t const n) noexcept -> size_t {
            SIM_CHECK(n > 0 && n <= b.bufferSize() - b.writeOffset() && p == b.arrayStart() + b.writeOffset(), "actor-range", "actor was offered %zu elements", n);
            SIM_CHECK(!done, "actor-again", "actor called again after using less than offered");
            u32 const k = std::min<size_t>(want - made, n);
            for (u32 i = 0; i < k; ++i) p[i] = El<T>::make(next + made + i);
            made += k; done = k < n;
            if (done) SIM_HIT(lazyActor);
            return k;
        });
        SIM_CHECK(done || made >= std::min<size_t>(want, least), "short", "the actor was asked for %u elements although there was space for %zu", made, least);
        SIM_CHECK(r == made, "return", "actor wrote %u, write() returned %zu", made, r);
        got = made;
    } break;
    default: { // by hand
        size_t ube; size_t const sp = b.spaceAvailable(ube);
        SIM_CHECK(ube == std::min(sp, b.bufferSize() - off), "count", "contiguous space");
        u32 const k = std::min<size_t>(sim::choose(std::min<u32>(left, 12) + 1), ube);
        { sim::Oracle o; wroteStarted = next + k; }
        for (u32 i = 0; i < k; ++i) b.arrayStart()[off + i] = El<T>::make(next + i);
        if (sim::flip()) {
            size_t const s = b.haveWritten(k);
            SIM_CHECK(s >= sp - k && s <= b.bufferSize(), "return", "haveWritten returned %zu", s);
        } else {
            size_t const s = b.haveWrittenRetUbe(k);
            checkUbe(b, s, least > k ? least - k : 0, true);
        }
        got = k;
    } break;
    }
    SIM_CHECK(b.writeOffset() == (off + got) % b.bufferSize(), "offset", "write offset %zu after writing %u at %zu", b.writeOffset(), got, off);
    if (got && b.writeOffset() < off && b.writeOffset()) SIM_HIT(wrapWrite);
    sim::Oracle o; wroteDone = next + got; wroteStarted = wroteDone;
    return got;
}

template <typename B, typename T> u32 consumeSome(B & b, u32 next) {
    if (sim::chance(1, 6)) { size_t const l = leastData(); checkUbe(b, b.dataAvailableUntilBufferEnd(), l, false); }
    size_t const off = b.readOffset(), least = leastData();
    SIM_CHECK(off < b.bufferSize(), "offset", "read offset %zu of %zu", off, b.bufferSize());
    u32 got = 0;
    switch (sim::choose(5)) {
    case 0: case 1: {
        u32 const want = 1 + sim::choose(12);
        std::vector<T> v(want + 1);
        for (auto & e : v) e = El<T>::make(200);
        size_t const r = b.read(v.data(), want);
        SIM_CHECK(r <= want, "return", "read %zu of %u", r, want);
        if (r < want) SIM_HIT(shortRead);
        SIM_CHECK(r >= std::min<size_t>(want, least), "short", "read %zu of %u although there were %zu", r, want, least);
        for (u32 i = 0; i < r; ++i) SIM_CHECK(El<T>::is(v[i], next + i), "fifo", "element %u read wrong", next + i);
        for (u32 i = r; i <= want; ++i) SIM_CHECK(El<T>::is(v[i], 200), "overrun", "element %u beyond the %zu read was changed", i, r);
        got = static_cast<u32>(r);
    } break;
    case 2: case 3: {
        u32 const want = 1 + sim::choose(12); u32 seen = 0; bool done = false;
        size_t const r = b.read([&](T const * const p, size_t const n) noexcept -> size_t {
            SIM_CHECK(n > 0 && n <= b.bufferSize() - b.readOffset() && p == b.arrayStart() + b.readOffset(), "actor-range", "actor was offered %zu elements", n);
            SIM_CHECK(!done, "actor-again", "actor called again after using less than offered");
            u32 const k = std::min<size_t>(want - seen, n);
            for (u32 i = 0; i < k; ++i) SIM_CHECK(El<T>::is(p[i], next + seen + i), "fifo", "element %u read wrong", next + seen + i);
            seen += k; done = k < n;
            if (done) SIM_HIT(lazyActor);
            return k;
        });
        SIM_CHECK(done || seen >= std::min<size_t>(want, least), "short", "the actor was given %u elements although there were %zu", seen, least);
        SIM_CHECK(r == seen, "return", "actor read %u, read() returned %zu", seen, r);
        got = seen;
    } break;
    default: {
        size_t ube; size_t const da = b.dataAvailable(ube);
        SIM_CHECK(ube == std::min(da, b.bufferSize() - off), "count", "contiguous data");
        u32 const k = sim::choose(static_cast<u32>(ube) + 1);
        for (u32 i = 0; i < k; ++i) SIM_CHECK(El<T>::is(b.arrayStart()[off + i], next + i), "fifo", "element %u read wrong", next + i);
        if (sim::flip()) { size_t const s = b.haveRead(k); SIM_CHECK(s >= da - k && s <= b.bufferSize(), "return", "haveRead returned %zu", s); }
        else { size_t const s = b.haveReadRetUbe(k); { sim::Oracle o; readDone += k; } checkUbe(b, s, least > k ? least - k : 0, false); { sim::Oracle o; readDone -= k; } }
        got = k;
    } break;
    }
    SIM_CHECK(b.readOffset() == (off + got) % b.bufferSize(), "offset", "read offset %zu after reading %u at %zu", b.readOffset(), got, off);
    if (got && b.readOffset() < off && b.readOffset()) SIM_HIT(wrapRead);
    sim::Oracle o; readDone = next + got;
    SIM_CHECK(readDone <= wroteStarted, "invented", "read %u elements, %u written", readDone, wroteStarted);
    return got;
}

template <typename B> struct Wait { static void data(B & b) { (void) b.waitDataAvailable(); } static void space(B & b) { (void) b.waitSpaceAvailable(); } };
template <typename B, typename T, typename W> void threaded(B & b, u32 total) {
    bool const waitP = sim::flip(), waitC = sim::flip();
    std::thread prod([&b, total, waitP] {
        for (u32 next = 0; next < total;) {
            if (sim::chance(1, 4)) checkCounts<B, T>(b, true);
            u32 const g = produceSome<B, T>(b, next, total - next);
            next += g;
            if (!g) { if (waitP) W::space(b); else std::this_thread::yield(); }
        }
    });
    for (u32 next = 0; next < total;) {
        if (sim::chance(1, 4)) checkCounts<B, T>(b, false);
        u32 const g = consumeSome<B, T>(b, next);
        next += g;
        if (!g) { if (waitC) W::data(b); else std::this_thread::yield(); }
    }
    prod.join();
    SIM_CHECK(b.empty() && b.dataAvailable() == 0 && b.spaceAvailable() == b.bufferSize(), "count", "not empty at the end");
}
template <typename B, typename T> void sequential(B & b, u32 total) {
    for (u32 w = 0, r = 0; r < total;) {
        if (w < total && sim::flip()) w += produceSome<B, T>(b, w, total - w); else r += consumeSome<B, T>(b, r);
        SIM_CHECK(b.dataAvailable() == w - r && b.full() == (w - r == b.bufferSize()) && b.empty() == (w == r), "count", "%zu available instead of %u", b.dataAvailable(), w - r);
    }
}
template <typename T> void variant(u32 cap, u32 total) {
    switch (sim::choose(4)) {
    case 0: case 1: { using B = CircBufferSCSP<T>; B b(cap); threaded<B, T, Wait<B>>(b, total); } break;
    case 2: { using B = CircBufferSCSP<T, CircBufferScspLocking<std::recursive_mutex>>; B b(cap); threaded<B, T, Wait<B>>(b, total); } break;
    default: { SIM_HIT(noLocking); using B = CircBufferSCSP<T, CircBufferNoLocking>; B b(cap); sequential<B, T>(b, total); } break;
    }
}
} // namespace

extern "C" void sim_main() {
    sim::nontrivial();
    u32 const cap = 1 + sim::choose(9), total = 1 + sim::choose(40);
    try {
        sim::AllocFaults a; // a failing buffer allocation must leave nothing behind
        CircBufferSCSP<int> probe(cap);
    } catch (std::bad_alloc const &) { SIM_HIT(oom); }
    switch (sim::choose(3)) {
    case 0: variant<int>(cap, total); break;
    case 1: variant<unsigned char>(cap, std::min<u32>(total, 36)); break;
    default: variant<Big>(cap, total); break;
    }
}
