// C33: string views and other text utilities against std::basic_string.
#include "common.h"
#include <iomanip>
#include <iostream>
#include <list>
#include <sstream>
#include <boost/functional/hash.hpp>
#include <sharemind/StringView.h>
#include <sharemind/Split.h>
#include <sharemind/Concat.h>
#include <sharemind/InputMemoryStream.h>
#include <sharemind/Uuid.h>
extern "C" char const * const sim_property = "C33";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(shared, "several threads used one text at once");
SIM_PROBE_DEF(found, "a search succeeded in the middle of a view");
SIM_PROBE_DEF(outOfRange, "a position was out of range");
SIM_PROBE_DEF(noStr, "making a string of a view failed");
SIM_PROBE_DEF(ownTraits, "views with traits of their own");
SIM_PROBE_DEF(full, "a view was written completely");
SIM_PROBE_DEF(padded, "a view was padded");
SIM_PROBE_DEF(partly, "a stream took a part of a view only");
SIM_PROBE_DEF(bufThrew, "a stream buffer threw");
SIM_PROBE_DEF(splitDone, "a text was split");
SIM_PROBE_DEF(splitCut, "user code threw while splitting");
SIM_PROBE_DEF(joined, "texts were concatenated");
SIM_PROBE_DEF(joinCut, "memory ran out while concatenating");
SIM_PROBE_DEF(argThrew, "printing an argument threw");
SIM_PROBE_DEF(stream, "bytes were read from an input memory stream to the end");
SIM_PROBE_DEF(uuids, "a UUID was converted to text and back");
SIM_PROBE_DEF(badUuid, "text which is no UUID");

// Traits which ignore case.
struct Ci: std::char_traits<char> {
    static char up(char c) { return c >= 'a' && c <= 'z' ? static_cast<char>(c - 32) : c; }
    static bool eq(char a, char b) noexcept { return up(a) == up(b); }
    static bool lt(char a, char b) noexcept { return up(a) < up(b); }
    static int compare(char const * a, char const * b, std::size_t n) { for (; n--; ++a, ++b) { if (lt(*a, *b)) return -1; if (lt(*b, *a)) return 1; } return 0; }
    static char const * find(char const * s, std::size_t n, char const & a) { for (; n--; ++s) if (eq(*s, a)) return s; return nullptr; }
};
// A text in memory of exactly its size.
template <typename C> struct Mem {
    C * p; std::size_t n;
    template <typename S> Mem(S const & s, bool terminated) : p(new C[s.size() + terminated]), n(s.size()) { for (std::size_t i = 0; i < n; ++i) p[i] = s[i]; if (terminated) p[n] = C(); }
    Mem(Mem const &) = delete;
    ~Mem() { delete[] p; }
};
template <typename C> C letter() {
    if (sizeof(C) > 1 && sim::chance(1, 12)) return static_cast<C>(sim::flip() ? 0x161 : 0xfe61); // same low byte as 'a'
    static char const all[] = { 'a', 'b', 'a', 'b', 'c', 'A', ' ', '\0', '\xe1', '\x7f' };
    return static_cast<C>(static_cast<unsigned char>(all[sim::choose(sim::chance(1, 4) ? 10 : 4)]));
}
template <typename S> S randomText(u32 max) { S s; using C = typename S::value_type; for (u32 n = sim::choose(max + 1); n--;) s.push_back(letter<C>()); return s; }
template <typename S> S cText(u32 max) { S s; using C = typename S::value_type; for (u32 n = sim::choose(max + 1); n--;) { C const c = letter<C>(); s.push_back(c == C() ? static_cast<C>('a') : c); } return s; }
int sign(int x) { return x < 0 ? -1 : x > 0; }

template <typename C, typename T> struct Views {
    using V = BasicStringView<C, T>; using S = std::basic_string<C, T>;
    static bool same(V v, S const & s) { if (v.size() != s.size() || v.length() != s.size() || v.empty() != s.empty()) return false; for (std::size_t i = 0; i < s.size(); ++i) if (v[i] != s[i]) return false; return true; }
    static void is(V v, S const & s, char const * what) { SIM_CHECK(same(v, s), "wrong-part", "%s gives a text of %zu characters which is not the right one of %zu", what, v.size(), s.size()); }
    static std::size_t position(std::size_t n) { u32 const k = sim::choose(8); return k == 0 ? V::npos : k == 1 ? n : k == 2 ? n + 1 : k == 3 ? V::npos - sim::choose(4) : sim::choose(static_cast<u32>(n) + 2); }
    static void inside(V part, V whole, char const * what) { SIM_CHECK(part.empty() || (part.begin() >= whole.begin() && part.end() <= whole.end()), "wrong-part", "%s does not refer to the text of the view", what); }
    static void at(std::size_t got, std::size_t want, char const * what) {
        if (want != V::npos && want) SIM_HIT(found);
        SIM_CHECK(got == want, "wrong-position", "%s gives %lld instead of %lld", what, static_cast<long long>(got), static_cast<long long>(want));
    }
    template <typename F, typename G> static void both(F f, G g, char const * what) { // both give the same or throw out_of_range
        bool a = false, b = false; V v; S s;
        try { v = f(); } catch (std::out_of_range const &) { a = true; }
        try { s = g(); } catch (std::out_of_range const &) { b = true; }
        if (b) SIM_HIT(outOfRange);
        SIM_CHECK(a == b, "wrong-range", a ? "%s throws for positions in range" : "%s does not throw for positions out of range", what);
        if (!a) is(v, s, what);
    }
    template <typename F, typename G> static void bothInt(F f, G g, char const * what) {
        bool a = false, b = false; int v = 0, s = 0;
        try { v = f(); } catch (std::out_of_range const &) { a = true; }
        try { s = g(); } catch (std::out_of_range const &) { b = true; }
        if (b) SIM_HIT(outOfRange);
        SIM_CHECK(a == b, "wrong-range", a ? "%s throws for positions in range" : "%s does not throw for positions out of range", what);
        SIM_CHECK(a || sign(v) == sign(s), "wrong-comparison", "%s gives %d instead of %d", what, v, s);
    }
    static S sub(S const & s, std::size_t p, std::size_t n) { return p > s.size() ? throw std::out_of_range("") : s.substr(p, n); }

    // One operation on a view of m, of which the content is s.
    static void one(V const v, S const & s, V const w, S const & t, C const * z, S const & zt) {
        std::size_t const p = position(s.size()), n = position(s.size()), p2 = position(t.size()), n2 = position(t.size());
        C const c = letter<C>();
        std::size_t const k = t.size() - std::min(t.size(), n2 == V::npos ? 0 : n2); // length of an argument given by pointer and length
        bool const dp = sim::chance(1, 4); // use default positions
        #define AT(name, std_, ...) at(v.name(__VA_ARGS__), s.std_, #name)
        switch (sim::choose(30)) {
        case 0: if (dp) AT(find, find(c), c); else AT(find, find(c, p), c, p); break;
        case 1: if (dp) AT(find, find(t), w); else AT(find, find(t, p), w, p); if (dp) AT(find, find(zt), z); else AT(find, find(zt, p), z, p); break;
        case 2: AT(find, find(t.c_str(), p, k), w.data(), p, k); break;
        case 3: if (dp) AT(rfind, rfind(c), c); else AT(rfind, rfind(c, p), c, p); break;
        case 4: if (dp) AT(rfind, rfind(t), w); else AT(rfind, rfind(t, p), w, p); if (dp) AT(rfind, rfind(zt), z); else AT(rfind, rfind(zt, p), z, p); break;
        case 5: AT(rfind, rfind(t.c_str(), p, k), w.data(), p, k); break;
        #define SETS(name, std_) \
            switch (sim::choose(4)) { \
            case 0: if (dp) AT(name, std_(c), c); else AT(name, std_(c, p), c, p); break; \
            case 1: if (dp) AT(name, std_(t), w); else AT(name, std_(t, p), w, p); break; \
            case 2: if (dp) AT(name, std_(zt), z); else AT(name, std_(zt, p), z, p); break; \
            default: AT(name, std_(t.c_str(), p, k), w.data(), p, k); \
            } break
        case 6: SETS(findFirstOf, find_first_of);
        case 7: SETS(findFirstNotOf, find_first_not_of);
        case 8: SETS(findLastOf, find_last_of);
        case 9: SETS(findLastNotOf, find_last_not_of);
        case 10: both([&] { return dp ? v.substr(p) : v.substr(p, n); }, [&] { return sub(s, p, dp ? V::npos : n); }, "substr"); break;
        case 11: both([&] { return v.left(n); }, [&] { return n > s.size() ? throw std::out_of_range("") : s.substr(0, n); }, "left"); break;
        case 12: both([&] { return v.right(n); }, [&] { return n > s.size() ? throw std::out_of_range("") : s.substr(s.size() - n); }, "right"); break;
        case 13: both([&] { return v.leftClipped(n); }, [&] { return n > s.size() ? throw std::out_of_range("") : s.substr(n); }, "leftClipped"); break;
        case 14: both([&] { return v.rightClipped(n); }, [&] { return n > s.size() ? throw std::out_of_range("") : s.substr(0, s.size() - n); }, "rightClipped"); break;
        case 15: both([&] { return v.clipped(n, p); }, [&] { return n > s.size() || p > s.size() - n ? throw std::out_of_range("") : s.substr(n, s.size() - n - p); }, "clipped"); break;
        case 16: bothInt([&] { return v.compare(w); }, [&] { return s.compare(t); }, "compare");
            bothInt([&] { return w.compare(v); }, [&] { return t.compare(s); }, "compare");
            bothInt([&] { return v.compare(w.data(), k); }, [&] { return s.compare(t.substr(0, k)); }, "compare"); break;
        case 17: bothInt([&] { return v.compare(p, n, w); }, [&] { return s.compare(p, n, t); }, "compare"); break;
        case 18: bothInt([&] { return v.compare(p, n, w, p2, n2); }, [&] { return sub(s, p, n).compare(sub(t, p2, n2)); }, "compare"); break;
        case 19: bothInt([&] { return v.compare(z); }, [&] { return s.compare(zt); }, "compare");
            bothInt([&] { return v.compare(p, n, z); }, [&] { return s.compare(p, n, zt); }, "compare"); break;
        case 20: bothInt([&] { return v.compare(p, n, w.data(), k); }, [&] { return s.compare(p, n, t.substr(0, k)); }, "compare"); break;
        case 21: {
            bool const st = s.size() >= t.size() && s.compare(0, t.size(), t) == 0, en = s.size() >= t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0;
            bool const sz = s.size() >= zt.size() && s.compare(0, zt.size(), zt) == 0, ez = s.size() >= zt.size() && s.compare(s.size() - zt.size(), zt.size(), zt) == 0;
            SIM_CHECK(v.startsWith(w) == st && v.startsWith(w.data(), w.size()) == st && v.startsWith(z) == sz, "wrong-comparison", "startsWith is wrong");
            SIM_CHECK(v.endsWith(w) == en && v.endsWith(w.data(), w.size()) == en && v.endsWith(z) == ez, "wrong-comparison", "endsWith is wrong");
            SIM_CHECK(v.startsWith(c) == (!s.empty() && T::eq(s.front(), c)) && v.endsWith(c) == (!s.empty() && T::eq(s.back(), c)), "wrong-comparison", "startsWith or endsWith a character is wrong");
            break; }
        case 22: case 23: {
            u32 const kind = sim::choose(4); S const set = kind == 0 ? S(1, c) : kind == 1 ? t : kind == 2 ? zt : t.substr(0, k);
            std::size_t l = 0, r = s.size();
            while (l < s.size() && set.find(s[l]) != S::npos) ++l;
            while (r && set.find(s[r - 1]) != S::npos) --r;
            V const a = kind == 0 ? v.leftTrimmed(c) : kind == 1 ? v.leftTrimmed(w) : kind == 2 ? v.leftTrimmed(z) : v.leftTrimmed(w.data(), k);
            V const b = kind == 0 ? v.rightTrimmed(c) : kind == 1 ? v.rightTrimmed(w) : kind == 2 ? v.rightTrimmed(z) : v.rightTrimmed(w.data(), k);
            V const d = kind == 0 ? v.trimmed(c) : kind == 1 ? v.trimmed(w) : kind == 2 ? v.trimmed(z) : v.trimmed(w.data(), k);
            is(a, s.substr(l), "leftTrimmed"); is(b, s.substr(0, r), "rightTrimmed"); is(d, l < r ? s.substr(l, r - l) : S(), "trimmed");
            inside(a, v, "leftTrimmed"); inside(b, v, "rightTrimmed"); inside(d, v, "trimmed");
            break; }
        case 24: {
            std::size_t const room = sim::choose(12); Mem<C> out(S(room, static_cast<C>('#')), false); bool threw = false; std::size_t got = 0;
            try { got = sim::flip() || p ? v.copy(out.p, room, p) : v.copy(out.p, room); } catch (std::out_of_range const &) { threw = true; SIM_HIT(outOfRange); }
            SIM_CHECK(threw == (p > s.size()), "wrong-range", "copy throws %d for position %zu of %zu", threw, p, s.size());
            S const want = threw ? S() : s.substr(p, room);
            SIM_CHECK(threw || got == want.size(), "wrong-part", "copy copied %zu characters instead of %zu", got, want.size());
            for (std::size_t i = 0; i < room; ++i) SIM_CHECK(out.p[i] == (i < want.size() ? want[i] : static_cast<C>('#')), "wrong-part", "character %zu of a copy is wrong", i);
            break; }
        case 25: {
            u64 const before = sim::allocFaultsFired();
            try {
                S x; { sim::AllocFaults f; x = v.str(); }
                is(x, s, "str"); is(V(x), s, "a view of str");
                std::basic_string<C, T, Alloc<C>> y; { sim::AllocFaults f; y = v.template str<Alloc<C>>(Alloc<C>(7)); }
                is(V(y), s, "str"); SIM_CHECK(y.get_allocator().id == 7, "wrong-part", "a string was made by another allocator");
            } catch (std::bad_alloc const &) { SIM_HIT(noStr); SIM_CHECK(sim::allocFaultsFired() > before, "error-kind", "bad_alloc without a failed allocation"); }
            break; }
        case 26: {
            std::size_t i = 0; for (C const & x : v) { SIM_CHECK(&x == v.data() + i && x == s[i], "wrong-part", "element %zu of an iteration is wrong", i); ++i; }
            SIM_CHECK(i == s.size() && static_cast<std::size_t>(v.cend() - v.cbegin()) == i, "wrong-part", "an iteration gives %zu of %zu elements", i, s.size());
            for (auto it = v.rbegin(); it != v.rend(); ++it) { --i; SIM_CHECK(*it == s[i], "wrong-part", "element %zu of a reverse iteration is wrong", i); }
            SIM_CHECK(i == 0 && v.crend() - v.crbegin() == static_cast<std::ptrdiff_t>(s.size()), "wrong-part", "a reverse iteration misses %zu elements", i);
            if (!s.empty()) SIM_CHECK(v.front() == s.front() && v.back() == s.back(), "wrong-part", "front or back is wrong");
            bool threw = false; C x = c;
            try { x = v.at(p); } catch (std::out_of_range const &) { threw = true; SIM_HIT(outOfRange); }
            SIM_CHECK(threw == (p >= s.size()) && (threw || x == s[p]), "wrong-range", "at(%zu) of %zu is wrong", p, s.size());
            break; }
        case 27: {
            V a(v), b(w); S sa(s), sb(t);
            if (sim::flip()) { a.swap(b); sa.swap(sb); }
            std::size_t const i = std::min(p, sa.size()); a.removePrefix(i); sa.erase(0, i); is(a, sa, "removePrefix");
            std::size_t const j = std::min(n, sb.size()); b.removeSuffix(j); sb.erase(sb.size() - j); is(b, sb, "removeSuffix");
            a = b; is(a, sb, "assignment"); is(V(a), sb, "a copy"); is(V(), S(), "an empty view");
            break; }
        case 28: {
            bool const ok = (v == w) == (s == t) && (v != w) == (s != t) && (v < w) == (s < t) && (v <= w) == (s <= t) && (v > w) == (s > t) && (v >= w) == (s >= t)
                && (v == z) == (s == zt) && (z != v) == (s != zt) && (v < z) == (s < zt) && (z < v) == (zt < s) && (v <= z) == (s <= zt) && (z <= v) == (zt <= s)
                && (v > z) == (s > zt) && (z > v) == (zt > s) && (v >= z) == (s >= zt) && (z >= v) == (zt >= s)
                && (v == t) == (s == t) && (t == v) == (s == t) && (v < t) == (s < t) && (t < v) == (t < s);
            SIM_CHECK(ok, "wrong-comparison", "an operator compares two views wrongly");
            break; }
        default: {
            S const u(s); V const x(u);
            SIM_CHECK(boost::hash<V>()(v) == boost::hash<V>()(x), "wrong-hash", "two views of one text have different hashes");
            is(x, s, "a view of a string"); is(V(z), zt, "a view of a C string"); is(V(static_cast<C const *>(nullptr)), S(), "a view of nothing");
        }
        }
    }
    template <typename X> struct Alloc: std::allocator<X> {
        int id = 0; Alloc() {} explicit Alloc(int i) : id(i) {} template <typename Y> Alloc(Alloc<Y> const & o) : id(o.id) {}
        template <typename Y> struct rebind { using other = Alloc<Y>; };
        using propagate_on_container_move_assignment = std::true_type; using is_always_equal = std::false_type;
        X * allocate(std::size_t n) { return static_cast<X *>(::operator new(n * sizeof(X))); }
        void deallocate(X * x, std::size_t) { ::operator delete(x); }
        friend bool operator==(Alloc const & a, Alloc const & b) { return a.id == b.id; }
        friend bool operator!=(Alloc const & a, Alloc const & b) { return a.id != b.id; }
    };
    static void go() {
        S const s = randomText<S>(sim::chance(1, 6) ? 30 : sim::flip() ? 12 : 4), z = cText<S>(3);
        S const t = sim::flip() ? randomText<S>(3) : s.substr(std::min<std::size_t>(s.size(), sim::choose(6)), sim::choose(5));
        Mem<C> const ms(s, false), mt(t, false), mz(z, true);
        auto const ops = [&] { for (u32 n = 1 + sim::choose(8); n--;) { if (sim::flip()) one(V(ms.p, ms.n), s, V(mt.p, mt.n), t, mz.p, z); else one(V(mt.p, mt.n), t, V(ms.p, ms.n), s, mz.p, z); } };
        if (sim::chance(1, 3)) { SIM_HIT(shared); Threads ts; ts.add([&] { ops(); }); ops(); ts.join(); } else ops();
        is(V(ms.p, ms.n), s, "using a view"); is(V(mt.p, mt.n), t, "using a view"); is(V(mz.p), z, "using a view");
    }
};

// ---- output ---------------------------------------------------------------------------
// A stream buffer for something which may become full, take parts only or throw.
template <typename C, typename T> struct DiskBuf: std::basic_streambuf<C, T> {
    std::basic_string<C, T> got; std::size_t room; bool throws; u32 buffer; C area[4];
    DiskBuf(std::size_t r, bool t, u32 b) : room(r), throws(t), buffer(b) { got.reserve(256); setArea(); }
    void setArea() { if (buffer) this->setp(area, area + std::min<std::size_t>(buffer, room - got.size())); }
    void flush_() { got.append(this->pbase(), static_cast<std::size_t>(this->pptr() - this->pbase())); setArea(); }
    std::size_t used() const { return got.size() + static_cast<std::size_t>(this->pptr() - this->pbase()); }
    typename T::int_type overflow(typename T::int_type c) override {
        flush_();
        if (T::eq_int_type(c, T::eof())) return T::not_eof(c);
        if (got.size() >= room) { if (throws) { SIM_HIT(bufThrew); throw UserError{5}; } return T::eof(); }
        got.push_back(T::to_char_type(c)); setArea(); return c;
    }
    int sync() override { flush_(); return 0; }
    std::streamsize xsputn(C const * s, std::streamsize n) override {
        flush_(); sim::yield();
        std::size_t const k = std::min<std::size_t>(static_cast<std::size_t>(n), room - std::min(room, got.size()));
        got.append(s, k); setArea();
        if (k < static_cast<std::size_t>(n) && throws) { SIM_HIT(bufThrew); throw UserError{5}; }
        return static_cast<std::streamsize>(k);
    }
};
template <typename C, typename T> void output() {
    using V = BasicStringView<C, T>; using S = std::basic_string<C, T>;
    S const s = randomText<S>(10); Mem<C> const m(s, false);
    std::size_t const room = sim::flip() ? 200 : sim::choose(24); bool const throws = sim::chance(1, 4);
    DiskBuf<C, T> buf(room, throws, sim::flip() ? 0 : 1 + sim::choose(4));
    std::basic_ostream<C, T> os(&buf), ref(nullptr); std::basic_stringbuf<C, T> refBuf; ref.rdbuf(&refBuf);
    bool const masks = sim::chance(1, 4);
    if (masks) os.exceptions(sim::flip() ? std::ios_base::badbit : std::ios_base::badbit | std::ios_base::failbit);
    for (u32 n = 1 + sim::choose(4); n--;) {
        std::streamsize const w = sim::chance(1, 3) ? 0 : static_cast<std::streamsize>(sim::choose(14)); bool const wasGood = os.good(); std::size_t const before = buf.used();
        static std::ios_base::fmtflags const adj[] = { std::ios_base::fmtflags(), std::ios_base::left, std::ios_base::right, std::ios_base::internal };
        auto const a = adj[sim::choose(4)]; C const fill = static_cast<C>(sim::flip() ? ' ' : '*');
        for (auto * o : { &os, &ref }) { o->setf(a, std::ios_base::adjustfield); o->fill(fill); o->width(w); }
        bool threw = false;
        try { os << V(m.p, m.n); } catch (UserError const &) { threw = true; } catch (std::ios_base::failure const &) { threw = true; SIM_CHECK(masks, "error-kind", "a stream without exceptions threw"); }
        if (!wasGood) { SIM_CHECK(buf.used() == before, "wrong-output", "something was written to a stream which is not good"); break; }
        ref << s;
        if (w > static_cast<std::streamsize>(s.size())) SIM_HIT(padded);
        bool const ok = os.good() && !threw;
        if (ok) { SIM_CHECK(os.width() == 0, "wrong-width", "the width is %d after writing a view", static_cast<int>(os.width())); }
        buf.flush_(); S const want = refBuf.str();
        if (ok) { SIM_HIT(full); SIM_CHECK(buf.got == want && buf.got.size() == want.size(), "wrong-output", "%zu characters were written instead of %zu, or others", buf.got.size(), want.size()); }
        else {
            SIM_HIT(partly);
            SIM_CHECK(want.size() > room, "wrong-state", "writing a view failed although there was enough room");
            SIM_CHECK(threw || !os, "wrong-state", "a failure to write a view was not reported");
            SIM_CHECK(buf.got.size() <= want.size() && T::compare(buf.got.data(), want.data(), buf.got.size()) == 0, "wrong-output", "something else than the start of the text was written when the stream failed");
            SIM_CHECK(buf.got.size() == room, "wrong-output", "only %zu of the %zu characters there was room for were written", buf.got.size(), room);
            break;
        }
    }
    Views<C, T>::is(V(m.p, m.n), s, "writing a view");
}

// ---- splitting ------------------------------------------------------------------------
struct Pieces { int n = 0; std::string v[40]; };
template <typename It> struct Checked { // an iterator which may throw and checks that it stays in its range
    It it, b, e; int * budget; using iterator_category = std::forward_iterator_tag; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = char const *; using reference = char const &;
    void use() const { if (*budget >= 0 && --*budget < 0) { *budget = -2; throw UserError{9}; } }
    char const & operator*() const { SIM_CHECK(!(it == e), "outside", "splitting reads behind the end"); use(); return *it; }
    Checked & operator++() { SIM_CHECK(!(it == e), "outside", "splitting goes behind the end"); use(); ++it; return *this; }
    Checked operator++(int) { Checked r(*this); ++*this; return r; }
    friend bool operator==(Checked const & x, Checked const & y) { return x.it == y.it; }
    friend bool operator!=(Checked const & x, Checked const & y) { return !(x.it == y.it); }
};
template <typename It> void doSplit(std::string const & s, It const b, It const e) {
    bool const empties = sim::flip();
    std::unique_ptr<Pieces> want(new Pieces), got(new Pieces);
    auto const delim = [](char c) { return c == 'b' || c == ' '; };
    { std::string cur; for (std::size_t i = 0; i <= s.size(); ++i) if (i == s.size() || delim(s[i])) { if (empties || !cur.empty()) want->v[want->n++] = cur; cur.clear(); } else cur += s[i]; }
    int budget = sim::flip() ? -1 : static_cast<int>(sim::choose(30)), inPred = sim::chance(1, 4) ? static_cast<int>(sim::choose(8)) : -1, inAction = sim::chance(1, 4) ? static_cast<int>(sim::choose(4)) : -1;
    using I = Checked<It>; I const first = { b, b, e, &budget }, last = { e, b, e, &budget };
    int thrown = 0;
    auto const pred = [&, n = 0](char c) mutable { if (n++ == inPred) throw UserError{7}; return delim(c); };
    auto const act = [&](I f, I l) {
        SIM_CHECK(got->n < 40, "wrong-pieces", "splitting does not end");
        std::string p; for (It i = f.it; i != l.it; ++i) { SIM_CHECK(i != e, "outside", "a piece does not end in the text"); p += *i; }
        SIM_CHECK(got->n < want->n && want->v[got->n] == p, "wrong-pieces", "piece %d of %d is wrong", got->n, want->n);
        if (got->n == inAction) throw UserError{8};
        ++got->n;
    };
    try { if (empties) split(first, last, pred, act); else splitNoAllowEmpty(first, last, pred, act); SIM_HIT(splitDone); }
    catch (UserError const & u) { thrown = u.id; SIM_HIT(splitCut); }
    SIM_CHECK(thrown || got->n == want->n, "wrong-pieces", "splitting gives %d pieces instead of %d", got->n, want->n);
    SIM_CHECK(thrown ? (thrown == 9 ? budget == -2 : thrown == 7 ? inPred >= 0 : inAction >= 0) : budget != -2, "wrong-exception", "an exception of splitting got lost or was made up");
}
void splits() {
    std::string const s = randomText<std::string>(14);
    Mem<char> const m(s, false); std::list<char> const l(s.begin(), s.end());
    if (sim::flip()) doSplit<char const *>(s, m.p, m.p + m.n); else doSplit<std::list<char>::const_iterator>(s, l.begin(), l.end());
    // Iterators and functions which never throw.
    auto const pred = [](char c) noexcept { return c == 'a'; }; int n = 0, chars = 0, as = 0; for (char const c : s) as += c == 'a';
    auto const act = [&](char const * x, char const * y) noexcept { ++n; chars += static_cast<int>(y - x); };
    split<char const *>(m.p, m.p + m.n, pred, act);
    SIM_CHECK(n == as + 1 && chars + as == static_cast<int>(s.size()), "wrong-pieces", "%d pieces of %d characters between %d delimiters", n, chars, as);
}

// ---- concatenation ----------------------------------------------------------------------
struct Shown { int v; bool breaks; };
std::ostream & operator<<(std::ostream & os, Shown const & s) { if (s.breaks) { SIM_HIT(argThrew); throw UserError{3}; } return os << '<' << s.v << '>'; }
void concats() {
    SIM_HIT(joined);
    std::string const a = cText<std::string>(40), b = randomText<std::string>(60); std::string c(b);
    char const * const z = a.c_str(); int const i = static_cast<int>(sim::choose(2000)) - 1000; unsigned long const u = sim::choose(60000);
    Shown const sh = { i, sim::chance(1, 8) };
    std::string const is = std::to_string(i), us = std::to_string(u);
    std::string got, want; u64 const before = sim::allocFaultsFired(); bool failed = false;
    u32 const kind = sim::choose(12); bool const faults = sim::flip();
    alignas(sim::AllocFaults) char mem[sizeof(sim::AllocFaults)]; sim::AllocFaults * f = faults ? new (mem) sim::AllocFaults : nullptr;
    struct Off { sim::AllocFaults *& f; ~Off() { if (f) f->~AllocFaults(); f = nullptr; } };
    try {
        Off const off = { f };
        switch (kind) {
        case 0: got = concat(); break;
        case 1: got = concat(z); break;
        case 2: got = concat(b); break;
        case 3: got = concat(std::move(c)); break;
        case 4: got = concat(i); break;
        case 5: got = concat(a, b); break;
        case 6: got = concat("Failed to load file \"", b, "\"!"); break;
        case 7: got = concat(z, i, ':', u, a); break;
        case 8: got = concat(StringView(a), ' ', StringView(b), 'x', a); break;
        case 9: got = concat(sh, b, sh); break;
        case 10: got = concat(b, b, b, b, b, b, b, b, i); break;
        default: got = concat(c, std::string("rvalue"), a); break;
        }
    } catch (std::bad_alloc const &) { SIM_HIT(joinCut); failed = true; SIM_CHECK(sim::allocFaultsFired() > before, "error-kind", "bad_alloc without a failed allocation"); }
    catch (UserError const & e) { failed = true; SIM_CHECK(kind == 9 && sh.breaks && e.id == 3, "error-kind", "concat threw something else"); }
    if (failed) return;
    SIM_CHECK(kind != 9 || !sh.breaks, "lost-exception", "the exception of an argument got lost");
    switch (kind) {
    case 0: break;
    case 1: want = a; break;
    case 2: case 3: want = b; break;
    case 4: want = is; break;
    case 5: want = a + b; break;
    case 6: want = "Failed to load file \"" + b + "\"!"; break;
    case 7: want = a + is + ":" + us + a; break;
    case 8: want = a + " " + b + "x" + a; break;
    case 9: want = "<" + is + ">" + b + "<" + is + ">"; break;
    case 10: for (int k = 0; k < 8; ++k) want += b; want += is; break;
    default: want = b + "rvalue" + a;
    }
    SIM_CHECK(got == want, "wrong-text", "concat gives %zu characters instead of %zu, or others", got.size(), want.size());
    SIM_CHECK(kind == 3 || c == b, "argument-changed", "concat changed a string passed as an lvalue");
}

// ---- input ------------------------------------------------------------------------------
void input() {
    std::string s; for (u32 n = sim::choose(40); n--;) s.push_back(sim::chance(1, 5) ? (sim::flip() ? ' ' : '\n') : sim::chance(1, 6) ? static_cast<char>(sim::choose(256)) : static_cast<char>('0' + sim::choose(10)));
    Mem<char> const m(s, false);
    auto const go = [&] {
        InputMemoryStream in(m.p, m.n); std::istringstream ref(s); std::size_t at = 0;
        for (u32 n = 1 + sim::choose(16); n--;) {
            u32 const kind = sim::choose(10);
            if (sim::chance(1, 5)) { in.clear(); ref.clear(); }
            char a[16] = {}, b[16] = {}; std::string x, y; int i = -7, j = -7; std::streamsize const k = static_cast<std::streamsize>(sim::choose(10));
            switch (kind) {
            case 0: i = in.get(); j = ref.get(); break;
            case 1: i = in.peek(); j = ref.peek(); break;
            case 2: in.read(a, k); ref.read(b, k); break;
            case 3: in >> x; ref >> y; break;
            case 4: in >> i; ref >> j; break;
            case 5: std::getline(in, x); std::getline(ref, y); break;
            case 6: in.unget(); ref.unget(); break;
            case 7: in.ignore(k, '5'); ref.ignore(k, '5'); break;
            case 8: if (ref.good() && ref.rdbuf()->in_avail() > 0) { i = static_cast<int>(in.readsome(a, k)); j = static_cast<int>(ref.readsome(b, k)); } break;
            default: { in.getline(a, 8); ref.getline(b, 8); }
            }
            SIM_CHECK(i == j && x == y && in.gcount() == ref.gcount() && !memcmp(a, b, sizeof a), "wrong-input", "operation %u reads something else than it should", kind);
            SIM_CHECK(in.rdstate() == ref.rdstate(), "wrong-state", "the state after operation %u is %d instead of %d", kind, static_cast<int>(in.rdstate()), static_cast<int>(ref.rdstate()));
            if (ref.eof()) SIM_HIT(stream);
            ++at;
        }
        if (sim::flip()) { in.clear(); ref.clear(); std::string const x((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()), y((std::istreambuf_iterator<char>(ref)), std::istreambuf_iterator<char>()); SIM_HIT(stream); SIM_CHECK(x == y, "wrong-input", "%zu bytes are left to be read instead of %zu, or others", x.size(), y.size()); }
    };
    if (sim::chance(1, 3)) { SIM_HIT(shared); Threads ts; ts.add([&] { go(); }); go(); ts.join(); } else go();
    bool const kept = Views<char, std::char_traits<char>>::same(StringView(m.p, m.n), s);
    SIM_CHECK(kept, "argument-changed", "reading from memory changed it");
}
void uuid() {
    Uuid u; for (auto & b : u) b = static_cast<std::uint8_t>(sim::choose(256));
    char want[40]; char * w = want; for (u32 i = 0; i < 16; ++i) { if (i == 4 || i == 6 || i == 8 || i == 10) *w++ = '-'; w += snprintf(w, 3, "%02x", static_cast<unsigned>(u.data[i])); }
    u64 const before = sim::allocFaultsFired();
    try {
        std::string s; { sim::AllocFaults f; s = uuidToString(u); }
        SIM_CHECK(s == want, "wrong-text", "a UUID is written as %s instead of %s", s.c_str(), want);
        Uuid const v = uuidFromString(s);
        SIM_HIT(uuids);
        SIM_CHECK(v == u && std::hash<Uuid>()(u) == std::hash<Uuid>()(v), "wrong-text", "a UUID read from %s is another one", s.c_str());
    } catch (std::bad_alloc const &) { SIM_CHECK(sim::allocFaultsFired() > before, "error-kind", "bad_alloc without a failed allocation"); }
    std::string bad(want); u32 const k = sim::choose(36); bool refused = false;
    switch (sim::choose(3)) { case 0: bad.erase(k, 1); break; case 1: bad[k] = bad[k] == '-' ? '0' : 'g'; break; default: bad += '0'; }
    try { uuidFromString(bad); } catch (boost::bad_lexical_cast const &) { refused = true; SIM_HIT(badUuid); }
    SIM_CHECK(refused, "wrong-text", "%s was taken for a UUID", bad.c_str());
    std::string const name = cText<std::string>(20), other = name + "x";
    Uuid const x = generateSharemindNameUuid(name), y = generateSharemindNameUuid(std::string(name)), z = generateSharemindNameUuid(other);
    SIM_CHECK(x == y && x != z && x == UuidNameGenerator(sharemindNamespaceUuid)(name), "wrong-text", "the UUIDs of names are wrong");
}
using Tc = std::char_traits<char>;
void part() {
    switch (sim::choose(12)) {
    case 0: case 1: case 2: Views<char, Tc>::go(); break;
    case 3: Views<char16_t, std::char_traits<char16_t>>::go(); break;
    case 4: SIM_HIT(ownTraits); Views<char, Ci>::go(); break;
    case 5: case 6: switch (sim::choose(3)) { case 0: output<wchar_t, std::char_traits<wchar_t>>(); break; default: output<char, Tc>(); } break;
    case 7: splits(); break;
    case 8: case 9: concats(); break;
    case 10: input(); break;
    default: uuid();
    }
}
} // namespace

extern "C" void sim_main() {
    sim::nontrivial();
    Threads ts; if (sim::chance(1, 4)) ts.add([] { part(); });
    for (u32 n = 1 + sim::choose(4); n--;) part();
    ts.join();
}
