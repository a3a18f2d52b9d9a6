// C37: ranges, tuples, strong types, byte order and integer comparisons.
#include "common.h"
#include <array>
#include <forward_list>
#include <sstream>
#include <tuple>
#include <unordered_set>
#include <sharemind/ApplyTuples.h>
#include <sharemind/EndianMacros.h>
#include <sharemind/IntegralComparisons.h>
#include <sharemind/Max.h>
#include <sharemind/Min.h>
#include <sharemind/NoNullTuple.h>
#include <sharemind/Range.h>
#include <sharemind/ReversedRange.h>
#include <sharemind/ReversionWrapper.h>
#include <sharemind/StrongType.h>
extern "C" char const * const sim_property = "C37";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(equal, "two ranges of different kinds were equal");
SIM_PROBE_DEF(prefix, "one range was the beginning of another");
SIM_PROBE_DEF(wrapped, "the sizes of ranges differed by a multiple of 256");
SIM_PROBE_DEF(single, "a single-pass range fed by another thread was compared");
SIM_PROBE_DEF(stepThrew, "an iterator or a comparison threw");
SIM_PROBE_DEF(reversed, "a range was reversed");
SIM_PROBE_DEF(applied, "a function was applied to several tuples");
SIM_PROBE_DEF(applyThrew, "the applied function threw");
SIM_PROBE_DEF(noNull, "null pointers were left out of a tuple");
SIM_PROBE_DEF(noNullThrew, "copying an element into a tuple threw");
SIM_PROBE_DEF(strong, "strong types were calculated with");
SIM_PROBE_DEF(endian, "values were converted to an order of bytes");
SIM_PROBE_DEF(mixedInts, "a negative number was compared to an unsigned one");

thread_local bool throwing = false; // comparisons and iterators may throw
void maybeThrow() { if (throwing && sim::userThrow()) throw UserError{5}; }

struct El {
    int v;
    friend bool operator==(El const & a, El const & b) { maybeThrow(); return a.v == b.v; }
    friend bool operator!=(El const & a, El const & b) { return !(a == b); }
};
using Values = std::vector<int>;

// Elements in memory of exactly their size.
struct Block {
    El * p; std::size_t n;
    explicit Block(Values const & v) : p(new El[v.size()]), n(v.size()) { for (std::size_t i = 0; i < n; ++i) p[i].v = v[i]; }
    Block(Block const &) = delete;
    ~Block() { delete[] p; }
};
// Random access, but of no known size.
struct Unsized: Block { using Block::Block; El * begin() { return p; } El * end() { return p + n; } El const * begin() const { return p; } El const * end() const { return p + n; } };
// Iterators which can only be incremented, and may throw.
template <typename Cat> struct Step {
    using iterator_category = Cat; using value_type = El; using difference_type = std::ptrdiff_t; using pointer = El const *; using reference = El const &;
    El const * p = nullptr, * e = nullptr;
    Step() = default;
    Step(El const * a, El const * b) : p(a), e(b) {}
    El const & operator*() const { SIM_CHECK(p != e, "outside", "an element past the end of a range was read"); return *p; }
    El const * operator->() const { return &**this; }
    Step & operator++() { maybeThrow(); SIM_CHECK(p != e, "outside", "an iterator went past the end of its range"); ++p; return *this; }
    Step operator++(int) { Step o(*this); ++*this; return o; }
    friend bool operator==(Step const & a, Step const & b) { return a.p == b.p; }
    friend bool operator!=(Step const & a, Step const & b) { return a.p != b.p; }
};
struct Forward: Block { using Block::Block; Step<std::forward_iterator_tag> begin() const { return {p, p + n}; } Step<std::forward_iterator_tag> end() const { return {p + n, p + n}; } };
// Its size is an integer of a type of its own.
template <typename N> struct Sized: Forward { using Forward::Forward; N size() const { return static_cast<N>(n); } };
// Single-pass: elements come from another thread, one at a time, once.
struct Feed {
    std::mutex m; std::condition_variable c; std::deque<int> q; bool done = false, gone = false; u64 taken = 0;
    void put(int v) { std::lock_guard<std::mutex> g(m); q.push_back(v); c.notify_one(); }
    void finish() { std::lock_guard<std::mutex> g(m); done = true; c.notify_one(); }
};
struct InputIt {
    using iterator_category = std::input_iterator_tag; using value_type = El; using difference_type = std::ptrdiff_t; using pointer = El const *; using reference = El const &;
    struct State { Feed & f; El cur{0}; u64 pos = 0; bool have = false, ended = false; };
    State * s = nullptr; u64 at = 0;
    static void fetch(State & s) {
        if (s.have || s.ended) return;
        std::unique_lock<std::mutex> l(s.f.m);
        s.f.c.wait(l, [&] { return !s.f.q.empty() || s.f.done; });
        if (s.f.q.empty()) { s.ended = true; return; }
        s.cur.v = s.f.q.front(); s.f.q.pop_front(); s.have = true; ++s.f.taken;
    }
    bool atEnd() const { if (!s) return true; SIM_CHECK(at == s->pos, "stale-iterator", "a single-pass iterator was used after a copy of it had gone on"); fetch(*s); return s->ended; }
    El const & operator*() const { SIM_CHECK(!atEnd(), "outside", "an element past the end of a single-pass range was read"); return s->cur; }
    El const * operator->() const { return &**this; }
    InputIt & operator++() { maybeThrow(); SIM_CHECK(!atEnd(), "outside", "a single-pass iterator went past the end"); s->have = false; at = ++s->pos; return *this; }
    struct Proxy { El v; operator El() const { return v; } El operator*() const { return v; } };
    Proxy operator++(int) { Proxy o{**this}; ++*this; return o; }
    friend bool operator==(InputIt const & a, InputIt const & b) { return a.atEnd() == b.atEnd(); }
    friend bool operator!=(InputIt const & a, InputIt const & b) { return !(a == b); }
};
struct End {
    friend bool operator==(End, InputIt const & i) { return i.atEnd(); } friend bool operator!=(End, InputIt const & i) { return !i.atEnd(); }
    friend bool operator==(InputIt const & i, End) { return i.atEnd(); } friend bool operator!=(InputIt const & i, End) { return !i.atEnd(); }
    friend bool operator==(End, End) { return true; } friend bool operator!=(End, End) { return false; }
};
template <typename Sentinel> struct Input {
    std::unique_ptr<Feed> f; std::unique_ptr<InputIt::State> s; mutable bool begun = false; std::thread t;
    explicit Input(Values const & v) : f(new Feed), s(new InputIt::State{*f}) {
        Feed * const fp = f.get();
        t = std::thread([fp, v] { for (int x : v) { if (sim::chance(1, 3)) sim::yield(); fp->put(x); } fp->finish(); });
    }
    ~Input() { t.join(); }
    InputIt begin() const { SIM_CHECK(!begun, "twice", "a single-pass range was begun twice"); begun = true; return InputIt{s.get(), 0}; }
    Sentinel end() const { return Sentinel(); }
};
template <typename C> struct Std: C { explicit Std(Values const & v) { for (int x : v) this->insert(this->end(), El{x}); } };
struct FwdList: std::forward_list<El> { explicit FwdList(Values const & v) { for (auto i = v.rbegin(); i != v.rend(); ++i) push_front(El{*i}); } };
struct Bidi: Unsized { // random access from both ends, but of no known size
    using Unsized::Unsized; using RI = std::reverse_iterator<El *>; using CRI = std::reverse_iterator<El const *>;
    RI rbegin() { return RI(end()); } RI rend() { return RI(begin()); } CRI rbegin() const { return CRI(end()); } CRI rend() const { return CRI(begin()); }
};
struct Rev { // reversed ranges of reversed values
    std::vector<El> v;
    explicit Rev(Values const & x) { for (auto i = x.rbegin(); i != x.rend(); ++i) v.push_back(El{*i}); }
};

Values randomValues() {
    Values v; u32 const n = sim::chance(1, 60) ? 120 + sim::choose(200) : sim::choose(sim::chance(1, 4) ? 12 : 4);
    u32 const k = 1 + sim::choose(3);
    for (u32 i = 0; i < n; ++i) v.push_back(static_cast<int>(sim::choose(k)));
    return v;
}
Values related(Values const & a) {
    Values b = a;
    switch (sim::choose(6)) {
    case 0: return randomValues();
    case 1: if (!b.empty()) b[sim::choose(static_cast<u32>(b.size()))] ^= 1; break;
    case 2: if (!b.empty()) b.resize(sim::choose(static_cast<u32>(b.size()))); break;
    case 3: for (u32 n = 1 + sim::choose(2); n--;) b.push_back(static_cast<int>(sim::choose(2))); break;
    default: break;
    }
    return b;
}

template <typename A, typename B> void compare(A && a, B && b, Values const & x, Values const & y) {
    bool const want = x == y;
    if (want && !x.empty()) SIM_HIT(equal);
    if (!want && x.size() != y.size() && std::equal(x.begin(), x.begin() + std::min(x.size(), y.size()), y.begin())) {
        SIM_HIT(prefix);
        if ((x.size() - y.size()) % 256 == 0) SIM_HIT(wrapped);
    }
    throwing = sim::faultRun() && sim::chance(1, 3);
    try {
        bool const got = rangeEqual(std::forward<A>(a), std::forward<B>(b));
        throwing = false;
        SIM_CHECK(got == want, "wrong-equality", "ranges of %zu and %zu elements, %s, compared %s", x.size(), y.size(), want ? "equal" : "not equal", got ? "equal" : "not equal");
    } catch (UserError const & e) { throwing = false; SIM_CHECK(e.id == 5, "wrong-exception", "another exception was thrown"); SIM_HIT(stepThrew); }
}
// Calls f with some range of the values.
template <typename F> void asRange(Values const & v, F f) {
    switch (sim::choose(11)) {
    case 0: { Std<std::vector<El> > const r(v); f(r); break; }
    case 1: { Std<std::list<El> > r(v); f(r); break; }
    case 2: { FwdList const r(v); f(r); break; }
    case 3: { Unsized r(v); f(r); break; }
    case 4: { Forward const r(v); f(r); break; }
    case 5: if (v.size() < 128) { Sized<signed char> const r(v); f(r); break; } // fallthrough
    case 6: if (v.size() < 256) { Sized<unsigned char> r(v); f(r); break; } // fallthrough
    case 7: { Sized<unsigned short> const r(v); f(r); break; }
    case 8: { Input<End> r(v); SIM_HIT(single); f(r); break; }
    case 9: { Input<InputIt> const r(v); SIM_HIT(single); f(r); break; }
    default: { Rev r(v); auto const w = reverseRange(r.v); f(w); break; }
    }
}
void rangesEqual(Values const * shared) {
    Values const x = shared ? *shared : randomValues();
    Values y = related(x);
    if (sim::chance(1, 100)) { y = x; for (u32 i = 0; i < 256; ++i) y.push_back(0); }
    asRange(x, [&](auto & a) { asRange(y, [&](auto & b) { if (sim::flip()) compare(a, b, x, y); else compare(b, a, y, x); }); });
}
void sharedVectors(std::vector<El> const & a, Values const & x, std::list<El> const & b, Values const & y) {
    compare(a, b, x, y); compare(b, a, y, x); compare(reverseRange(a), reverseRange(b), x, y);
    asRange(y, [&](auto & r) { compare(a, r, x, y); });
    asRange(x, [&](auto & r) { compare(r, b, x, y); });
    SIM_CHECK(static_cast<std::size_t>(measureRange(a)) == x.size() && static_cast<std::size_t>(measureRange(b)) == y.size(), "wrong-size", "a shared range was measured wrong");
}
// Arrays, literals.
void fixedRanges() {
    El a[3]; Values x; for (auto & e : a) { e.v = static_cast<int>(sim::choose(2)); x.push_back(e.v); }
    Values const y = related(x);
    SIM_CHECK(measureRange(a) == 3, "wrong-size", "an array of 3 was measured as %d", static_cast<int>(measureRange(a)));
    asRange(y, [&](auto & r) { if (sim::flip()) compare(a, r, x, y); else compare(r, a, y, x); });
    static char const lit[] = "ab\0ba";
    auto const l = asLiteralStringRange(lit);
    SIM_CHECK(l.size() == 5 && l.begin() == lit && l.end() == lit + 5 && l.cbegin() == lit && l.cend() == lit + 5, "wrong-literal", "the range of a literal is not its characters");
    std::string s(lit, 5); if (sim::flip()) s[sim::choose(5)] ^= 1; else if (sim::flip()) s.resize(sim::choose(6)); else if (sim::flip()) s.push_back('\0');
    bool const want = s == std::string(lit, 5);
    SIM_CHECK(rangeEqual(l, s) == want && rangeEqual(s, l) == want, "wrong-equality", "a literal and a string compared wrong");
    std::list<char> const sl(s.begin(), s.end());
    SIM_CHECK(rangeEqual(l, sl) == want && rangeEqual(sl, l) == want, "wrong-equality", "a literal and a list compared wrong");
    wchar_t const w[] = L"x"; SIM_CHECK(asLiteralStringRange(w).size() == 1 && *asLiteralStringRange(w).begin() == L'x', "wrong-literal", "the range of a wide literal is not its characters");
    char const e[] = ""; auto const el = asLiteralStringRange(e); SIM_CHECK(el.size() == 0 && el.begin() == el.end(), "wrong-literal", "an empty literal is not empty");
}
void reversing() {
    Values x = randomValues(); if (x.size() > 20) x.resize(20);
    SIM_HIT(reversed);
    std::vector<El> v; for (int i : x) v.push_back(El{i});
    std::list<El> l(v.begin(), v.end());
    std::size_t i = v.size();
    for (auto & e : reverseRange(v)) { SIM_CHECK(i > 0 && &e == &v[i - 1], "wrong-order", "a reversed range does not give the elements themselves in reverse"); --i; }
    SIM_CHECK(i == 0, "wrong-order", "a reversed range left out elements");
    i = v.size();
    for (auto & e : makeReversionWrapper(v)) { SIM_CHECK(i > 0 && &e == &v[i - 1], "wrong-order", "a reversion wrapper does not give the elements themselves in reverse"); e.v ^= 4; --i; }
    SIM_CHECK(i == 0, "wrong-order", "a reversion wrapper left out elements");
    for (std::size_t k = 0; k < v.size(); ++k) SIM_CHECK(v[k].v == (x[k] ^ 4), "wrong-value", "an element changed through a reversion wrapper is wrong");
    auto it = l.end();
    std::list<El> const & cl = l;
    for (auto const & e : makeReversionWrapper(cl)) { SIM_CHECK(it != l.begin() && &e == &*std::prev(it), "wrong-order", "a reversed list does not give the elements themselves"); --it; }
    SIM_CHECK(it == l.begin(), "wrong-order", "a reversed list left out elements");
    auto r = reverseRange(cl); auto rr = reverseRange(v);
    SIM_CHECK(static_cast<std::size_t>(measureRange(r)) == x.size() && static_cast<std::size_t>(measureRange(rr)) == x.size(), "wrong-size", "a reversed range was measured wrong");
    Values y(x.rbegin(), x.rend()); if (sim::flip()) y = related(y);
    for (auto & e : v) e.v ^= 4;
    Bidi bi(x); auto const rb = reverseRange(bi); auto rb2 = reverseRange(bi);
    i = x.size(); for (auto & e : rb) { SIM_CHECK(i > 0 && &e == bi.p + i - 1, "wrong-order", "a reversed range of no known size does not give the elements themselves in reverse"); --i; }
    SIM_CHECK(i == 0, "wrong-order", "a reversed range of no known size left out elements");
    SIM_CHECK(static_cast<std::size_t>(measureRange(rb)) == x.size() && static_cast<std::size_t>(measureRange(rb2)) == x.size(), "wrong-size", "a reversed range of no known size was measured wrong");
    compare(rb, r, Values(x.rbegin(), x.rend()), Values(x.rbegin(), x.rend())); compare(l, rb2, x, Values(x.rbegin(), x.rend()));
    El a[3]; Values ra; for (int k = 0; k < 3; ++k) { a[k].v = static_cast<int>(sim::choose(2)); ra.insert(ra.begin(), a[k].v); }
    Values const w = related(ra);
#ifndef HARNESS_FALLBACK
    auto const wa = reverseRange(a);
    SIM_CHECK(measureRange(wa) == 3, "wrong-size", "a reversed array was measured wrong");
    int at = 3; for (auto & e : wa) SIM_CHECK(at > 0 && &e == &a[--at], "wrong-order", "a reversed array does not give the elements themselves in reverse");
    SIM_CHECK(at == 0, "wrong-order", "a reversed array left out elements");
    asRange(w, [&](auto & o) { if (sim::flip()) compare(wa, o, ra, w); else compare(o, reverseRange(a), w, ra); });
#endif
    asRange(y, [&](auto & o) { Values const z(x.rbegin(), x.rend()); if (sim::flip()) compare(r, o, z, y); else compare(o, rr, y, z); });
}

// Tuples.
#ifdef HARNESS_FALLBACK
void applying() {} void withoutNulls() {}
#else
struct Tok { // counts copies and moves of itself; copies may throw
    int v; int copies = 0, moves = 0; int * heap;
    explicit Tok(int x) : v(x), heap(new int(x)) {}
    Tok(Tok const & c) : v(c.v), copies(c.copies + 1), moves(c.moves), heap(nullptr) { maybeThrow(); heap = new int(*c.heap); }
    Tok(Tok && m) noexcept : v(m.v), copies(m.copies), moves(m.moves + 1), heap(m.heap) { m.heap = nullptr; }
    ~Tok() { delete heap; }
    bool intact() const { return heap && *heap == v; }
};
struct Result { int v; std::unique_ptr<int> p; };
void applying() {
    int const x = static_cast<int>(sim::choose(100));
    Tok a(x), b(x + 1);
    std::tuple<Tok &, std::unique_ptr<int> > t1(a, std::unique_ptr<int>(new int(x + 2)));
    std::tuple<int, std::string, Tok> t2(x + 3, std::string(30, 'q'), Tok(x + 4));
    std::pair<char, long> const t3('c', x + 5);
    std::array<int, 2> t4{{x + 6, x + 7}};
    bool const cut = sim::faultRun() && sim::chance(1, 3);
    u32 calls = 0;
    int * const p = std::get<1>(t1).get(); std::string * const s2 = &std::get<1>(t2); int const moved = std::get<2>(t2).moves;
    auto f = [&](Tok & r, std::unique_ptr<int> && u, int & i, std::string & s, Tok & k, char const & c, long const & l, int && q, int && w) {
        ++calls;
        SIM_CHECK(&r == &a && u.get() == p && &i == &std::get<0>(t2) && &s == s2 && &k == &std::get<2>(t2) && c == 'c' && &l == &t3.second && &c == &t3.first && q == x + 6 && w == x + 7 && &q == &t4[0] && &w == &t4[1],
                  "wrong-arguments", "a function was applied to something else than the elements of the tuples in order");
        SIM_CHECK(a.intact() && k.intact() && k.moves == moved && k.copies == 0 && a.copies == 0 && a.moves == 0, "copied", "elements were copied or moved on the way to the function");
        if (cut && sim::userThrow()) throw UserError{7};
        if (sim::flip()) { std::unique_ptr<int> const taken(std::move(u)); }
        k.v = -1; *k.heap = -1;
        return Result{r.v + i, std::unique_ptr<int>(new int(q))};
    };
    try {
        auto r = sim::flip() ? applyTuples(f, std::move(t1), t2, t3, std::move(t4)) : applyTuples(std::move(f), std::move(t1), t2, t3, std::move(t4));
        static_assert(std::is_same<decltype(r), Result>::value, "");
        SIM_HIT(applied);
        SIM_CHECK(r.v == x + x + 3 && *r.p == x + 6, "wrong-result", "the result of the applied function was not returned");
        SIM_CHECK(std::get<2>(t2).v == -1, "copied", "the function was given a copy of an element");
    } catch (UserError const & e) { SIM_CHECK(e.id == 7, "wrong-exception", "another exception was thrown"); SIM_HIT(applyThrew); }
    SIM_CHECK(calls == 1, "wrong-calls", "a function was called %u times instead of once", calls);
    // one tuple; rvalue elements are rvalues, void results
    int sum = 0; u32 n = 0;
    applyTuples([&](Tok && k) { ++n; SIM_CHECK(k.v == x + 1 && &k == &b, "wrong-arguments", "an rvalue was not passed on as it was"); sum = k.v; }, std::forward_as_tuple(std::move(b)));
    struct Call { int n = 0; int operator()(int i, int j) & { ++n; return i - j; } int operator()(int i, int j) && { n += 10; return i - j; } } c;
    SIM_CHECK(applyTuples(c, std::make_tuple(x), std::make_tuple(3)) == x - 3 && c.n == 1, "wrong-result", "a function object was not called as an lvalue with elements in order");
    SIM_CHECK(applyTuples(std::move(c), std::make_tuple(x, 5)) == x - 5 && c.n == 11, "wrong-result", "a function object was not called as an rvalue");
    int lref = 8; auto g = [&](int & z) -> int & { return z; };
    auto got = applyTuples(g, std::tie(lref)); got = 9;
    SIM_CHECK(n == 1 && sum == x + 1 && lref == 8, "wrong-result", "the result of an applied function was wrong");
}
void withoutNulls() {
    throwing = sim::faultRun() && sim::chance(1, 3);
    try {
        int const x = static_cast<int>(sim::choose(100));
        Tok a(x); Tok const k(x + 1); int i = 5; std::unique_ptr<int> u(new int(x + 2)); int * const p = u.get();
        int * const nullInt = nullptr;
        {
            auto t = makeNoNullTuple(nullptr, a, nullptr, Tok(x + 3), std::move(u), nullptr, std::ref(i), k, nullInt, nullptr);
            throwing = false;
            using Orig = std::tuple<std::nullptr_t, Tok, std::nullptr_t, Tok, std::unique_ptr<int>, std::nullptr_t, int &, Tok, int *, std::nullptr_t>;
            static_assert(std::is_same<decltype(t), std::tuple<Tok, Tok, std::unique_ptr<int>, int &, Tok, int *> >::value, "");
            SIM_HIT(noNull);
            Tok const & e0 = std::get<0>(t), & e1 = std::get<1>(t), & e4 = std::get<4>(t);
            SIM_CHECK(e0.v == x && e0.intact() && e1.v == x + 3 && e1.intact() && std::get<2>(t).get() == p && !u && &std::get<3>(t) == &i && e4.v == x + 1 && e4.intact() && std::get<5>(t) == nullptr,
                      "wrong-element", "an element of a tuple without null pointers is not what it was made of");
            SIM_CHECK(e0.copies == 1 && e1.copies == 0 && e4.copies == 1, "copied", "elements were copied %d, %d and %d times instead of 1, 0 and 1", e0.copies, e1.copies, e4.copies);
            SIM_CHECK((noNullGet<1, Orig>(t).v == x && noNullGet<3, Orig>(t).v == x + 3 && noNullGet<6, Orig>(t) == 5 && noNullGet<7, Orig>(t).v == x + 1 && noNullGet<8, Orig>(t) == nullptr),
                      "wrong-element", "an element was looked up by its original position wrong");
            SIM_CHECK(e0.intact() && e1.intact() && e4.intact(), "changed", "looking up an element changed it");
        }
        SIM_CHECK(a.intact() && a.v == x && a.moves == 0 && k.intact(), "changed", "an lvalue was changed by making a tuple of it");
    } catch (UserError const &) { throwing = false; SIM_HIT(noNullThrew); } catch (std::bad_alloc const &) { throwing = false; }
    throwing = false;
    static_assert(std::is_same<decltype(makeNoNullTuple()), std::tuple<> >::value && std::is_same<decltype(makeNoNullTuple(nullptr, nullptr)), std::tuple<> >::value, "");
    (void) makeNoNullTuple(nullptr);
}

#endif
// Strong types.
struct TagA; struct TagB;
template <typename T> using Strong = StrongType<T, TagA, StrongTypeHashable, StrongTypeFullyComparable, StrongTypeAddAssignable, StrongTypeSubAssignable, StrongTypeMulAssignable, StrongTypeDivAssignable,
    StrongTypeAddAssignableWith<int>, StrongTypeIncrementable, StrongTypeDecrementable, StrongTypeStreamable>;
template <typename T> using Bits = StrongType<T, TagB, StrongTypeBasicComparable, StrongTypeModAssignable, StrongTypeXorAssignable, StrongTypeAndAssignable, StrongTypeOrAssignable>;
template <typename T> T small() { return static_cast<T>(std::is_signed<T>::value ? static_cast<int>(sim::choose(19)) - 9 : static_cast<int>(sim::choose(19))); }
template <typename T> void strongOf() {
    T x = small<T>(), y = small<T>(), d = small<T>(); if (d == T(0)) d = T(3);
    Strong<T> a(x), b(y);
    Strong<T> const & ca = a, & cb = b;
    SIM_CHECK((ca == cb) == (x == y) && (ca != cb) == (x != y) && (ca < cb) == (x < y) && (ca <= cb) == (x <= y) && (ca > cb) == (x > y) && (ca >= cb) == (x >= y), "wrong-comparison", "strong types compare unlike their values");
    SIM_CHECK(ca.hash() == std::hash<T>()(x) && std::hash<Strong<T> >()(ca) == std::hash<T>()(x), "wrong-hash", "a strong type hashes unlike its value");
    std::ostringstream o, w; o << ca << ' ' << cb; w << x << ' ' << y;
    SIM_CHECK(o.str() == w.str(), "wrong-text", "a strong type prints unlike its value");
    for (u32 n = sim::choose(6); n--;) {
        T const pv = x;
        switch (sim::choose(10)) {
        case 0: SIM_CHECK(&(a += b) == &a, "wrong-result", "+= does not return its left side"); x = static_cast<T>(x + y); break;
        case 1: a -= b; x = static_cast<T>(x - y); break;
        case 2: SIM_CHECK(&(a *= b) == &a, "wrong-result", "*= does not return its left side"); x = static_cast<T>(x * y); break;
        case 3: a /= Strong<T>(d); x = static_cast<T>(x / d); break;
        case 4: SIM_CHECK(&++a == &a, "wrong-result", "++ does not return its operand"); ++x; break;
        case 5: SIM_CHECK((a++).get() == pv, "wrong-result", "postfix ++ does not return the previous value"); ++x; break;
        case 6: SIM_CHECK(&--a == &a, "wrong-result", "-- does not return its operand"); --x; break;
        case 7: SIM_CHECK((a--).get() == pv, "wrong-result", "postfix -- does not return the previous value"); --x; break;
        case 8: a += 3; x = static_cast<T>(x + 3); break;
        default: a.get() = y; x = y; break;
        }
        SIM_CHECK(a.get() == x && ca.get() == x && b.get() == y, "wrong-value", "a calculation with strong types gave another result");
        if (!(x < T(100) && x > T(-100)) || (!std::is_signed<T>::value && x > T(100))) { a = Strong<T>(T(1)); x = T(1); }
    }
    SIM_HIT(strong);
}
template <typename T> void bitsOf() {
    T x = static_cast<T>(sim::choose(65535)), y = static_cast<T>(sim::choose(65535)); if (y == 0) y = 1;
    Bits<T> a(x), b(y);
    for (u32 n = 1 + sim::choose(4); n--;) {
        switch (sim::choose(4)) {
        case 0: a %= b; x = static_cast<T>(x % y); break;
        case 1: a ^= b; x = static_cast<T>(x ^ y); break;
        case 2: a &= b; x = static_cast<T>(x & y); break;
        default: a |= b; x = static_cast<T>(x | y); break;
        }
        SIM_CHECK(a.get() == x && b.get() == y && (a == b) == (x == y) && (a != b) == (x != y), "wrong-value", "a calculation with the bits of strong types gave another result");
    }
}
void strongTypes() {
    switch (sim::choose(5)) { case 0: strongOf<int>(); break; case 1: strongOf<unsigned>(); break; case 2: strongOf<std::int64_t>(); break; case 3: strongOf<double>(); break; default: strongOf<short>(); }
    switch (sim::choose(3)) { case 0: bitsOf<unsigned>(); break; case 1: bitsOf<std::uint8_t>(); break; default: bitsOf<std::uint64_t>(); }
    using S = Strong<int>;
    std::unordered_set<S> set; std::set<int> m;
    for (u32 i = 0; i < 5; ++i) { int const v = small<int>(); SIM_CHECK(set.insert(S(v)).second == m.insert(v).second, "wrong-set", "a set of strong types behaves unlike a set of values"); }
    for (int v = -10; v < 20; ++v) SIM_CHECK(set.count(S(v)) == m.count(v), "wrong-set", "a strong type was not found, or was without being there");
    int arr[2]; StrongType<int *, TagB, StrongTypeFullyComparable, StrongTypePreIncrementable> p(arr); ++p;
    SIM_CHECK(p.get() == arr + 1, "wrong-value", "a strong pointer was not incremented");
#ifndef HARNESS_FALLBACK
    using W = StrongType<int, TagB, StrongTypeSwappable>;
    int const x = small<int>(), y = small<int>(); W a(x), b(y);
    using std::swap; swap(a, b);
    SIM_CHECK(a.get() == y && b.get() == x && noexcept(swap(a, b)), "wrong-value", "strong values were not swapped");
#endif
}

// Orders of bytes.
template <typename T> bool bytesAre(T v, std::uint64_t x, bool big) {
    unsigned char b[sizeof(T)]; std::memcpy(b, &v, sizeof v);
    for (std::size_t i = 0; i < sizeof(T); ++i) if (b[big ? sizeof(T) - 1 - i : i] != static_cast<unsigned char>(x >> (8 * i))) return false;
    return true;
}
template <typename T> void bytesOf() {
    std::uint64_t x = 0; for (u32 i = 0; i < 8; ++i) x = x << 8 | (sim::chance(1, 3) ? 0x80u : sim::chance(1, 3) ? 0xffu : sim::choose(256));
    T const v = static_cast<T>(x);
    using S = StrongType<T, TagA, StrongTypeFullyComparable>;
    SIM_CHECK(bytesAre(hostToBigEndian(v), x, true), "wrong-order", "hostToBigEndian() of %zu bytes is wrong", sizeof v);
    SIM_CHECK(bytesAre(hostToLittleEndian(v), x, false), "wrong-order", "hostToLittleEndian() of %zu bytes is wrong", sizeof v);
    SIM_CHECK(bytesAre(hostToSharemindNetOrder(v), x, false), "wrong-order", "hostToSharemindNetOrder() of %zu bytes is wrong", sizeof v);
    SIM_CHECK(bigEndianToHost(hostToBigEndian(v)) == v && littleEndianToHost(hostToLittleEndian(v)) == v && sharemindNetToHostOrder(hostToSharemindNetOrder(v)) == v, "wrong-order", "a value of %zu bytes did not survive converting to and fro", sizeof v);
    S const s(v);
    SIM_CHECK(bytesAre(hostToBigEndian(s).get(), x, true) && bytesAre(hostToLittleEndian(s).get(), x, false) && bytesAre(hostToSharemindNetOrder(s).get(), x, false), "wrong-order", "a strong type of %zu bytes was converted wrong", sizeof v);
    SIM_CHECK(bigEndianToHost(hostToBigEndian(s)) == s && littleEndianToHost(hostToLittleEndian(s)) == s && sharemindNetToHostOrder(hostToSharemindNetOrder(s)) == s, "wrong-order", "a strong type of %zu bytes did not survive converting to and fro", sizeof v);
    SIM_HIT(endian);
}
void byteOrders() { bytesOf<std::int8_t>(); bytesOf<std::int16_t>(); bytesOf<std::int32_t>(); bytesOf<std::int64_t>(); bytesOf<std::uint8_t>(); bytesOf<std::uint16_t>(); bytesOf<std::uint32_t>(); bytesOf<std::uint64_t>(); }

// Integers of different types.
template <typename T> T edge() {
    switch (sim::choose(6)) {
    case 0: return std::numeric_limits<T>::min();
    case 1: return std::numeric_limits<T>::max();
    case 2: return static_cast<T>(0);
    case 3: return static_cast<T>(-1);
    case 4: return static_cast<T>(1u << sim::choose(31));
    default: { std::uint64_t x = 0; for (u32 i = 0; i < 8; ++i) x = x << 8 | sim::choose(256); return static_cast<T>(x >> sim::choose(57)); }
    }
}
template <typename A, typename B> void ints() {
    A const a = edge<A>(); B const b = sim::chance(1, 3) ? static_cast<B>(a) : edge<B>();
    __int128 const x = a, y = b;
    if ((x < 0) != (y < 0)) SIM_HIT(mixedInts);
    SIM_CHECK(integralLessThan(a, b) == (x < y) && integralLess(a, b) == (x < y) && integralLessEqual(a, b) == (x <= y) && integralEqual(a, b) == (x == y) && integralNotEqual(a, b) == (x != y)
              && integralGreaterEqual(a, b) == (x >= y) && integralGreater(a, b) == (x > y) && integralGreaterThan(a, b) == (x > y), "wrong-comparison", "integers of %zu and %zu bytes were compared wrong", sizeof a, sizeof b);
    SIM_CHECK(integralPositive(a) == (x > 0) && integralNegative(a) == (x < 0) && integralNonNegative(a) == (x >= 0) && integralNonPositive(a) == (x <= 0) && integralZero(a) == (x == 0) && integralNonZero(a) == (x != 0), "wrong-comparison", "an integer of %zu bytes was classified wrong", sizeof a);
}
template <typename A> void intsWith() { ints<A, int>(); ints<A, unsigned>(); ints<A, std::int8_t>(); ints<A, std::uint8_t>(); ints<A, std::int16_t>(); ints<A, std::uint16_t>(); ints<A, std::int64_t>(); ints<A, std::uint64_t>(); }
void integers() {
    switch (sim::choose(8)) { case 0: intsWith<int>(); break; case 1: intsWith<unsigned>(); break; case 2: intsWith<std::int8_t>(); break; case 3: intsWith<std::uint8_t>(); break;
        case 4: intsWith<std::int16_t>(); break; case 5: intsWith<std::uint16_t>(); break; case 6: intsWith<std::int64_t>(); break; default: intsWith<std::uint64_t>(); }
    int const a = edge<int>(), b = edge<int>(), c = edge<int>(), d = edge<int>();
    SIM_CHECK(sharemind::min(a, b, c, d) == std::min({a, b, c, d}) && sharemind::max(a, b, c, d) == std::max({a, b, c, d}) && sharemind::min(a) == a && sharemind::max(b, c) == std::max(b, c), "wrong-comparison", "the least or the greatest of integers is wrong");
}
} // namespace

extern "C" void sim_main() {
#ifdef HARNESS_FALLBACK
    sim::fail("unusable", "this does not compile: reversed arrays, tuples of move-only and throwing elements, or swapping strong types");
#endif
    u32 const threads = sim::chance(1, 3) ? 1 + sim::choose(2) : 0;
    Values const x = randomValues(), y = related(x);
    Std<std::vector<El> > const sv(x); Std<std::list<El> > const sl(y);
    bool const scarce = sim::faultRun() && sim::chance(1, 4);
    auto work = [&] {
        for (u32 n = 1 + sim::choose(4); n--;) {
            throwing = false;
            std::unique_ptr<sim::AllocFaults> af(scarce ? new sim::AllocFaults : nullptr);
            try {
                switch (sim::choose(9)) {
                case 0: case 1: rangesEqual(sim::flip() ? &x : nullptr); break;
                case 2: sharedVectors(sv, x, sl, y); break;
                case 3: fixedRanges(); break;
                case 4: reversing(); break;
                case 5: applying(); break;
                case 6: withoutNulls(); break;
                case 7: strongTypes(); break;
                default: byteOrders(); integers(); break;
                }
            } catch (std::bad_alloc const &) { throwing = false; SIM_CHECK(sim::allocFaultsFired(), "wrong-exception", "memory was said to have run out"); }
        }
    };
    Threads ts;
    for (u32 i = 0; i < threads; ++i) ts.add(work);
    work();
    ts.join();
    for (std::size_t i = 0; i < x.size(); ++i) SIM_CHECK(sv[i].v == x[i], "changed", "a shared range was changed");
    if (threads) sim::nontrivial();
}
