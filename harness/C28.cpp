// C28: optionals and maps stay consistent when element operations throw.
#include "common.h"
#include <sharemind/Optional.h>
#include <sharemind/UnorderedMap.h>
#include <sharemind/IntrusiveUnorderedSharedItemSet.h>
#include <sharemind/SimpleUnorderedStringMap.h>
#include <sharemind/StringHashTablePredicate.h>
#include <boost/range/iterator_range.hpp>
#include <list>
#include <string>
extern "C" char const * const sim_property = "C28";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(oCtor, "constructing an optional from another one failed");
SIM_PROBE_DEF(oAssign, "assigning to an optional failed");
SIM_PROBE_DEF(oEmplace, "emplacing into an optional failed");
SIM_PROBE_DEF(oCompared, "optionals were compared");
SIM_PROBE_DEF(oSwap, "swapping optionals failed");
SIM_PROBE_DEF(oOther, "an optional of another type was assigned");
SIM_PROBE_DEF(oConv, "an optional was constructed from one of another type");
SIM_PROBE_DEF(mErased, "a range of elements was erased");
SIM_PROBE_DEF(mInsert, "inserting into a map failed");
SIM_PROBE_DEF(mAssign, "replacing a value of a map failed");
SIM_PROBE_DEF(mRange, "inserting a range into a map failed half way");
SIM_PROBE_DEF(mCopy, "copying a map failed");
SIM_PROBE_DEF(mHash, "a hash function threw");
SIM_PROBE_DEF(mDup, "a key that was present was inserted");
SIM_PROBE_DEF(mErase, "an element was erased");
SIM_PROBE_DEF(tInsert, "inserting into a map of strings failed");
SIM_PROBE_DEF(tErase, "an element of a map of strings was erased by another representation of its key");
SIM_PROBE_DEF(sDup, "an item equal to one in the set was inserted");
SIM_PROBE_DEF(sAgain, "an item in the set was inserted again");
SIM_PROBE_DEF(sCopied, "an item in the set was copied or assigned");
SIM_PROBE_DEF(sFail, "a set operation failed");
SIM_PROBE_DEF(sTake, "an item was taken out of the set");

bool hashThrows;
struct Quiet { bool const t = Obj::throwing, h = hashThrows; Quiet() { Obj::throwing = hashThrows = false; } ~Quiet() { Obj::throwing = t; hashThrows = h; } };
template <typename F> bool attempt(F && f) {
    u64 const a0 = sim::allocFaultsFired();
    try { sim::AllocFaults g; f(); return true; }
    catch (UserError const &) {}
    catch (std::bad_alloc const &) { SIM_CHECK(sim::allocFaultsFired() > a0, "error-kind", "bad_alloc without a failed allocation"); }
    return false;
}
int any(u32 n = 50) { return static_cast<int>(sim::choose(n)); }

// ---- Optional -----------------------------------------------------------------
struct List { // constructed from an initializer list, nothrow default
    int sum = 0; int * p = nullptr;
    List() noexcept {}
    List(std::initializer_list<int> l) { Obj::maybeThrow(); for (int x : l) sum += x; p = new int(sum); }
    List(std::initializer_list<int> l, int extra) : List(l) { sum += extra; *p = sum; }
    List(List const & c) : sum(c.sum), p(c.p ? new int(*c.p) : nullptr) {}
    ~List() { delete p; }
    List & operator=(List const &) = delete;
};
struct FromInt { // convertible from int
    Obj o;
    FromInt(int v) : o(v) {}
    FromInt(FromInt const &) = default;
    FromInt(FromInt &&) = default;
    FromInt & operator=(FromInt const &) = default;
    FromInt & operator=(FromInt &&) = default;
    FromInt & operator=(int v) { Obj::maybeThrow(); *o.p = v; return *this; }
    int value() const { return o.value(); }
};
struct Explicit { Obj o; explicit Explicit(int v) : o(v) {} };
inline bool operator==(FromInt const & a, int b) { return a.value() == b; }

template <typename T> struct Slots {
    enum { N = 3 };
    using O = Optional<T>;
    std::unique_ptr<O> o[N];
    int want[N] = { -2, -2, -2 }; // -2: empty
    void check(char const * when) {
        Quiet q; int live = 0;
        for (int i = 0; i < N; ++i) {
            O const & x = *o[i];
            SIM_CHECK(x.hasValue() == (want[i] != -2) && bool(x) == x.hasValue() && (x == nullOption) == !x.hasValue(), "optional-state", "%s: optional %d %s", when, i, x.hasValue() ? "has a value, it should be empty" : "is empty, it should have a value");
            if (x.hasValue()) { ++live; SIM_CHECK((*x).value() == want[i] && x->value() == want[i], "optional-value", "%s: optional %d has %d, expected %d", when, i, x->value(), want[i]); }
        }
        SIM_CHECK(alive() < 0 || alive() == live, "lifetime", "%s: %d objects alive in optionals with %d values", when, alive(), live);
    }
    static int alive();
    void run() {
        for (auto & p : o) p.reset(new O);
        check("at first");
        for (u32 s = 1 + sim::choose(25); s--;) {
            int const i = static_cast<int>(sim::choose(N)), j = static_cast<int>(sim::choose(N)); int const v = any(); bool ok;
            O & a = *o[i]; O & b = *o[j]; char const * what = "";
            switch (sim::choose(15)) {
            case 0: what = "after emplace()"; ok = attempt([&] { T & r = a.emplace(v); SIM_CHECK(&r == &*a, "optional-value", "emplace() returned something else"); }); if (!ok) SIM_HIT(oEmplace); want[i] = ok ? v : -2; break;
            case 1: what = "after reset()"; if (sim::flip()) a.reset(); else a = nullOption; want[i] = -2; break;
            case 2: what = "after copy assignment"; ok = attempt([&] { a = b; }); if (ok) want[i] = want[j]; else SIM_HIT(oAssign); break;
            case 3: if (i == j) break; what = "after move assignment"; ok = attempt([&] { a = std::move(b); }); if (ok) { want[i] = want[j]; if (want[j] != -2) want[j] = b->value(); } else SIM_HIT(oAssign); break;
            case 4: what = "after assigning a value"; { Quiet q; std::unique_ptr<T> t(new T(v)); ok = false; { Obj::throwing = q.t; ok = attempt([&] { if (sim::flip()) a = *t; else a = std::move(*t); }); Obj::throwing = false; } } if (ok) want[i] = v; else SIM_HIT(oAssign); break;
            case 5: what = "after swap()"; if (i == j) break; ok = attempt([&] { if (sim::flip()) a.swap(b); else { using std::swap; swap(a, b); } });
                if (ok) std::swap(want[i], want[j]);
                else { // (std::swap of the values leaves what its throwing moves left)
                    SIM_HIT(oSwap);
                    if (want[i] != -2 && want[j] != -2) { want[i] = a->value(); want[j] = b->value(); }
                }
                break;
            case 6: case 7: { // copy construction
                what = "after copy construction";
                std::unique_ptr<O> n; ok = attempt([&] { n.reset(new O(b)); });
                if (ok) { o[i] = std::move(n); want[i] = want[j]; } else SIM_HIT(oCtor);
                break; }
            case 8: case 9: { // move construction
                what = "after move construction"; if (i == j) break;
                std::unique_ptr<O> n; ok = attempt([&] { n.reset(new O(std::move(b))); });
                if (ok) { o[i] = std::move(n); want[i] = want[j]; if (want[j] != -2) want[j] = b->value(); } else SIM_HIT(oCtor);
                break; }
            case 10: { what = "after construction in place";
                std::unique_ptr<O> n; ok = attempt([&] { n.reset(new O(inPlace, v)); });
                if (ok) { o[i] = std::move(n); want[i] = v; } else SIM_HIT(oCtor);
                break; }
            case 11: { what = "after valueOr()"; // both forms copy from b
                ok = attempt([&] { O const & c = b; T t(sim::flip() ? c.valueOr(T(v)) : c.valueOrConstruct(v)); SIM_CHECK(t.value() == (want[j] == -2 ? v : want[j]), "optional-value", "valueOr() gave %d", t.value()); });
                break; }
            case 12: { what = "after moving valueOr()"; int got = -3;
                ok = attempt([&] { T t(sim::flip() ? std::move(b).valueOr(T(v)) : std::move(b).valueOrConstruct(v)); got = t.value(); });
                if (ok) SIM_CHECK(got == (want[j] == -2 ? v : want[j]), "optional-value", "valueOr() gave %d", got);
                if (want[j] != -2 && b.hasValue()) want[j] = b->value(); // moved from
                break; }
            case 13: what = "after self-assignment"; { O & self = a; attempt([&] { a = self; }); } break;
            default: what = "after makeOptional()"; { Quiet q; std::unique_ptr<T> t(new T(v)); Obj::throwing = q.t; std::unique_ptr<O> n; ok = attempt([&] { n.reset(new O(makeOptional(*t))); }); if (ok) { o[i] = std::move(n); want[i] = v; } Obj::throwing = false; t.reset(); } break;
            }
            check(what);
        }
        for (auto & p : o) p.reset();
        SIM_CHECK(alive() <= 0, "leak", "%d objects outlived their optionals", alive());
    }
};
template <> int Slots<Obj>::alive() { return Obj::live; }
template <> int Slots<NObj>::alive() { return NObj::live; }
// Objects which need not be destroyed, or some of whose operations do nothing
// but copy bytes (of which there can be no count).
struct Bytes { int v; explicit Bytes(int x) : v(x) {} int value() const { return v; } };
struct CopyThrows { int v; explicit CopyThrows(int x) : v(x) { Obj::maybeThrow(); }
    CopyThrows(CopyThrows const & c) : v(-9) { Obj::maybeThrow(); v = c.v; } CopyThrows(CopyThrows && c) : v(-9) { Obj::maybeThrow(); v = c.v; c.v = -1; }
    CopyThrows & operator=(CopyThrows const & c) { Obj::maybeThrow(); v = c.v; return *this; } CopyThrows & operator=(CopyThrows && c) { Obj::maybeThrow(); int const x = c.v; c.v = -1; v = x; return *this; }
    int value() const { return v; } };
struct AssignThrows { int v; explicit AssignThrows(int x) : v(x) {} AssignThrows(AssignThrows const &) = default; AssignThrows(AssignThrows &&) = default;
    AssignThrows & operator=(AssignThrows const & c) { Obj::maybeThrow(); v = c.v; return *this; } AssignThrows & operator=(AssignThrows && c) { Obj::maybeThrow(); v = c.v; return *this; }
    int value() const { return v; } };
static_assert(std::is_trivially_destructible<CopyThrows>::value && std::is_trivially_copyable<Bytes>::value && std::is_trivially_copy_constructible<AssignThrows>::value, "");
template <typename T> int Slots<T>::alive() { return -1; }

// Comparisons of optionals to each other, to values and to nothing.
template <typename A, typename B> void compareTo(Optional<A> const & a, Optional<B> const & b) {
    bool const x = a.hasValue(), y = b.hasValue(); A const v = x ? *a : A(); B const w = y ? *b : B();
    SIM_CHECK((a == b) == (x != y ? false : !x ? true : v == w) && (a != b) == (x != y ? true : !x ? false : v != w), "optional-comparison", "optionals compare equal or unequal wrong");
    SIM_CHECK((a < b) == (!y ? false : !x ? true : v < w) && (a <= b) == (!x ? true : !y ? false : v <= w) && (a > b) == (!x ? false : !y ? true : v > w) && (a >= b) == (!y ? true : !x ? false : v >= w), "optional-comparison", "optionals are ordered wrong");
    SIM_CHECK((a == w) == (x && v == w) && (a != w) == (!x || v != w) && (a < w) == (!x || v < w) && (a <= w) == (!x || v <= w) && (a > w) == (x && v > w) && (a >= w) == (x && v >= w), "optional-comparison", "an optional compares to a value wrong");
    SIM_CHECK((v == b) == (y && v == w) && (v != b) == (!y || v != w) && (v < b) == (y && v < w) && (v <= b) == (y && v <= w) && (v > b) == (!y || v > w) && (v >= b) == (!y || v >= w), "optional-comparison", "a value compares to an optional wrong");
    SIM_CHECK((a == nullOption) == !x && (a != nullOption) == x && !(a < nullOption) && (a <= nullOption) == !x && (a > nullOption) == x && (a >= nullOption), "optional-comparison", "an optional compares to nothing wrong");
    SIM_CHECK((nullOption == b) == !y && (nullOption != b) == y && (nullOption < b) == y && (nullOption <= b) && !(nullOption > b) && (nullOption >= b) == !y, "optional-comparison", "nothing compares to an optional wrong");
}
void comparisons() {
    SIM_HIT(oCompared);
    for (u32 s = 1 + sim::choose(8); s--;) {
        Optional<int> a, c; Optional<long> b; Optional<double> d;
        if (sim::choose(4)) a.emplace(static_cast<int>(sim::choose(4)) - 1);
        if (sim::choose(4)) c.emplace(static_cast<int>(sim::choose(4)) - 1);
        if (sim::choose(4)) b.emplace(static_cast<long>(sim::choose(4)) - 1);
        if (sim::choose(4)) d.emplace(sim::chance(1, 4) ? std::numeric_limits<double>::quiet_NaN() : sim::choose(4) - 1.0);
        compareTo(a, b); compareTo(a, c); compareTo(b, a); compareTo(a, d); compareTo(d, b); compareTo(d, d);
    }
}
// What is taken out of an optional about to go is moved.
struct Wrap { int how; Obj o; Wrap(Obj const & x) : how(1), o(x) {} Wrap(Obj && x) : how(2), o(std::move(x)) {} };
void movedOut() {
    for (u32 s = 1 + sim::choose(4); s--;) {
        int const v = any(); Optional<Obj> a; if (!attempt([&] { a.emplace(v); })) continue;
        int got = -9, how = 0; bool ok; u32 const k = sim::choose(5);
        switch (k) {
        case 0: ok = attempt([&] { Obj const t(*std::move(a)); got = t.value(); }); break;
        case 1: { Optional<Obj> const & c = a; ok = attempt([&] { Obj const t(*std::move(c)); got = t.value(); }); break; }
        case 2: ok = attempt([&] { Obj const t(std::move(a).valueOr(Obj(v + 1))); got = t.value(); }); break;
        case 3: ok = attempt([&] { Optional<Wrap> const w(std::move(a)); got = w->o.value(); how = w->how; }); break;
        default: ok = attempt([&] { Optional<Wrap> const w(static_cast<Optional<Obj> const &>(a)); got = w->o.value(); how = w->how; });
        }
        if (!ok) continue;
        Quiet q;
        SIM_CHECK(got == v && a.hasValue() && how == (k == 3 ? 2 : k == 4 ? 1 : 0), "optional-value", "%d was taken out of an optional of %d", got, v);
        SIM_CHECK(a->value() == (k == 1 || k == 4 ? v : -1), "optional-value", k == 1 || k == 4 ? "the value of a constant optional was moved" : "the value of an optional about to go was copied");
    }
    SIM_CHECK(Obj::live == 0, "leak", "%d objects outlived their optionals", Obj::live);
}

#ifndef HARNESS_FALLBACK
// Objects which can only be moved.
void moveOnly() {
    using O = Optional<std::unique_ptr<Obj> >; O o[3]; int want[3] = { -2, -2, -2 }; // -3: holds a null pointer
    SIM_CHECK((!std::is_copy_constructible<O>::value && !std::is_copy_assignable<O>::value && std::is_move_constructible<O>::value && std::is_move_assignable<O>::value), "optional-type", "optionals of unique pointers can be copied or can not be moved");
    for (u32 s = 1 + sim::choose(12); s--;) {
        int const i = static_cast<int>(sim::choose(3)), j = static_cast<int>(sim::choose(3)), v = any(); bool ok;
        switch (sim::choose(7)) {
        case 0: ok = attempt([&] { o[i].emplace(new Obj(v)); }); if (ok) want[i] = v; break; // (fails before the call)
        case 1: ok = attempt([&] { o[i] = std::unique_ptr<Obj>(new Obj(v)); }); if (ok) want[i] = v; break;
        case 2: if (i != j) { o[i] = std::move(o[j]); want[i] = want[j]; if (want[j] != -2) want[j] = -3; } break;
        case 3: { O n(std::move(o[j])); int const w = want[j]; if (w != -2) want[j] = -3; SIM_CHECK(n.hasValue() == (w != -2) && (w < 0 || (*n)->value() == w), "optional-value", "wrong after move construction"); if (sim::flip()) { o[i] = std::move(n); want[i] = w; } break; }
        case 4: o[i].reset(); want[i] = -2; break;
        case 5: if (i != j) { using std::swap; if (sim::flip()) swap(o[i], o[j]); else o[i].swap(o[j]); std::swap(want[i], want[j]); } break;
        default: { std::unique_ptr<Obj> const p = std::move(o[i]).valueOr(std::unique_ptr<Obj>()); SIM_CHECK((p ? p->value() : -3) == (want[i] == -2 ? -3 : want[i]), "optional-value", "wrong value moved out"); if (want[i] != -2) want[i] = -3; break; }
        }
        int live = 0;
        for (int k = 0; k < 3; ++k) {
            if (want[k] >= 0) ++live;
            SIM_CHECK(o[k].hasValue() == (want[k] != -2), "optional-state", "an optional unique pointer %s", o[k] ? "has a value, it should be empty" : "is empty, it should have a value");
            if (o[k]) SIM_CHECK((*o[k] ? (*o[k])->value() : -3) == want[k], "optional-value", "wrong value of an optional unique pointer");
        }
        SIM_CHECK(Obj::live == live, "lifetime", "%d objects alive in %d optional pointers", Obj::live, live);
    }
}
#endif

void otherTypes() {
    Optional<FromInt> f; Optional<int> n; Optional<List> l; int want = -2;
    for (u32 s = 1 + sim::choose(12); s--;) {
        int const v = any();
        if (sim::chance(1, 3)) n.reset(); else n = v;
        bool ok;
        switch (sim::choose(5)) {
        case 0: SIM_HIT(oOther); ok = attempt([&] { if (sim::flip()) f = n; else f = Optional<int>(n); }); if (ok) want = n ? *n : -2; break;
        case 1: {
            SIM_HIT(oConv);
            std::unique_ptr<Optional<FromInt> > g; std::unique_ptr<Optional<Explicit> > x;
            u32 const how = sim::choose(4);
            ok = attempt([&] {
                if (how == 0) g.reset(new Optional<FromInt>(n));
                else if (how == 1) g.reset(new Optional<FromInt>(Optional<int>(n)));
                else if (how == 2) x.reset(new Optional<Explicit>(n));
                else x.reset(new Optional<Explicit>(Optional<int>(n)));
            });
            if (!ok) SIM_HIT(oCtor);
            if (g) SIM_CHECK(bool(*g) == bool(n) && (!n || (*g)->value() == *n), "optional-value", "wrong value or state after conversion");
            if (x) SIM_CHECK(bool(*x) == bool(n) && (!n || (*x)->o.value() == *n), "optional-value", "wrong value or state after conversion");
            break; }
        case 2: ok = attempt([&] { f.emplace(v); }); want = ok ? v : -2; if (!ok) SIM_HIT(oEmplace); break;
        case 3: ok = attempt([&] { if (sim::flip()) l.emplace({ v, 1, 2 }); else l.emplace({ v, 1 }, 2); }); if (!ok) { SIM_HIT(oEmplace); SIM_CHECK(!l, "optional-state", "has a value after a failed emplace()"); } else SIM_CHECK(l && l->sum == v + 3 && *l->p == v + 3, "optional-value", "wrong value after emplace()"); break;
        default: ok = attempt([&] { f = nullOption; f = FromInt(v); }); want = ok ? v : -2; break;
        }
        SIM_CHECK(f.hasValue() == (want != -2), "optional-state", "the optional %s", f ? "has a value, it should be empty" : "is empty, it should have a value");
        if (f) SIM_CHECK(f->value() == want && f == want, "optional-value", "%d instead of %d", f->value(), want);
        SIM_CHECK(Obj::live == (f ? 1 : 0), "lifetime", "%d objects alive", Obj::live);
    }
}

// ---- UnorderedMap ----------------------------------------------------------------
struct Hash { std::size_t operator()(Obj const & k) const { if (hashThrows && sim::userThrow()) { SIM_HIT(mHash); throw UserError{7}; } return static_cast<std::size_t>(k.value() % 5); } };
struct KeyPred { int k; std::size_t hash() const { return static_cast<std::size_t>(k % 5); } bool operator()(Obj const & o) const { return o.value() == k; } };
using Map = UnorderedMap<Obj, Obj, Hash>;
struct MModel { int has[16]; int n() const { int c = 0; for (int x : has) c += x >= 0; return c; } MModel() { for (int & x : has) x = -1; } };

void same(Map const & m, MModel const & d, char const * when) {
    Quiet q;
    SIM_CHECK(m.size() == static_cast<std::size_t>(d.n()) && m.empty() == !d.n(), "map-size", "%s: %zu elements instead of %d", when, m.size(), d.n());
    bool seen[16] = {};
    for (auto const & e : m) {
        int const k = e.first.value();
        SIM_CHECK(k >= 0 && k < 16 && d.has[k] >= 0 && !seen[k], "map-content", "%s: key %d is in the map, it should not be", when, k);
        seen[k] = true;
        SIM_CHECK(e.second.value() == d.has[k], "map-content", "%s: key %d has %d instead of %d", when, k, e.second.value(), d.has[k]);
    }
    for (int k = 0; k < 16; ++k) {
        Obj const key(k); auto const it = m.find(key); bool const h = d.has[k] >= 0;
        SIM_CHECK((it != m.end()) == h && m.count(key) == (h ? 1u : 0u) && m.contains(key) == h, "map-lookup", "%s: looking up key %d", when, k);
        {
            // Lookups by hash and predicate:
            std::size_t const hash = Hash()(key);
            auto const byPred = m.find(hash, [k](Obj const & o) { return o.value() == k; }), byKey = m.find(hash, key), byBoth = m.find(hash, [](Obj const & o, int i) { return o.value() == i; }, k), byObject = m.find(KeyPred{ k });
            SIM_CHECK(byPred == it && byKey == it && byBoth == it && byObject == it, "map-lookup", "looking up key %d by its hash", k);
            SIM_CHECK(m.count(hash, [k](Obj const & o) { return o.value() == k; }) == (h ? 1u : 0u) && m.contains(KeyPred{ k }) == h && m.count(KeyPred{ k }) == (h ? 1u : 0u), "map-lookup", "counting key %d by its hash", k);
            auto const er = m.equal_range(key);
            SIM_CHECK(er.first == it && std::distance(er.first, er.second) == (h ? 1 : 0), "map-lookup", "equal_range() of key %d", k);
            if (h) { bool inBucket = false; std::size_t const bk = m.bucket(it); for (auto l = m.cbegin(bk); l != m.cend(bk); ++l) inBucket = inBucket || l->first.value() == k; SIM_CHECK(bk < m.bucket_count() && m.bucket(key) == bk && m.hash_bucket(hash) == bk && inBucket, "map-lookup", "key %d is not in its bucket", k); }
        }
        if (h) SIM_CHECK(it->second.value() == d.has[k] && m.at(key).value() == d.has[k], "map-lookup", "%s: key %d has %d instead of %d", when, k, it->second.value(), d.has[k]);
        else { bool threw = false; try { m.at(key); } catch (std::out_of_range const &) { threw = true; } SIM_CHECK(threw, "map-lookup", "at() found key %d", k); }
    }
}
void maps() {
    hashThrows = true;
    std::unique_ptr<Map> m[2] = { std::unique_ptr<Map>(new Map), std::unique_ptr<Map>(new Map) }; MModel d[2];
    u32 const keys = 2 + sim::choose(14);
    auto const makeObj = [](int v) { Quiet q; return std::unique_ptr<Obj>(new Obj(v)); };
    for (u32 s = 1 + sim::choose(30); s--;) {
        int const w = static_cast<int>(sim::choose(2)); Map & a = *m[w]; MModel & x = d[w];
        int const k = static_cast<int>(sim::choose(keys)), v = any(); bool ok; char const * what = "";
        std::unique_ptr<Obj> key = makeObj(k), val = makeObj(v);
        switch (sim::choose(16)) {
        case 0: case 1: case 2: { what = "after an insertion"; bool ins = false; int at = -1; bool const had = x.has[k] >= 0; if (had) SIM_HIT(mDup);
            u32 const how = sim::choose(5);
            ok = attempt([&] {
                auto const r = how == 0 ? a.emplace(k, v) : how == 1 ? a.emplace(*key, *val) : how == 2 ? a.insert(Map::value_type(*key, *val)) : how == 3 ? a.insert(std::make_pair(k, v)) : std::make_pair(a.emplace_hint(a.begin(), k, v), !had);
                ins = r.second; at = r.first->first.value();
            });
            if (ok) { SIM_CHECK(ins == !had && at == k, "map-insert", "inserting key %d %s", k, ins ? "added it although it was there" : "did not add it"); if (!had) x.has[k] = v; } else SIM_HIT(mInsert);
            break; }
        case 3: case 4: { what = "after inserting or assigning"; bool ins = false; bool const had = x.has[k] >= 0; u32 const how = sim::choose(4);
            ok = attempt([&] { if (how == 0) ins = a.insert_or_assign(*key, *val).second; else if (how == 1) ins = a.insert_or_assign(std::move(*key), *val).second; else { Map::iterator it = how == 2 ? a.insert_or_assign(a.cend(), *key, std::move(*val)) : a.insert_or_assign(a.cend(), std::move(*key), *val); SIM_CHECK(it->first.value() == k, "map-insert", "another key"); ins = !had; } });
            if (ok) { SIM_CHECK(ins == !had, "map-insert", "wrong result"); x.has[k] = v; } else SIM_HIT(mAssign);
            break; }
        case 5: case 6: { what = "after an access"; ok = attempt([&] { Obj & r = sim::flip() ? a[*key] : a[std::move(*key)]; *r.p = v; }); if (ok) x.has[k] = v; else SIM_HIT(mInsert); break; }
        case 7: case 8: { what = "after an erasure"; std::size_t r = 9; ok = attempt([&] { r = a.erase(*key); }); if (ok) { SIM_CHECK(r == (x.has[k] >= 0 ? 1u : 0u), "map-erase", "erasing key %d returned %zu", k, r); x.has[k] = -1; SIM_HIT(mErase); } break; }
        case 9: if (sim::chance(1, 3)) { what = "after erasing a range"; Quiet q; SIM_HIT(mErased);
            Map const & c = a; auto first = c.begin(); for (u32 n = sim::choose(static_cast<u32>(c.size()) + 1); n--;) ++first;
            auto last = first; for (u32 n = sim::choose(static_cast<u32>(c.size()) + 1); n-- && last != c.end();) { x.has[last->first.value()] = -1; ++last; }
            bool const toEnd = last == c.end(); int const next = toEnd ? -1 : last->first.value();
            auto const r = a.erase(first, last); SIM_CHECK(toEnd ? r == a.end() : r->first.value() == next, "map-erase", "wrong position after erasing a range");
            break;
        } else { what = "after erasing by position"; Quiet q; Map const & c = a; auto const it = c.find(*key); if (it != c.end()) { a.erase(it); x.has[k] = -1; } break; }
        case 10: { what = "after inserting a range"; int ks[4]; std::unique_ptr<std::vector<Map::value_type> > src; { Quiet q; src.reset(new std::vector<Map::value_type>); src->reserve(4); for (int & i : ks) { i = static_cast<int>(sim::choose(keys)); src->emplace_back(i, v + i); } }
            ok = attempt([&] { a.insert(src->begin(), src->end()); });
            bool stopped = false; bool present[16]; { Quiet q; for (int i = 0; i < 16; ++i) present[i] = a.contains(Obj(i)); }
            for (int i : ks) { if (x.has[i] >= 0) continue; if (present[i]) { SIM_CHECK(!stopped, "map-insert", "the elements of a range were not inserted in order"); x.has[i] = v + i; } else { stopped = true; SIM_CHECK(!ok, "map-insert", "key %d of a range was not inserted", i); } }
            if (!ok) SIM_HIT(mRange);
            break; }
        case 11: { what = "after copying"; std::unique_ptr<Map> n; ok = attempt([&] { n.reset(sim::flip() ? new Map(a) : new Map(a, std::allocator<std::pair<Obj const, Obj> >())); }); if (ok) { m[!w] = std::move(n); d[!w] = x; } else SIM_HIT(mCopy); break; }
        case 12: { what = "after assigning a copy"; ok = attempt([&] { *m[!w] = a; }); if (ok) d[!w] = x; else SIM_HIT(mCopy); { Map & self = a; Quiet q; a = self; } break; }
        case 13: { what = "after moving"; std::unique_ptr<Map> n; ok = attempt([&] { if (sim::flip()) *m[!w] = std::move(a); else { n.reset(new Map(std::move(a))); } }); if (n) m[!w] = std::move(n); if (ok) { d[!w] = x; Quiet q; a.clear(); x = MModel(); } else what = "after a failed move"; break; }
        case 14: { what = "after exchanging maps"; ok = attempt([&] { a.swap(*m[!w]); }); if (ok) std::swap(d[0], d[1]); break; }
        default: {
            u32 const how = sim::choose(4);
            if (how == 0) { what = "after clearing"; a.clear(); x = MModel(); }
            else if (how == 1) { what = "after rehashing"; attempt([&] { if (sim::flip()) a.rehash(sim::choose(40)); else a.reserve(sim::choose(40)); }); }
            else if (how == 2) { what = "after assigning a list"; ok = attempt([&] { a = { Map::value_type(k, v), Map::value_type(k, v + 1), Map::value_type((k + 1) % 16, v + 2) }; }); if (ok) { x = MModel(); x.has[k] = v; x.has[(k + 1) % 16] = v + 2; } }
            else { what = "after comparing"; Quiet q; bool eq = true; for (int i = 0; i < 16; ++i) eq = eq && d[0].has[i] == d[1].has[i]; SIM_CHECK((*m[0] == *m[1]) == eq && (*m[0] != *m[1]) == !eq, "map-compare", "comparing gave the wrong result"); }
            break; }
        }
        key.reset(); val.reset();
        same(*m[0], d[0], what); same(*m[1], d[1], what);
        SIM_CHECK(Obj::live == 2 * (d[0].n() + d[1].n()), "lifetime", "%s: %d objects alive, maps have %d elements", what, Obj::live, d[0].n() + d[1].n());
    }
    hashThrows = false;
}

// ---- SimpleUnorderedStringMap ------------------------------------------------------
using SMap = SimpleUnorderedStringMap<Obj>;
enum { STRINGS = 12 };
std::string stringKey(int k) { // prefixes of each other, empty, equal up to a null character, too long for no allocation
    switch (k) {
    case 0: return std::string(); case 1: return "a"; case 2: return "ab"; case 3: return "ba"; case 4: return std::string("a\0b", 3); case 5: return std::string("a\0", 2); case 6: return std::string(40, 'x');
    case 7: return std::string(40, 'x') + 'y'; case 8: return std::string(39, 'x') + 'y'; case 9: return "\xff\x80"; case 10: return std::string("\0", 1); default: return "A";
    }
}
int whichString(std::string const & s) { for (int k = 0; k < STRINGS; ++k) if (stringKey(k) == s) return k; return -1; }
// Calls f with some representation of the key.
template <typename F> void asOther(std::string const & s, F && f) {
    switch (sim::choose(5)) {
    case 0: f(s); break;
    case 1: if (s.find('\0') == std::string::npos) { std::unique_ptr<char[]> c(new char[s.size() + 1]); memcpy(c.get(), s.c_str(), s.size() + 1); f(static_cast<char const *>(c.get())); } else f(s); break;
    case 2: { std::vector<char> const v(s.begin(), s.end()); f(v); break; }
    case 3: { std::list<char> const l(s.begin(), s.end()); f(l); break; }
    default: { std::unique_ptr<char[]> c(new char[s.size()]); memcpy(c.get(), s.data(), s.size()); f(boost::make_iterator_range(c.get(), c.get() + s.size())); }
    }
}
// The same, or a predicate with its hash.
template <typename F> void asAny(std::string const & s, F && f) {
    switch (sim::choose(6)) {
    case 0: { auto const p(getOrCreateTemporaryStringHashTablePredicate(s)); f(p); break; }
    case 1: { std::list<char> l(s.begin(), s.end()); auto const p(getOrCreateTemporaryStringHashTablePredicate(l)); f(p); break; }
    case 2: if (s.find('\0') == std::string::npos) { char const * const c = s.c_str(); auto const p(getOrCreateTemporaryStringHashTablePredicate(c)); auto const q(p); f(q); break; } // fall through
    default: asOther(s, f);
    }
}
void strings() {
    SMap a; int has[STRINGS]; for (int & x : has) x = -1;
    auto const check = [&](char const * when) {
        Quiet q; SMap const & c = a; int n = 0;
        for (int x : has) n += x >= 0;
        SIM_CHECK(a.size() == static_cast<std::size_t>(n) && std::distance(c.begin(), c.end()) == n, "map-size", "%s: %zu elements instead of %d", when, a.size(), n);
        for (auto const & e : c) { int const k = whichString(e.first); SIM_CHECK(k >= 0 && has[k] == e.second.value(), "map-content", "%s: key %d has %d", when, k, e.second.value()); }
        for (int k = 0; k < STRINGS; ++k) {
            bool const h = has[k] >= 0; std::string const s(stringKey(k));
            asAny(s, [&](auto const & r) { auto const it = c.find(r); SIM_CHECK((it != c.end()) == h && c.count(r) == (h ? 1u : 0u) && c.contains(r) == h, "map-lookup", "%s: looking up string %d", when, k); if (h) SIM_CHECK(it->first == s && it->second.value() == has[k], "map-lookup", "%s: string %d has %d instead of %d", when, k, it->second.value(), has[k]); });
            asAny(s, [&](auto const & r) { auto const it = a.find(r); SIM_CHECK((it != a.end()) == h && (!h || it->first == s), "map-lookup", "%s: looking up string %d", when, k); });
            std::size_t const hash = StringHasher()(s);
            SIM_CHECK((c.find(hash, [&](std::string const & o) { return o == s; }) != c.end()) == h, "map-lookup", "%s: looking up string %d by its hash", when, k);
            bool threw = false; try { SIM_CHECK(c.at(s).value() == has[k], "map-lookup", "%s: string %d", when, k); } catch (std::out_of_range const &) { threw = true; }
            SIM_CHECK(threw == !h, "map-lookup", "%s: string %d is%s in the map", when, k, h ? " not" : "");
        }
    };
    for (u32 n = 1 + sim::choose(20); n--;) {
        int const k = static_cast<int>(sim::choose(STRINGS)), v = any(); bool const had = has[k] >= 0; bool ok; bool ins = !had; char const * what = "";
        std::string key(stringKey(k)); std::unique_ptr<Obj> val; { Quiet q; val.reset(new Obj(v)); }
        switch (sim::choose(8)) {
        case 0: case 1: what = "after an insertion"; ok = attempt([&] { ins = sim::flip() ? a.emplace(key, v).second : a.insert(SMap::value_type(key, *val)).second; });
            if (ok) { SIM_CHECK(ins == !had, "map-insert", "inserting string %d", k); if (!had) has[k] = v; } else SIM_HIT(tInsert);
            break;
        case 2: what = "after inserting or assigning"; ok = attempt([&] { ins = a.insert_or_assign(key, *val).second; }); if (ok) { SIM_CHECK(ins == !had, "map-insert", "wrong result"); has[k] = v; } else SIM_HIT(tInsert); break;
        case 3: what = "after an access"; ok = attempt([&] { Obj & r = sim::flip() ? a[key] : a[std::move(key)]; *r.p = v; }); if (ok) has[k] = v; else SIM_HIT(tInsert); break;
        case 4: case 5: { what = "after an erasure"; Quiet q; std::size_t r = 9; asOther(key, [&](auto const & o) { r = a.erase(o); }); SIM_CHECK(r == (had ? 1u : 0u), "map-erase", "erasing string %d returned %zu", k, r); if (had) SIM_HIT(tErase); has[k] = -1; break; }
        case 6: { what = "after copying"; attempt([&] { SMap c(a); a.swap(c); }); break; }
        default: if (sim::chance(1, 4)) { what = "after clearing"; a.clear(); for (int & x : has) x = -1; } else { what = "after rehashing"; attempt([&] { a.rehash(sim::choose(40)); }); }
        }
        val.reset();
        check(what);
        int m = 0; for (int x : has) m += x >= 0;
        SIM_CHECK(Obj::live == m, "lifetime", "%s: %d objects alive, the map has %d elements", what, Obj::live, m);
    }
}

// ---- IntrusiveUnorderedSharedItemSet -------------------------------------------------
enum { ITEMS = 40 };
int itemsDead[ITEMS]; int itemCount;
struct Item : IntrusiveUnorderedSharedItemSetItemBase<Item> {
    int id, key; NObj o;
    Item(int i, int k) : id(i), key(k), o(k) {}
    Item(Item const &) = default;
    Item & operator=(Item const &) = default;
    ~Item() noexcept override { ++itemsDead[id]; }
};
struct ItemHash { std::size_t operator()(Item const & i) const { if (hashThrows && sim::userThrow()) throw UserError{8}; return static_cast<std::size_t>(i.o.value() % 3); } std::size_t operator()(int k) const { if (hashThrows && sim::userThrow()) throw UserError{8}; return static_cast<std::size_t>(k % 3); } };
struct ItemEq { bool operator()(Item const & a, Item const & b) const { if (hashThrows && sim::userThrow()) throw UserError{9}; return a.key == b.key; } bool operator()(int a, Item const & b) const { return a == b.key; } bool operator()(Item const & a, int b) const { return a.key == b; } };
using Set = IntrusiveUnorderedSharedItemSet<Item, boost::intrusive::hash<ItemHash>, boost::intrusive::equal<ItemEq> >;
using IPtr = std::shared_ptr<Item>;

void sets() {
    std::unique_ptr<Set> s; hashThrows = true;
    attempt([&] { s.reset(sim::flip() ? new Set(1 + sim::choose(8)) : new Set); });
    if (!s) { SIM_HIT(sFail); hashThrows = false; return; }
    enum { KEYS = 6 };
    int in[KEYS]; for (int & x : in) x = -1;          // ids of the items in the set
    std::vector<IPtr> mine; mine.reserve(ITEMS + 8);
    auto const check = [&](char const * when) {
        Quiet q; int n = 0; Set const & c = *s;
        for (int k = 0; k < KEYS; ++k) {
            Item const * const p = c.find(k, ItemHash(), ItemEq());
            SIM_CHECK(!p == (in[k] < 0), "set-content", "%s: key %d %s", when, k, p ? "is in the set, it should not be" : "is missing");
            if (p) { ++n; SIM_CHECK(!itemsDead[in[k]] && p->id == in[k] && p->o.value() == k, "set-content", "%s: item %d instead of %d", when, p->id, in[k]); IPtr const sp(Set::retrieveSharedPtr(*p)); SIM_CHECK(sp.get() == p, "set-content", "%s: the pointer to item %d is another one", when, p->id); }
        }
        SIM_CHECK(c.size() == static_cast<std::size_t>(n) && c.empty() == !n, "set-size", "%s: %zu items instead of %d", when, c.size(), n);
        int walked = 0; for (auto const & i : c) { ++walked; SIM_CHECK(in[i.key] == i.id, "set-content", "%s: item %d is in the set", when, i.id); } SIM_CHECK(walked == n, "set-size", "%s: %d items instead of %d", when, walked, n);
        for (int i = 0; i < itemCount; ++i) {
            bool held = false; for (int x : in) held = held || x == i; for (IPtr const & p : mine) held = held || p->id == i;
            SIM_CHECK(itemsDead[i] == (held ? 0 : 1), "lifetime", "%s: item %d was destroyed %d times and is %s", when, i, itemsDead[i], held ? "held" : "not held");
        }
    };
    for (u32 n = 1 + sim::choose(25); n--;) {
        int const k = static_cast<int>(sim::choose(KEYS)); bool ok = true; char const * what = "";
        IPtr pick; if (!mine.empty()) pick = mine[sim::choose(static_cast<u32>(mine.size()))];
        switch (sim::choose(10)) {
        case 0: case 1: case 2: { what = "after an insertion";
            IPtr p;
            if (pick && sim::flip()) { p = pick; if (in[p->key] == p->id) SIM_HIT(sAgain); }
            else { if (itemCount == ITEMS) break; p = std::make_shared<Item>(itemCount++, k); if (sim::flip()) mine.push_back(p); }
            int const pk = p->key, id = p->id; bool ins = false; int got = -1;
            ok = attempt([&] { auto const r = s->insert(std::move(p)); ins = r.second; got = r.first->id; });
            if (ok) { if (in[pk] >= 0) SIM_HIT(sDup); SIM_CHECK(ins == (in[pk] < 0), "set-insert", "inserting key %d %s", pk, ins ? "added it although it was there" : "did not add it"); if (ins) in[pk] = id; SIM_CHECK(got == in[pk], "set-insert", "item %d was returned instead of %d", got, in[pk]); }
            p.reset();
            break; }
        case 3: { what = "after erasing by position"; Quiet q; if (Item * p = s->find(k, ItemHash(), ItemEq())) { Set const & c = *s; s->erase(c.iteratorTo(*p)); in[k] = -1; } break; }
        case 4: { what = "after erasing an equal item"; std::size_t r = 9; Item const probe(ITEMS - 1, k); itemsDead[ITEMS - 1] = 0; ok = attempt([&] { r = s->erase(probe); }); if (ok) { SIM_CHECK(r == (in[k] >= 0 ? 1u : 0u), "set-erase", "erasing key %d returned %zu", k, r); in[k] = -1; } break; }
        case 5: { what = "after taking by position"; Quiet q; Item * p = s->find(k, ItemHash(), ItemEq()); if (p) { SIM_HIT(sTake); IPtr t(s->take(s->iteratorTo(*p))); SIM_CHECK(t.get() == p && t->id == in[k], "set-take", "another item was taken"); in[k] = -1; if (sim::flip()) mine.push_back(std::move(t)); } break; }
        case 6: { what = "after taking an item"; Item * p; { Quiet q; p = s->find(k, ItemHash(), ItemEq()); } if (p) { SIM_HIT(sTake); IPtr t; ok = attempt([&] { t = s->take(*p); }); if (ok) { SIM_CHECK(t.get() == p, "set-take", "another item was taken"); in[k] = -1; if (sim::flip()) mine.push_back(std::move(t)); } } break; }
        case 7: { what = "after copying an item"; Item * p; { Quiet q; p = s->find(k, ItemHash(), ItemEq()); } if (p && itemCount < ITEMS - 1) { SIM_HIT(sCopied); int const id = itemCount++; Quiet q; IPtr t(std::make_shared<Item>(*p)); t->id = id; if (sim::flip()) mine.push_back(t); } break; }
        case 8: { what = "after assigning to an item"; Item * p; { Quiet q; p = s->find(k, ItemHash(), ItemEq()); } if (p && pick && pick->key == p->key) { SIM_HIT(sCopied); Quiet q; int const id = p->id; *p = *pick; p->id = id; } break; }
        default: if (!mine.empty()) { what = "after letting an item go"; pick.reset(); std::swap(mine[sim::choose(static_cast<u32>(mine.size()))], mine.back()); mine.pop_back(); }
        }
        if (!ok) SIM_HIT(sFail);
        pick.reset();
        itemsDead[ITEMS - 1] = 0;
        check(what);
    }
    hashThrows = false;
    s.reset();
    for (int & x : in) x = -1;
    for (int i = 0; i < itemCount; ++i) { bool held = false; for (IPtr const & p : mine) held = held || p->id == i; SIM_CHECK(itemsDead[i] == (held ? 0 : 1), "lifetime", "after destroying the set: item %d was destroyed %d times", i, itemsDead[i]); }
}
} // namespace

extern "C" void sim_main() {
#ifdef HARNESS_FALLBACK
    sim::fail("unusable", "optionals of objects which can only be moved do not compile");
#endif
    sim::nontrivial();
    Obj::throwing = true;
    switch (sim::choose(6)) {
    case 0: { Slots<Obj> s; s.run(); break; }
    case 1: switch (sim::choose(7)) {
        case 4: comparisons(); break;
        case 5: movedOut(); break;
        case 0: { Slots<Bytes> s; s.run(); break; }
        case 1: { Slots<CopyThrows> s; s.run(); break; }
        case 2: { Slots<AssignThrows> s; s.run(); break; }
#ifndef HARNESS_FALLBACK
        case 3: moveOnly(); break;
#endif
        default: { Slots<NObj> s; s.run(); break; }
        } break;
    case 2: otherTypes(); break;
    case 3: maps(); break;
    case 4: strings(); break;
    default: sets();
    }
    SIM_CHECK(Obj::live == 0 && NObj::live == 0, "leak", "%d and %d objects were never destroyed", Obj::live, NObj::live);
}
