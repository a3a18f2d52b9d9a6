// C23: a datum behaves as a value; loading a file is exact or fails with the cause, and leaks nothing.
#include "common.h"
#include <cerrno>
#include <sharemind/Datum.h>
extern "C" char const * const sim_property = "C23";
using namespace sharemind;

namespace {
SIM_PROBE_DEF(loaded, "a file was loaded");
SIM_PROBE_DEF(empty, "an empty file was loaded");
SIM_PROBE_DEF(absent, "the file did not exist");
SIM_PROBE_DEF(special, "the file was not a regular file");
SIM_PROBE_DEF(changed, "the file shrank while it was loaded");
SIM_PROBE_DEF(sysFail, "a system call failed");
SIM_PROBE_DEF(noMem, "memory ran out");
SIM_PROBE_DEF(kept, "previous content survived a failure");
SIM_PROBE_DEF(values, "datums were copied, moved, compared and resized");
SIM_PROBE_DEF(keptValue, "a value survived a failed allocation");
SIM_PROBE_DEF(unequal, "datums differing in one byte were compared");
SIM_PROBE_DEF(both, "loaded by two threads at once");

enum { FILES = 4 };
char const * const names[FILES] = { "/sim/a", "/sim/b with a rather long name", "/sim/c", "/sim/d" };
char content[FILES][5000]; std::size_t size[FILES]; bool regular[FILES], shrinks[FILES]; std::size_t shrunkTo[FILES], shrinkAt[FILES];

bool same(Datum const & d, char const * p, std::size_t n) { return d.size() == n && (!n || !memcmp(d.constData(), p, n)) && d.empty() == !n; }

void work(u32 steps) {
    Datum d; char old[5000]; std::size_t oldN = 0;
    while (steps--) {
        u32 const f = sim::choose(FILES + 1);
        char const * const nm = f < FILES ? names[f] : "/sim/nothing";
        if (sim::flip()) { oldN = sim::choose(3) * 17; for (std::size_t i = 0; i < oldN; ++i) old[i] = static_cast<char>(i * 7 + steps); if (oldN) d.assign(old, oldN); else d.clear(); }
        sim::clearSysErrno();
        u64 const a0 = sim::allocFaultsFired(); unsigned const open0 = sim::kernel::openCount();
        bool const ctor = sim::flip(); bool ok = false; bool const single = sim::liveThreads() == 1;
        Datum made;
        try {
            std::string const name(nm);
            sim::SysFaults sf; sim::AllocFaults af;
            if (ctor) { Datum t(name); made = std::move(t); } else d.loadFromFile(name);
            ok = true;
        } catch (Datum::LoadException const & e) {
            // Composing the message may run out of memory, too.
            if (sim::allocFaultsFired() == a0) SIM_CHECK(strstr(e.what(), nm), "error-message", "the error does not name the file: %s", e.what());
            bool const sys = sim::lastSysErrno() != 0, al = sim::allocFaultsFired() > a0;
            try { std::rethrow_if_nested(e); SIM_CHECK(false, "error-kind", "the load error has no cause"); }
            catch (ErrnoException const & n) {
                SIM_HIT(sysFail);
                if (sys) SIM_CHECK(n.errorNumber() == sim::lastSysErrno(), "error-code", "nested code %d instead of %d", n.errorNumber(), sim::lastSysErrno());
                else { SIM_HIT(absent); SIM_CHECK(f == FILES && n.errorNumber() == ENOENT, "error-kind", "load of %s failed with code %d without a failure", nm, n.errorNumber()); }
            }
            catch (Datum::FileTypeNotSupportedException const &) { SIM_HIT(special); SIM_CHECK(f < FILES && !regular[f], "error-kind", "a regular file was refused"); }
            catch (Datum::FileSizeChangedException const &) { SIM_HIT(changed); SIM_CHECK(f < FILES && shrinks[f], "error-kind", "a size change was reported but there was none"); }
            catch (std::bad_alloc const &) { SIM_HIT(noMem); SIM_CHECK(al, "error-kind", "bad_alloc without a failed allocation"); }
        } catch (std::bad_alloc const &) { SIM_HIT(noMem); SIM_CHECK(sim::allocFaultsFired() > a0, "error-kind", "bad_alloc without a failed allocation"); }
        if (single) SIM_CHECK(sim::kernel::openCount() == open0, "fd-leak", "%u descriptors are open after a load instead of %u", sim::kernel::openCount(), open0);
        if (ok) {
            SIM_HIT(loaded);
            Datum const & r = ctor ? made : d;
            SIM_CHECK(f < FILES && regular[f], "error-lost", "loading %s succeeded", nm);
            if (!size[f]) SIM_HIT(empty);
            // A file that shrinks meanwhile is either loaded as it was, as it became, or reported.
            bool const good = same(r, content[f], size[f]) || (shrinks[f] && same(r, content[f], shrunkTo[f]));
            SIM_CHECK(good, "wrong-content", "%zu bytes were loaded from %s (%zu bytes), or other ones", r.size(), nm, size[f]);
            if (!ctor) { oldN = r.size(); if (oldN) memcpy(old, r.constData(), oldN); }
        } else if (!ctor) SIM_HIT(kept);
        SIM_CHECK(same(d, old, oldN), "content-lost", "the previous content was not kept: %zu bytes instead of %zu", d.size(), oldN);
        dawdle(sim::choose(3));
    }
}

// A datum is a value: a sequence of bytes.
enum { VALS = 3, MAXB = 64 };
struct Model { unsigned char b[MAXB]; std::size_t n; };
void checkValue(Datum & d, Model const & m, char const * what) {
    SIM_CHECK(d.size() == m.n && d.empty() == !m.n, "wrong-value", "a datum has %zu bytes instead of %zu after %s", d.size(), m.n, what);
    if (!m.n) return;
    SIM_CHECK(!memcmp(d.constData(), m.b, m.n), "wrong-value", "a datum has other content after %s", what);
    SIM_CHECK(d.data() == d.constData() && d.dataEnd() == d.constDataEnd() && static_cast<char const *>(d.constDataEnd()) - static_cast<char const *>(d.constData()) == static_cast<std::ptrdiff_t>(m.n), "wrong-value", "the ends of the data of a datum do not match after %s", what);
}
void valuesWork(u32 steps) {
    SIM_HIT(values);
    Datum d[VALS]; Model m[VALS]; for (Model & x : m) x.n = 0;
    auto const bytes = [](Model & x) { x.n = sim::choose(MAXB + 1); if (sim::flip()) x.n = sim::choose(3); for (std::size_t i = 0; i < x.n; ++i) x.b[i] = static_cast<unsigned char>(sim::choose(256)); };
    auto const differ = [](Model const & a, Model const & b) { return a.n != b.n || memcmp(a.b, b.b, a.n); };
    while (steps--) {
        u32 const a = sim::choose(VALS), b = sim::choose(VALS), op = sim::choose(13);
        Model was = m[a], next = m[a]; char const * what = ""; std::size_t const n = sim::choose(MAXB + 1); char const c = static_cast<char>(sim::choose(256));
        u64 const a0 = sim::allocFaultsFired(); bool failed = false;
        // Replaced content may not be what it was after a failure only where a copy is made in place.
        try {
            switch (op) {
            case 0: what = "copy assignment"; next = m[b]; { sim::AllocFaults af; d[a] = d[b]; } break;
            case 1: what = "copy construction"; next = m[b]; { sim::AllocFaults af; Datum t(d[b]); d[a] = std::move(t); } break;
            case 2: { what = "move assignment"; if (a == b) break; next = m[b]; d[a] = std::move(d[b]); d[b].clear(); m[b].n = 0; break; }
            case 3: { what = "move construction"; Datum t(std::move(d[b])); d[b].clear(); if (a != b) { next = m[b]; m[b].n = 0; } d[a] = std::move(t); break; }
            case 4: { what = "resize"; for (std::size_t i = next.n; i < n; ++i) next.b[i] = 0; next.n = n; sim::AllocFaults af; d[a].resize(n); break; }
            case 5: { what = "resize with a value"; for (std::size_t i = next.n; i < n; ++i) next.b[i] = static_cast<unsigned char>(c); next.n = n; sim::AllocFaults af; d[a].resize(n, c); break; }
            case 6: { what = "assign"; bytes(next); sim::AllocFaults af; d[a].assign(next.b, next.n); break; }
            case 7: { what = "construction from bytes"; bytes(next); sim::AllocFaults af; Datum t(next.b, next.n); d[a] = std::move(t); break; }
            case 8: { what = "construction from a size"; next.n = n; memset(next.b, 0, n); sim::AllocFaults af; Datum t(n); d[a] = std::move(t); break; }
            case 9: { what = "construction from a size and a value"; next.n = n; memset(next.b, c, n); sim::AllocFaults af; Datum t(n, c); d[a] = std::move(t); break; }
            case 10: { what = "clear"; next.n = 0; d[a].clear(); break; }
            case 11: { what = "writing"; if (next.n) { std::size_t const i = sim::choose(static_cast<u32>(next.n)); next.b[i] = static_cast<unsigned char>(c); static_cast<char *>(d[a].data())[i] = c; } break; }
            case 12: { // differs from another one in a single byte, or not at all
                what = "copying and changing a byte"; next = m[b]; sim::AllocFaults af; Datum t(d[b]);
                if (next.n && sim::flip()) { SIM_HIT(unequal); std::size_t const i = sim::choose(static_cast<u32>(next.n)); next.b[i] ^= static_cast<unsigned char>(1u << sim::choose(8)); static_cast<unsigned char *>(t.data())[i] = next.b[i]; }
                d[a] = std::move(t); break;
            }
            }
        } catch (std::bad_alloc const &) { failed = true; SIM_CHECK(sim::allocFaultsFired() > a0, "error-kind", "bad_alloc without a failed allocation"); }
        if (failed) { SIM_HIT(keptValue); checkValue(d[a], was, "an operation that failed"); }
        else { m[a] = next; checkValue(d[a], m[a], what); }
        if (b != a) checkValue(d[b], m[b], "being the source");
        for (int i = 0; i < VALS; ++i) for (int j = 0; j < VALS; ++j) {
            bool const eq = !differ(m[i], m[j]);
            SIM_CHECK((d[i] == d[j]) == eq && (d[i] != d[j]) == !eq, "wrong-comparison", "datums %s equal but == and != tell otherwise", eq ? "are" : "are not");
            if (eq && m[i].n) SIM_CHECK(d[i].hash() == d[j].hash() && hash_value(d[i]) == d[j].hash(), "wrong-hash", "equal datums hash differently");
        }
    }
}
} // namespace

extern "C" void sim_main() {
    sim::nontrivial();
    static std::size_t const sizes[] = { 0, 1, 2, 3, 100, 1000, 4096, 4999 };
    for (int f = 0; f < FILES; ++f) {
        size[f] = sizes[sim::choose(8)]; regular[f] = !sim::chance(1, 5);
        for (std::size_t i = 0; i < size[f]; ++i) content[f][i] = static_cast<char>((i * 31 + static_cast<std::size_t>(f) * 7 + (i >> 8) * 13) & 255);
        sim::kernel::addFile(names[f], content[f], size[f], regular[f]);
        if (regular[f] && size[f] && sim::chance(1, 4)) { shrinks[f] = true; shrunkTo[f] = sim::choose(static_cast<u32>(size[f])); shrinkAt[f] = sim::choose(static_cast<u32>(size[f])); sim::kernel::truncateAfter(names[f], shrinkAt[f], shrunkTo[f]); }
    }
    Threads ts;
    u32 const n = sim::choose(2), steps = 1 + sim::choose(4);
    if (n) SIM_HIT(both);
    for (u32 i = 0; i < n; ++i) ts.add([steps] { work(steps); });
    if (sim::chance(1, 3)) valuesWork(1 + sim::choose(24));
    else work(1 + sim::choose(6));
    ts.join();
    SIM_CHECK(sim::kernel::openAll() == 0, "fd-leak", "%u descriptors are still open", sim::kernel::openAll());
}
