// Driver: runs seeds in forked children on all cores, aggregates, checks
// determinism, minimises and gates violations, replays files.
#include "rt.h"
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <iostream>
#include <sched.h>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace sim { namespace rt { void initProcess(); } }
using namespace sim;
using namespace sim::rt;

namespace {

u64 mix(u64 a, u64 b) {
    u64 z = a * 0x9e3779b97f4a7c15ull + b * 0xd1342543de82ef95ull + 0x632be59bd9b4e019ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
double wall() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9; }

template <typename T> T * shared(std::size_t n = 1) {
    void * p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(98); }
    return static_cast<T *>(p);
}

struct Tape { std::vector<std::uint16_t> t[NSTREAM]; };
Tape tapeOf(Result const & r) {
    Tape t;
    t.t[SCHED].assign(r.s, r.s + r.len[SCHED]); t.t[FAULT].assign(r.f, r.f + r.len[FAULT]); t.t[WORK].assign(r.w, r.w + r.len[WORK]);
    return t;
}
void execute(Input const & in, Result * r) {
    r->status = ST_NONE;
    fflush(stdout); fflush(stderr);
    pid_t const p = fork();
    if (p < 0) { perror("fork"); _exit(98); }
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        // Use the kernel's global futex hash: resizing a per-process one defers the
        // release of the whole address space, which piles up at thousands of runs/s.
        prctl(78 /* PR_FUTEX_HASH */, 1 /* PR_FUTEX_HASH_SET_SLOTS */, 0, 0, 0);
        runOnce(in, r); _exit(97);
    }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 42) || r->status == ST_NONE) {
        r->status = ST_ERROR;
        snprintf(r->cls, sizeof r->cls, "child-died");
        snprintf(r->msg, sizeof r->msg, "child ended unexpectedly, wait status %x", st);
    }
}
void runSeed(u64 seed, Result * r, bool trace = false) {
    Input in; memset(&in, 0, sizeof in); in.seed = seed; in.trace = trace;
    execute(in, r);
}
void runTape(Tape const & t, u64 seed, Result * r, bool trace = false) {
    Input in; memset(&in, 0, sizeof in); in.seed = seed; in.replay = true; in.trace = trace;
    for (int i = 0; i < NSTREAM; ++i) { in.len[i] = static_cast<u32>(t.t[i].size()); in.t[i] = t.t[i].data(); }
    execute(in, r);
}

// The kernel frees the stacks of ended threads after an RCU grace period and falls
// behind when runs keep every core busy: pause while it catches up.
void throttle() {
    for (int tries = 0; tries < 150; ++tries) {
        FILE * f = fopen("/proc/meminfo", "r");
        if (!f) return;
        unsigned long long total = 0, avail = 0, used = 0; char l[160];
        while (fgets(l, sizeof l, f)) {
            sscanf(l, "MemTotal: %llu", &total); sscanf(l, "MemAvailable: %llu", &avail); sscanf(l, "VmallocUsed: %llu", &used);
        }
        fclose(f);
        if ((!avail || avail > total / 3) && used < (3ull << 20) && used < total / 8 + (1u << 20)) return;
        struct timespec ts = { 0, 20000000 }; nanosleep(&ts, nullptr);
    }
}

struct Known { std::string cls, text; };
std::vector<Known> g_known;
int knownIndex(Result const & r) {
    for (std::size_t i = 0; i < g_known.size(); ++i)
        if (g_known[i].cls == r.cls && strstr(r.msg, g_known[i].text.c_str())) return static_cast<int>(i);
    return -1;
}

enum { MAXW = 64, MAXKNOWN = 32 };
u64 const HASHCAP = 6000000;
struct WorkerStat {
    u64 runs, nontrivial, steps, switches, simNs, calm, faultRuns, detChecks;
    u64 faults[NFAULT], faultyRuns[NFAULT], probes[MAXPROBE];
    u64 known[MAXKNOWN];
    u64 nhash;
    u64 violIndex, violSeed; bool viol;
    bool error; u32 nerrors; char errMsg[4096];
    u64 sampleSeeds[3]; u32 nsample;
};

std::string writeReplay(std::string const & path, Tape const & t, u64 seed, Result const & r, std::string const & extra) {
    std::ofstream o(path);
    o << "simreplay 1\nproperty " << sim_property << "\nclass " << r.cls << "\nseed " << seed << "\nhash " << r.hash << "\n";
    char const * nm[] = { "schedule", "faults", "workload" };
    for (int i = 0; i < NSTREAM; ++i) {
        o << nm[i] << ' ' << t.t[i].size();
        for (auto v : t.t[i]) o << ' ' << v;
        o << '\n';
    }
    o << "end\n" << extra;
    o << "--- violation: " << r.cls << "\n" << r.msg << "--- trace (" << r.steps << " steps)\n" << r.trace;
    return path;
}
bool readReplay(std::string const & path, Tape & t, u64 & seed, std::string & cls, u64 & hash, std::string & prop) {
    std::ifstream in(path);
    std::string l;
    if (!std::getline(in, l) || l != "simreplay 1") return false;
    while (std::getline(in, l)) {
        if (l == "end") return true;
        std::istringstream is(l);
        std::string k; is >> k;
        if (k == "property") is >> prop;
        else if (k == "class") is >> cls;
        else if (k == "seed") is >> seed;
        else if (k == "hash") is >> hash;
        else {
            int i = k == "schedule" ? 0 : k == "faults" ? 1 : k == "workload" ? 2 : -1;
            if (i < 0) continue;
            std::size_t n; is >> n;
            t.t[i].resize(n);
            for (auto & v : t.t[i]) is >> v;
        }
    }
    return false;
}

struct Minimiser {
    Tape best; u64 seed; std::string cls; Result * r; double deadline; u64 tries = 0; u64 bestSteps = ~0ull;
    bool test(Tape const & t) {
        if (wall() > deadline) return false;
        ++tries;
        runTape(t, seed, r);
        if (r->status != ST_VIOLATION || cls != r->cls) return false;
        return true;
    }
    bool accept(Tape const & t) {
        if (!test(t)) return false;
        best = t;
        // Drop what was not consumed.
        for (int i = 0; i < NSTREAM; ++i) if (best.t[i].size() > r->len[i]) best.t[i].resize(r->len[i]);
        return true;
    }
    static void strip(Tape & t) { for (auto & s : t.t) while (!s.empty() && s.back() == 0) s.pop_back(); }
    void run() {
        strip(best);
        for (int round = 0; round < 4 && wall() < deadline; ++round) {
            u64 const before = weight();
            for (int i : { 2, 1, 0 }) {
                // truncate
                for (std::size_t n = best.t[i].size(); n > 0;) {
                    std::size_t const cut = n;
                    Tape t = best;
                    if (cut > t.t[i].size()) { n = t.t[i].size(); continue; }
                    t.t[i].resize(t.t[i].size() - cut);
                    if (!accept(t)) n /= 2; else n = std::min(n, best.t[i].size());
                }
                // zero, delete chunks
                for (std::size_t c = std::max<std::size_t>(1, best.t[i].size() / 2);; c /= 2) {
                    for (std::size_t at = 0; at < best.t[i].size();) {
                        std::size_t const e = std::min(best.t[i].size(), at + c);
                        Tape t = best;
                        t.t[i].erase(t.t[i].begin() + long(at), t.t[i].begin() + long(e));
                        if (accept(t)) { if (wall() > deadline) return; continue; }
                        t = best;
                        bool nz = false;
                        for (std::size_t k = at; k < e; ++k) { nz |= t.t[i][k] != 0; t.t[i][k] = 0; }
                        if (nz) accept(t);
                        at += c;
                        if (wall() > deadline) return;
                    }
                    if (c == 1) break;
                }
                // lower values
                for (std::size_t k = 0; k < best.t[i].size(); ++k)
                    while (k < best.t[i].size() && best.t[i][k] > 1) {
                        std::uint16_t const v = best.t[i][k];
                        Tape t = best; t.t[i][k] = 1;
                        if (accept(t)) break;
                        t = best; t.t[i][k] = static_cast<std::uint16_t>(v / 2);
                        if (v / 2 > 1 && accept(t)) continue;
                        t = best; t.t[i][k] = static_cast<std::uint16_t>(v - 1);
                        if (v - 1 > v / 2 && accept(t)) continue;
                        break;
                    }
            }
            strip(best);
            if (weight() == before) break;
        }
    }
    u64 weight() const { u64 w = 0; for (auto & s : best.t) for (auto v : s) w += 1 + v; return w; }
};

std::string jsonStr(std::string const & s) {
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126) o += '?';
        else o += c;
    }
    return o + "\"";
}
char * g_argv0;

int gatedReplay(std::string const & path) { // in a fresh process
    pid_t const p = fork();
    if (p == 0) {
        int fd = ::memfd_create("out", 0); if (fd >= 0) dup2(fd, 1);
        execl("/proc/self/exe", g_argv0, "replay", path.c_str(), static_cast<char *>(nullptr));
        _exit(96);
    }
    int st; waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 95;
}

} // namespace

int main(int argc, char ** argv) {
    g_argv0 = argv[0];
    initProcess();
    std::string mode = argc > 1 ? argv[1] : "";
    auto arg = [&](char const * n, char const * d) -> std::string {
        for (int i = 2; i + 1 < argc; ++i) if (!strcmp(argv[i], n)) return argv[i + 1];
        return d;
    };
    if (mode == "replay") {
        Tape t; u64 seed = 0, hash = 0; std::string cls, prop;
        if (argc < 3 || !readReplay(argv[2], t, seed, cls, hash, prop)) { fprintf(stderr, "cannot read the replay file\n"); return 2; }
        Result * r = shared<Result>();
        runTape(t, seed, r, true);
        printf("%s\n--- status %d class %s hash %llu (recorded %s %llu)\n%s", r->trace, r->status, r->cls, (unsigned long long) r->hash, cls.c_str(), (unsigned long long) hash, r->msg);
        fflush(stdout);
        if (r->status == ST_VIOLATION && cls == r->cls && hash == r->hash) return 1;
        if (r->status == ST_VIOLATION) return 4;
        return r->status == ST_OK ? 0 : 3;
    }
    if (mode == "seed") { // one seed with trace
        Result * r = shared<Result>();
        runSeed(strtoull(argv[2], nullptr, 0), r, true);
        printf("%s--- status %d class %s steps %llu switches %llu simNs %llu hash %llu nontrivial %d calm %d\n%s", r->trace, r->status, r->cls, (unsigned long long) r->steps, (unsigned long long) r->switches,
               (unsigned long long) r->simNs, (unsigned long long) r->hash, r->nontrivial, r->calmReached, r->msg);
        return 0;
    }
    if (mode == "hashes") {
        Result * r = shared<Result>();
        u64 const S = strtoull(arg("--seed", "1").c_str(), nullptr, 0), n = strtoull(arg("--n", "100").c_str(), nullptr, 0);
        u64 const from = strtoull(arg("--from", "0").c_str(), nullptr, 0);
        for (u64 i = from; i < from + n; ++i) { runSeed(mix(S, i), r); printf("%llu %llu %d %llu\n", (unsigned long long) i, (unsigned long long) r->hash, r->status, (unsigned long long) r->steps); }
        return 0;
    }
    if (mode != "run") { fprintf(stderr, "usage: %s run|replay FILE|seed N|hashes\n", argv[0]); return 2; }

    u64 const S = strtoull(arg("--seed", "1").c_str(), nullptr, 0);
    u64 const maxRuns = strtoull(arg("--runs", "20000").c_str(), nullptr, 0);
    double const budget = atof(arg("--budget", "60").c_str());
    std::string const out = arg("--out", "/dev/stdout"), replayDir = arg("--replays", ".");
    int W = atoi(arg("--workers", "0").c_str());
    {
        std::ifstream kf(arg("--known", "/dev/null"));
        std::string l;
        while (std::getline(kf, l)) { auto t = l.find('\t'); if (t != std::string::npos) g_known.push_back({ l.substr(0, t), l.substr(t + 1) }); }
        if (g_known.size() > MAXKNOWN) return 2;
    }
    cpu_set_t cs; CPU_ZERO(&cs); sched_getaffinity(0, sizeof cs, &cs);
    std::vector<int> cpus; for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &cs)) cpus.push_back(i);
    if (W <= 0) W = static_cast<int>(cpus.size());
    if (W > MAXW) W = MAXW;
    if (W < 1) W = 1;

    double const t0 = wall();
    WorkerStat * ws = shared<WorkerStat>(static_cast<std::size_t>(W));
    Result * res = shared<Result>(static_cast<std::size_t>(W) + 1);
    u64 const hcap = HASHCAP / static_cast<u64>(W);
    u64 * hashes = shared<u64>(hcap * static_cast<u64>(W));
    u64 volatile * stopAt = shared<u64>(); *stopAt = ~0ull;
    std::vector<pid_t> pids;
    for (int w = 0; w < W; ++w) {
        pid_t const p = fork();
        if (p < 0) { perror("fork"); return 3; }
        if (p) { pids.push_back(p); continue; }
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        cpu_set_t c; CPU_ZERO(&c); CPU_SET(cpus[static_cast<std::size_t>(w) % cpus.size()], &c); sched_setaffinity(0, sizeof c, &c);
        WorkerStat & s = ws[w]; Result * r = &res[w];
        for (u64 i = static_cast<u64>(w); i < maxRuns; i += static_cast<u64>(W)) {
            if (i > *stopAt || wall() - t0 > budget) break;
            if (s.runs % 256 == 255) throttle();
            u64 const seed = mix(S, i);
            runSeed(seed, r);
            if (r->status == ST_ERROR) {
                runSeed(seed, r); // once more: a killed child is not a verdict
                if (r->status == ST_ERROR) { // no verdict; a violation elsewhere still is one
                    if (!s.error) snprintf(s.errMsg, sizeof s.errMsg, "run %llu seed %llu: %.300s: %.3000s", (unsigned long long) i, (unsigned long long) seed, r->cls, r->msg);
                    s.error = true;
                    if (++s.nerrors >= 20) break;
                    continue;
                }
            }
            ++s.runs; s.nontrivial += r->nontrivial != 0; s.steps += r->steps; s.switches += r->switches; s.simNs += r->simNs - 1000ull * 1000000000ull; s.calm += r->calmReached != 0;
            for (int k = 0; k < NFAULT; ++k) { s.faults[k] += r->faults[k]; s.faultyRuns[k] += r->faults[k] != 0; }
            for (int k = 0; k < MAXPROBE; ++k) s.probes[k] += r->probes[k];
            if (r->nontrivial && s.nhash < hcap) hashes[hcap * static_cast<u64>(w) + s.nhash++] = r->hash;
            if (r->nontrivial && s.nsample < 3) s.sampleSeeds[s.nsample++] = seed;
            u64 const h = r->hash; int const st = r->status;
            if (st == ST_VIOLATION) {
                int const k = knownIndex(*r);
                if (k >= 0) { ++s.known[k]; continue; }
                std::string const cls = r->cls;
                runSeed(seed, r);
                if (r->status != st || r->hash != h || cls != r->cls) { // only what repeats exactly is reported
                    if (!s.error) snprintf(s.errMsg, sizeof s.errMsg, "a violation did not reproduce from its seed: run %llu seed %llu class %s", (unsigned long long) i, (unsigned long long) seed, cls.c_str());
                    s.error = true;
                    if (++s.nerrors >= 20) break;
                    continue;
                }
                s.viol = true; s.violIndex = i; s.violSeed = seed;
                if (i < *stopAt) *stopAt = i;
                break;
            }
            if (i % 97 == static_cast<u64>(w) % 97 || i < 8) { // determinism: same seed, and replay of the recorded tape
                Tape const t = tapeOf(*r);
                runSeed(seed, r); u64 const h2 = r->hash;
                runTape(t, seed, r);
                ++s.detChecks;
                if (h2 != h || r->hash != h) { s.error = true; snprintf(s.errMsg, sizeof s.errMsg, "nondeterminism: run %llu seed %llu hashes %llx %llx %llx", (unsigned long long) i, (unsigned long long) seed, (unsigned long long) h, (unsigned long long) h2, (unsigned long long) r->hash); if (++s.nerrors >= 20) break; }
            }
        }
        _exit(0);
    }
    for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "a worker died\n"); return 3; } }
    double const t1 = wall();

    WorkerStat T; memset(&T, 0, sizeof T);
    std::vector<u64> hs;
    std::string err;
    u64 bestV = ~0ull, violSeed = 0;
    std::vector<u64> samples;
    for (int w = 0; w < W; ++w) {
        WorkerStat & s = ws[w];
        T.runs += s.runs; T.nontrivial += s.nontrivial; T.steps += s.steps; T.switches += s.switches; T.simNs += s.simNs; T.calm += s.calm; T.detChecks += s.detChecks;
        for (int k = 0; k < NFAULT; ++k) { T.faults[k] += s.faults[k]; T.faultyRuns[k] += s.faultyRuns[k]; }
        for (int k = 0; k < MAXPROBE; ++k) T.probes[k] += s.probes[k];
        for (int k = 0; k < MAXKNOWN; ++k) T.known[k] += s.known[k];
        hs.insert(hs.end(), hashes + hcap * static_cast<u64>(w), hashes + hcap * static_cast<u64>(w) + s.nhash);
        if (s.error && err.empty()) err = s.errMsg;
        if (s.viol && s.violIndex < bestV) { bestV = s.violIndex; violSeed = s.violSeed; }
        for (u32 k = 0; k < s.nsample && samples.size() < 3; ++k) samples.push_back(s.sampleSeeds[k]);
    }
    std::sort(hs.begin(), hs.end());
    u64 const distinct = static_cast<u64>(std::unique(hs.begin(), hs.end()) - hs.begin());

    std::string violPath, violCls, violMsg; u64 minTries = 0;
    int rc = 0;
    if (bestV != ~0ull) {
        Result * r = &res[W];
        runSeed(violSeed, r);
        std::string const cls = r->cls; u64 const h = r->hash; int const st = r->status;
        Tape const t = tapeOf(*r);
        runSeed(violSeed, r);
        bool ok = st == ST_VIOLATION && r->status == ST_VIOLATION && r->hash == h && cls == r->cls;
        if (ok) { runTape(t, violSeed, r); ok = r->status == ST_VIOLATION && r->hash == h && cls == r->cls; }
        if (!ok) { err = "a violation did not reproduce from its seed: class " + cls; rc = 3; }
        else {
            Minimiser m; m.best = t; m.seed = violSeed; m.cls = cls; m.r = r; m.deadline = wall() + atof(arg("--minimise", "40").c_str());
            m.run();
            minTries = m.tries;
            runTape(m.best, violSeed, r, true);
            char extra[300]; snprintf(extra, sizeof extra, "minimised from %llu steps to %llu steps in %llu replays; run index %llu of VERIF_SEED %llu\n",
                                      0ull, (unsigned long long) r->steps, (unsigned long long) m.tries, (unsigned long long) bestV, (unsigned long long) S);
            violPath = replayDir + "/" + sim_property + "-" + std::to_string(violSeed) + ".replay";
            violCls = r->cls; violMsg = r->msg;
            writeReplay(violPath, m.best, violSeed, *r, extra);
            int g = gatedReplay(violPath);
            if (r->status != ST_VIOLATION || g != 1) { // fall back to the run as it was found
                runTape(t, violSeed, r, true);
                violCls = r->cls; violMsg = r->msg;
                writeReplay(violPath, t, violSeed, *r, "not minimised\n");
                g = gatedReplay(violPath);
            }
            if (r->status != ST_VIOLATION || g != 1) { err = "replay of the minimised violation in a fresh process did not reproduce it (code " + std::to_string(g) + ")"; rc = 3; }
            else rc = 1;
        }
    } else if (!err.empty()) rc = 3;

    std::ostringstream o;
    o << "{\n\"runs\": " << T.runs << ",\n\"nontrivial\": " << T.nontrivial << ",\n\"distinct\": " << distinct << ",\n\"steps\": " << T.steps
      << ",\n\"switches\": " << T.switches << ",\n\"sim_ns\": " << T.simNs << ",\n\"calm_runs\": " << T.calm << ",\n\"determinism_checks\": " << T.detChecks
      << ",\n\"workers\": " << W << ",\n\"search_s\": " << (t1 - t0) << ",\n\"rc\": " << rc << ",\n\"error\": " << jsonStr(err);
    o << ",\n\"faults\": {";
    for (int k = 0; k < NFAULT; ++k) o << (k ? ", " : "") << jsonStr(faultNames[k]) << ": [" << T.faults[k] << ", " << T.faultyRuns[k] << "]";
    o << "},\n\"probes\": {";
    for (int k = 0; k < numProbes() && k < MAXPROBE; ++k) o << (k ? ", " : "") << jsonStr(probeName(k)) << ": " << T.probes[k];
    o << "},\n\"known\": [";
    for (std::size_t k = 0; k < g_known.size(); ++k) o << (k ? ", " : "") << T.known[k];
    o << "],\n\"samples\": [";
    for (std::size_t k = 0; k < samples.size() && k < 2; ++k) {
        Result * r = &res[W];
        runSeed(samples[k], r, true);
        std::string tr(r->trace, std::min<std::size_t>(r->traceLen, 2500));
        o << (k ? ", " : "") << "{\"seed\": \"" << samples[k] << "\", \"steps\": " << r->steps << ", \"switches\": " << r->switches << ", \"hash\": \"" << r->hash << "\", \"trace_head\": " << jsonStr(tr) << "}";
    }
    o << "],\n\"violation\": " << jsonStr(violPath) << ",\n\"violation_class\": " << jsonStr(violCls) << ",\n\"violation_msg\": " << jsonStr(violMsg)
      << ",\n\"violation_seed\": \"" << violSeed << "\",\n\"minimiser_replays\": " << minTries << ",\n\"wall\": " << (wall() - t0) << "\n}\n";
    std::ofstream(out) << o.str();
    return rc;
}
