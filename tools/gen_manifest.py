#!/usr/bin/env python3
"""Writes checks.json and MANIFEST.json from the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULE = ("Each evaluation is one simulated execution of the real headers in one process under one seed: the seed draws the "
        "workload, every scheduling decision and every fault. A run is non-trivial when it drove the code under test to the end of its "
        "workload; runs count as distinct by the hash of their complete event trace (synchronisation events, their order, faults, outcomes).")
STUBS = ["pthread mutexes, condition variables, threads and thread-local storage destruction (simulated scheduler, weak-memory atomics)",
         "clocks and sleeps (simulated time)", "malloc/operator new (simulated heap with lifetime tracking)",
         "system calls on descriptors (simulated kernel: files, pipes, epoll)",
         "headers of SharemindCHeaders that are not installed here (AlignToCacheLine, DebugOnly, endian, preprocessor, compiler-support): /verif/shims"]
ASSUME = ["a clean batch of sampled executions is evidence, not proof", "gcc 13's instrumentation (-fsanitize=thread) reports every memory access and atomic of the headers under test",
          "executions explored are those of x86-64 code at -O1 plus the stale reads the simulator's C++11 memory model allows"]
CHECKS = {}
def check(pid, runs, rule, real, note, assumptions=(), thorough=None):
    CHECKS[pid] = {"runs": runs, "rule": rule, "real": real, "note": note, "assumptions": list(assumptions)}
    if thorough: CHECKS[pid]["thorough_runs"] = thorough
NA = {
 "C34": "Compile-time computation: no execution to simulate.",
}
exec(open(os.path.join(V, 'tools', 'checks_table.py')).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, 'properties.jsonl'))]
json.dump({"rule": RULE, "stubs": STUBS, "assumptions": ASSUME, "checks": CHECKS}, open(os.path.join(V, 'checks.json'), 'w'), indent=1)
m = {"version": 1, "setup_cmd": "tools/setup.sh",
     "checks": [{"property": p, "quick_cmd": "VERIF_TIER=quick python3 tools/run_check.py " + p,
                 "thorough_cmd": "VERIF_TIER=thorough python3 tools/run_check.py " + p,
                 "evidence_file": "evidence/%s.json" % p,
                 "technique": "deterministic simulation with fault injection: seeded search over schedules and faults, " + CHECKS[p]["rule"].split('.')[0].lower()[:140],
                 "level": "exploration", "level_note": CHECKS[p]["note"]} for p in props if p in CHECKS],
     "not_applicable": [{"property": p, "reason": NA.get(p, "No check has been built yet.")} for p in props if p not in CHECKS],
     "notes": "No hooks in /repo: the simulator takes over below the headers (pthread, clock, allocator, system call and compiler-instrumentation interfaces). /repo commits are fixes only; known-findings.txt lists them."}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
for p in props:
    if p not in CHECKS and p not in NA: print('unclaimed', p)
