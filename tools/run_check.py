#!/usr/bin/env python3
"""run_check.py ID: builds the harness of property ID against /repo's working
tree, searches schedules and faults, writes evidence/ID.json and reports.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Else: error."""
import json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def load_known(pid):
    known = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) class=(\S+) match=<(.*?)> (.*)$', l.strip())
            if m and m.group(1) == pid:
                known.append((m.group(2), m.group(3), m.group(4)))
    return known

def symbolize(binary, text):
    pcs = sorted(set(re.findall(r'0x4[0-9a-f]{5}\b', text)))
    if not pcs:
        return ''
    try:
        out = subprocess.run(['addr2line', '-Cfpe', binary] + pcs, capture_output=True, text=True, timeout=60).stdout
    except Exception:
        return ''
    return '--- addresses\n' + ''.join('%s %s\n' % (a, b) for a, b in zip(pcs, out.splitlines()))

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    spec = json.load(open(os.path.join(V, 'checks.json')))
    chk = spec['checks'][pid]
    t0 = time.time()
    ev_path = os.path.join(V, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    b = subprocess.run([os.path.join(V, 'tools', 'build.sh'), pid], capture_output=True, text=True)
    if b.returncode != 0:
        sys.stderr.write(b.stderr[-6000:])
        print('ERROR: the harness of %s does not build against the current tree' % pid)
        return 2
    binary = b.stdout.strip().splitlines()[-1]
    known = load_known(pid)
    bd = os.path.join(V, 'build')
    kf = os.path.join(bd, pid + '.known')
    with open(kf, 'w') as f:
        for c, m, _ in known:
            f.write('%s\t%s\n' % (c, m))
    rd = os.path.join(V, 'replays')
    os.makedirs(rd, exist_ok=True)
    out = os.path.join(bd, pid + '.out.json')
    if os.path.exists(out):
        os.unlink(out)
    runs = chk['runs'] if tier == 'quick' else chk.get('thorough_runs', chk['runs'] * 40)
    budget = 150 if tier == 'quick' else 780
    print('seed %d, tier %s: up to %d simulated runs of %s' % (seed, tier, runs, pid), flush=True)
    p = subprocess.run([binary, 'run', '--seed', str(seed), '--runs', str(runs), '--budget', str(budget),
                        '--out', out, '--replays', rd, '--known', kf])
    if not os.path.exists(out):
        print('ERROR: no result from the simulator (exit %d)' % p.returncode)
        return 2
    r = json.load(open(out, errors='replace'))
    if p.returncode not in (0, 1):
        print('ERROR: ' + r['error'])
        return 2
    wall = time.time() - t0
    faults = {k: {'times_injected': v[0], 'runs_with_it': v[1]} for k, v in r['faults'].items()}
    s = max(r['search_s'], 1e-9)
    coverage = {
        'evaluations': r['runs'],
        'distinct_nontrivial': r['distinct'],
        'rule': spec['rule'] + ' ' + chk['rule'],
        'samples': r['samples'],
        'nontrivial_runs': r['nontrivial'],
        'scheduling_points': r['steps'],
        'context_switches': r['switches'],
        'simulated_seconds_covered': r['sim_ns'] / 1e9,
        'runs_per_hour': int(r['runs'] / s * 3600),
        'seeds_per_hour': int(r['runs'] / s * 3600),
        'search_wall_s': r['search_s'],
        'worker_processes': r['workers'],
        'faults_injected': {k: v for k, v in faults.items() if v['times_injected']},
        'fault_kinds_never_injected_here': [k for k, v in faults.items() if not v['times_injected']],
        'reach_probes': r['probes'],
        'reach_probes_at_zero': [k for k, v in r['probes'].items() if v == 0],
        'runs_that_needed_the_fault_free_phase': r['calm_runs'],
        'determinism_checks': {'seeds_run_twice_and_replayed_from_tape': r['determinism_checks'], 'mismatches': 0},
        'real_code': chk['real'],
        'stubs': spec['stubs'],
        'known_findings_seen': {known[i][2]: n for i, n in enumerate(r['known'])} if known else {},
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': coverage,
          'assumptions': spec['assumptions'] + chk.get('assumptions', []), 'wall_s': wall,
          'violations': 1 if p.returncode == 1 else 0}
    if p.returncode == 1:
        rp = r['violation']
        txt = open(rp, errors='replace').read()
        with open(rp, 'a') as f:
            f.write(symbolize(binary, txt[txt.find('--- violation'):]))
        ev['coverage']['violation'] = {'class': r['violation_class'], 'message': r['violation_msg'][:3000],
                                       'seed': r['violation_seed'], 'replay': rp, 'other_errors': r['error'], 'minimiser_replays': r['minimiser_replays']}
    json.dump(ev, open(ev_path, 'w'), indent=1)
    for i, (c, m, d) in enumerate(known):
        print('KNOWN-FINDING: property=%s %s (seen in %d of %d runs)' % (pid, d, r['known'][i], r['runs']))
    if p.returncode == 1:
        print('class %s, seed %s: %s' % (r['violation_class'], r['violation_seed'], r['violation_msg'].splitlines()[0] if r['violation_msg'] else ''))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('%s held: %d runs, %d distinct, %.1f simulated s, %d/h' % (pid, r['runs'], r['distinct'], r['sim_ns'] / 1e9, coverage['runs_per_hour']))
    return 0

if __name__ == '__main__':
    sys.exit(main())
