#!/usr/bin/env python3
"""check.py C01 [--replay FILE]: build the property's simulation from /repo's working tree and search it.

Exit 0: held on every run.  Exit 1 with 'VIOLATION property=.. replay=..': a run broke it (reproduced twice, minimised and
replayed in a fresh process first).  Anything else is an error of the check.  VERIF_SEED and VERIF_TIER select the batch."""
import os, sys, json, subprocess, time, re
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'sim'))
import harnesses
from simbuild import BuildError

ASSUME = [
    'one simulated memory model: sequential consistency at the granularity of the instrumented accesses',
    'the compiler (gcc -fsanitize=thread instrumentation) reports every memory access of the code under test',
    'a batch samples schedules and faults; it does not enumerate them',
]


def findings(prop):
    known, p = [], os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) scenario=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3).strip()))
    return known


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    tier = os.environ.get('VERIF_TIER') or 'quick'
    hname, q, t = harnesses.PROPS[prop]
    t0 = time.time()
    try:
        exe = harnesses.build(hname)
    except BuildError as e:
        print('cannot build the simulation from %s:\n%s' % (harnesses.REPO, e))
        return 2
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        return subprocess.call([exe, '--replay', sys.argv[3]])
    build_s = time.time() - t0
    secs = float(os.environ.get('SIM_SECS') or (q if tier == 'quick' else t))
    rdir, edir = os.path.join(V, 'replays'), os.path.join(V, 'evidence')
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(edir, exist_ok=True)
    out = os.path.join(harnesses.BUILD, 'out-%s-%d.json' % (prop, os.getpid()))
    known_seen = []
    for sc, what in findings(prop):
        r = subprocess.run([exe, '--prop', sc, '--seed', '1', '--runs', '1', '--jobs', '1', '--secs', '20', '--out', out,
                            '--replaydir', rdir], stdout=subprocess.PIPE, env=dict(os.environ, SIM_MIN_SECS='0'))
        if r.returncode == 1:
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
            known_seen.append(what)
        elif r.returncode != 0:
            print('known-finding scenario %s gave no answer' % sc)
            return 2
    # one invocation = one batch of runs; an error of the simulator itself is never reported as a violation
    p = subprocess.run([exe, '--prop', prop, '--seed', str(seed), '--runs', '1000000000', '--secs', str(secs), '--jobs',
                        os.environ.get('SIM_JOBS', '8'), '--out', out, '--replaydir', rdir, '--tier', tier], stdout=subprocess.PIPE)
    sys.stdout.write(p.stdout.decode(errors='replace'))
    if not os.path.exists(out):
        return 2
    d = json.load(open(out))
    os.unlink(out)
    c = d['counters']
    wall = max(d['wall_s'], 0.001)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(time.time() - t0, 2),
        'violations': 1 if p.returncode == 1 else 0, 'assumptions': ASSUME,
        'coverage': {
            'evaluations': d['runs'], 'distinct_nontrivial': d['distinct_nontrivial'], 'rule': d['rule'], 'samples': d['samples'],
            'seeds_per_hour': int(d['runs'] * 3600 / wall), 'build_s': round(build_s, 2), 'search_s': d['wall_s'],
            'simulated_time_points': d['steps'],
            'simulated_time_unit': 'instrumented memory accesses, system calls and allocator calls executed by the code under test',
            'distinct_schedules': d['distinct_schedules'],
            'distinct_schedules_measure': 'hash of the sequence (task resumed, its local step) over a run; 1 where the run has a single task',
            'longest_run_points': d['longest'],
            'conflicting_accesses_seen': d['conflict_points'],
            'faults_injected': {k[6:]: v for k, v in sorted(c.items()) if k.startswith('fault.')},
            'operations': {k[3:]: v for k, v in sorted(c.items()) if k.startswith('op.')},
            'rare_conditions_hit': {k[6:]: v for k, v in sorted(c.items()) if k.startswith('probe.')},
            'seeds_run_twice_and_compared': d['seeds_replayed_twice'], 'replay_mismatches': d['replay_mismatches'],
            'real_code': d['real'], 'simulated': d['stub'], 'known_findings_seen': known_seen,
        },
    }
    tmp = os.path.join(edir, '.%s.%d' % (prop, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(edir, prop + '.json'))
    if p.returncode == 0:
        print('%s: %d runs, %d distinct non-trivial, %d distinct schedules, held' % (prop, d['runs'], d['distinct_nontrivial'], d['distinct_schedules']))
    return p.returncode


if __name__ == '__main__':
    sys.exit(main())
