#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'deterministic simulation with seeded %s, checked against an executable reference model'
CHECKS = {
 'C01': ('histories of edits, reads and garbage collections', 'Seeded search over programs on graphs of about 80 operation kinds with the time of collection and set order under the simulator; every read compared with a model that caches nothing.'),
 'C03': ('failures inside computations', 'Failure of the n-th call of any user-defined method or NumPy/SciPy routine during a read; afterwards every read compared with the model as if nothing had been attempted.'),
 'C04': ('rejected edits', 'Invalid edits of about 20 forms among valid ones; settings are read back and all reads compared with the model at those settings.'),
 'C05': ('interrupts delivered at any line', 'KeyboardInterrupt or MemoryError raised at a seeded line or call of the library; settings are read back (old or new) and all reads compared with the model.'),
 'C06': ('linear-solver answers and objective anomalies', 'Invariants at every progress callback and at return of dogleg minimizations with wrong and non-finite solver answers and non-finite trial evaluations.'),
 'C07': ('linear-solver failures and objective anomalies', 'Bounded evaluations under any sequence of disturbances, and arrival at the minimum of well-conditioned problems once they stop.'),
 'C08': ('aborts at any call out of the minimizer', 'An exception from the n-th objective call, callback, solver call or progress write; afterwards values, derivatives and a further minimization compared with the model and with a second simulated process that never saw an abort.'),
 'C09': ('sequences of solver requests', 'A simulated solver asks for objective, gradient, Hessian and products in any order, reusing and overwriting its arrays; every answer (also those given to the real scipy solvers) compared with the model at the point asked about.'),
 'C14': ('histories of substitutions, merges, edits and garbage collections', 'Programs as for C01 with many substitutions and merges on shared graphs, compared with the restructured model.'),
 'C02': ('histories of edits, derivative reads and garbage collections', 'Same programs; forward, reverse and left-product derivatives compared with densely chained model derivatives.'),
 'C10': ('histories of copies, saves, write failures, truncations and crashes', 'Several universes (original, copies, graphs loaded from a simulated disk after a crash) edited and read independently, each compared with its own model.'),
 'C11': ('interleavings of threads at every library line', 'A seeded scheduler switches real threads between any two lines of library code; every read in every thread compared with its own model, and results with a run of each thread alone.'),
 'C12': ('clocks, diagnostic settings, output failures and set orders', 'The same program run under an ordinary and a seeded environment (clock, DEBUG, profiling, verbose output, failing streams, shuffled sets); results compared with each other and with the model.'),
 'C13': ('histories of seeding, draws, state restores and other operations', 'The global generator is watched around every step and every draw compared with NumPy drawing from the same state.'),
 'C15': ('histories of changes, reads and failing notifications', 'User-defined nodes log every notification and computation; the log is checked against the model of what changed since.'),
 'C16': ('histories with discarding and collection at any moment', 'The simulator owns the time of collection; after each one whatever is not reachable from the held expressions must be gone, and the rest is compared with the model.'),
}
NA = {
 'C17': 'A pure function of one input: no schedule, clock, fault, history or second party for a simulator to control; this is plain input testing.',
 'C18': 'A convention about one mathematical point at a time; nothing about it depends on schedule, time, I/O, faults or history.',
}
ALL = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
for p in ALL:
    if p not in CHECKS and p not in NA:
        NA[p] = 'Check not built yet.'
m = {'version': 1, 'setup_cmd': './check.py setup', 'checks': [], 'not_applicable': []}
for p in ALL:
    if p in CHECKS:
        t, note = CHECKS[p]
        m['checks'].append({'property': p, 'quick_cmd': './check.py %s' % p, 'thorough_cmd': './check.py %s thorough' % p,
                            'evidence_file': 'evidence/%s.json' % p, 'technique': T % t, 'level': 'exploration', 'level_note': note})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA[p]})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
