#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules that exist and the notes below."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'H01': 'deterministic simulation: seeded experiment histories with environment faults, refinement against an executable reference ensemble',
    'H02': 'deterministic simulation: step-by-step execution of seeded histories with faults, conservation invariants after every step',
    'H03': 'deterministic simulation: twin execution (forked history-free process against the same probe after a seeded fault-laden history)',
    'H04': 'deterministic simulation: seeded histories of evaluations, failures and in-place changes with ownership invariants after every action',
    'H05': 'deterministic simulation: seeded operation histories on families of copies, isolation invariant after every operation',
    'H06': 'deterministic simulation: seeded measurement histories with environment faults, append-only and product checks over the recorded history',
    'H07': 'deterministic simulation: crash at arbitrary instants, torn and lost checkpoint writes on a simulated disk, restart in a new process',
    'H08': 'deterministic simulation: seeded scheduler interleaves local programs of several parties, histories compared across schedules and with a model',
    'H09': 'deterministic simulation: seeded schedules of the remote party, local statistics compared across all of them',
    'H10': 'deterministic simulation: seeded histories of building, sharing, failing and running combinations, refinement against running the members in turn',
    'H11': 'deterministic simulation with fault injection: interrupts at arbitrary library lines, allocation failures, failing user functions; atomicity and retry checks',
    'H12': 'deterministic simulation: adversarial and re-seeded random streams, state accounting against a reference collection',
    'H13': 'deterministic simulation: simulated workers with lost, duplicated, delayed and reordered shards and crashes, merged result against the whole',
    'H14': 'deterministic simulation: real threads under a seeded baton scheduler switching at library lines, plus re-entrant user functions',
    'H15': 'deterministic simulation: seeded delay and gate histories in simulated time, statistics against a distinguishable-photon model',
    'H16': 'deterministic simulation: seeded histories of collection surgery with failing operations, refinement against a reference ensemble',
    'H17': 'deterministic simulation: seeded histories of looks with display and output failures, before/after and repeat checks',
    'H18': 'deterministic simulation: one seeded history executed under many representation settings, histories compared',
    'H19': 'deterministic simulation: seeded feed-forward histories, each branch replayed with fixed elements, call log of user functions checked',
    'H20': 'deterministic simulation: seeded interleavings of local rotations on several boxes, joint statistics against the analytic correlation',
}
NOTE = ('Sampled, seeded simulation of the real library: evidence for the explored schedules, faults and histories, not a proof. Trusts the harness under '
        '/verif/sim (reference model, comparison tolerances listed in the evidence), numpy and the Python runtime.')
NA = {
    'N01': 'pure function of one parameter set: no history, schedule, clock, fault or randomness in it (its effect inside histories is covered by H01)',
    'N02': 'pure translation between names, values and indices of one basis: nothing nondeterministic to simulate (its history dependence is H03)',
    'N03': 'numerical accuracy of a pure function of one Hamiltonian; no fault or schedule can influence it',
    'N04': 'pixel content of a drawing is a pure function of the circuit; that looking has no side effects is H17',
    'N05': 'pure factoring of one amplitude table; its use in histories is covered by H20',
}
PENDING = 'check not built yet; planned as described in DESIGN.md'


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
    sys.path.insert(0, V)
    checks, na = [], []
    for i in ids:
        if i in NA:
            na.append({'property': i, 'reason': NA[i]})
        elif os.path.exists(os.path.join(V, 'sim', 'props', i + '.py')) and i not in sys.argv[1:]:
            src = open(os.path.join(V, 'sim', 'props', i + '.py')).read()
            level = src.split("LEVEL = '")[1].split("'")[0]
            checks.append({'property': i, 'quick_cmd': 'python3 run.py check %s --tier quick' % i, 'thorough_cmd': 'python3 run.py check %s --tier thorough' % i,
                           'technique': TECH[i], 'level': level, 'level_note': NOTE})
        else:
            na.append({'property': i, 'reason': PENDING})
    doc = {'version': 1, 'setup_cmd': 'python3 run.py setup',
           'hooks': {'guard': 'FSC_VERIF', 'enable': 'no hooks were needed: every seam is reached from outside (module attributes, sys.monitoring, user functions), '
                     'the variable is reserved and unused', 'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. Replay a violation with: python3 run.py replay <file>.  Determinism self-test: python3 run.py selftest.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks', len(na), 'not applicable')


main()
