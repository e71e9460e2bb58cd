#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
import plans

TRUST = ' Trusted: TLC, the harness reading contents through the public interface; bounded exploration, not a proof for every history.'
TAB = ('TLA+ (IdTable.tla): TLC checks the laws of the table on every reachable state of small tables; every transition of the model is replayed '
       'into idxtable, table16/32/64 and iptable, and long seeded random histories of the real code are judged by TLC event by event (TraceTable.tla).')
TREE = ('TLA+ (PrefixTree.tla): TLC checks the laws on every reachable state of small trees; every transition of the model is replayed into '
        'tree16/32/64 (spread over the real width), and seeded random histories are judged by TLC event by event (TraceTree.tla).')
NOTE = {
    'P08': 'TLA+ (MultiTree.tla, Patricia.tla): TLC shows the index-linked radix representation refines the multimap for all short-id histories; every transition is replayed into Tree[T] for the three id types and random histories with clones are judged by TLC.',
    'I01': 'TLA+ (Bits.tla, IdAlgebra.tla): TLC checks the cover laws for every range of a small width; results of the real id packages on all ranges of small windows and on random full-width ranges are judged by TLC.',
    'I02': 'TLA+ (IdSet.tla): TLC checks the builder model over all subsets of a small space; every transition is replayed into the three builders (with a mapping of cells to real ids), random histories judged by TLC.',
    'I03': 'TLA+ (Bits.tla, IdAlgebra.tla): laws checked by TLC on every id of a small width; results of the real id packages on boundary and random ids judged by TLC.',
    'I04': 'TLA+ (IdAlgebra.tla, Bits.tla): entries, entry equality, fragment merging and immutability of ids, recorded from the real packages on boundary and random inputs and judged by TLC.',
    'X01': 'TLA+ (LinTable.tla): histories recorded from the real tables under systematically enumerated schedules are judged for linearizability by TLC against IdTable.tla.',
    'X02': 'TLA+ (LinTree.tla): histories recorded from the real trees under systematically enumerated schedules are judged for linearizability by TLC against PrefixTree.tla.',
    'X03': 'TLA+ (LinTable.tla, LinTree.tla): schedules of competing dynamic claims, judged for linearizability against the sequential specifications by TLC.',
    'X04': 'TLA+ (RWImpl.tla, LinTable.tla, LinTree.tla): TLC shows the locking design free of deadlock and that every call returns under fair scheduling; schedules are enumerated on the real code with writer-preferring locks, and a history in which a call never returns is no behaviour of the specification.',
    'X05': 'TLA+ (Race.tla, RWImpl.tla): memory accesses and lock events of enumerated schedules of the real code are recorded by a build overlay and TLC judges them against the happens-before order; the Go race detector replaces the recorder only for code that synchronises by other means than package sync.',
}
checks = []
na = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p not in plans.PLANS:
        na.append({'property': p, 'reason': 'check under construction'})
        continue
    note = NOTE.get(p) or {'T': TAB, 'P': TREE}[p[0]]
    if p in ('T09', 'T10', 'T11'):
        note = TAB + ' ' + TREE
    checks.append({'property': p, 'quick_cmd': 'bin/check %s quick' % p, 'thorough_cmd': 'bin/check %s thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p,
                   'technique': 'TLA+ specification model-checked with TLC; model transitions replayed into the code and recorded traces judged by TLC',
                   'level': 'model_checking', 'level_note': note + TRUST})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. DESIGN.md explains the approach; known_findings.txt lists the repaired and the recorded findings.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
