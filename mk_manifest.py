#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (kept as a script so that both stay in step)."""
import json
T = {
 'C24': 'fault injection: every output-fault position of generated sessions, exact history oracle',
 'C25': 'fault injection: generated sessions cut at every byte and read error, exact history oracle',
 'C39': 'fault injection: generated sessions dropped at every suspension point, exact history oracle',
 'C33': 'fault injection: crash points of generated queue histories with restart, model-based oracle',
}
def tech(i):
    n = int(i[1:])
    if i in T: return T[i]
    if n <= 5: return 'property-based testing: exhaustive small-scope + random generation against a reference codec; shrinking'
    if n <= 14: return 'property-based testing: grammar-directed, mutational and small-scope exhaustive generation against a reference parser; shrinking'
    if n <= 17: return 'property-based testing: random and exhaustive generation against a reference; fault injection for C17; shrinking'
    if n <= 27: return 'stateful model-based testing: generated sessions, chunkings and schedules against a reference SMTP server model; shrinking'
    if n <= 30: return 'model-based testing: generated operation sequences against a plain byte/list model; shrinking'
    if n == 36: return 'end-to-end round trip: generated mails through client pieces, in-memory pipe with back-pressure, server and queue, compared with what was sent; shrinking'
    if n == 37: return 'metamorphic testing: generated interleavings of sessions, each compared with the same session run alone; shrinking'
    if n == 38: return 'invariant over generated histories: bytes received against bytes passed on at every suspension; shrinking'
    if n == 40: return 'property-based testing: exhaustive small-scope and random pairs of addresses, compared by the library and by a reference grammar; shrinking'
    if n == 41: return 'metamorphic testing: processor time of generated inputs against that of the same at an eighth of the size; shrinking'
    return 'stateful model-based testing: generated queue histories on virtual time against an instrumented storage/transport; shrinking'
NOTE = {
 'C41': 'A scaling relation on measured processor time (repeated before it counts); growth that shows only beyond the sizes reached is not seen.',
 'C39': 'Every suspension point of each generated session is enumerated; the sessions themselves are sampled.',
 'C33': 'Crash points are the storage/transport operations of each generated history; the histories themselves are sampled.',
 'C24': 'Output faults are enumerated per generated session; the sessions themselves are sampled.',
 'C25': 'Cut points are enumerated per generated session; the sessions themselves are sampled.',
}
checks = []
for l in open('properties.jsonl'):
    p = json.loads(l)['id']
    checks.append({
        'property': p,
        'quick_cmd': f'./check.sh {p} quick',
        'thorough_cmd': f'./check.sh {p} thorough',
        'evidence_file': f'evidence/{p}.json',
        'technique': tech(p),
        'level': 'fault_enumeration' if p in T else 'exploration',
        'level_note': NOTE.get(p, 'Generated-input search: finite scopes named exhaustive_small_scope in the evidence are enumerated completely, everything else is sampled.'),
    })
json.dump({'version': 1, 'setup_cmd': './check.sh build', 'checks': checks, 'not_applicable': []}, open('MANIFEST.json', 'w'), indent=1)
