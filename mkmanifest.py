#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered suites."""
import json, subprocess, sys, os
root = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
have = sys.argv[1:] or None
note = {
 'C12': 'For each generated history the updating cindex run is stopped (SIGKILL) or made to fail at system calls chosen over its whole trace and under resource faults; the files left are compared with the old and new index byte for byte.',
}
tech = {
 'C01': 'property-based differential testing (brute-force matcher vs trigram query)',
 'C02': 'property-based testing against a boolean-algebra model',
 'C03': 'model-based property testing with spills at generated limits',
 'C04': 'property-based testing with metamorphic read chunking',
 'C05': 'property-based testing of order laws against a component-key model',
 'C06': 'stateful model-based property testing of merge sequences',
 'C07': 'stateful model-based testing of the real commands',
 'C08': 'property-based testing with an independent decoder and encoder',
 'C09': 'property-based differential testing v1 vs v2',
 'C10': 'property-based testing with structured tampering (fault injection)',
 'C11': 'property-based truncation testing',
 'C12': 'generated histories with injected faults and kills at system calls',
 'C13': 'property-based differential testing against an NFA oracle, plus sweeps',
 'C14': 'stateful and concurrent property testing, race detector',
 'C20': 'stateful model-based testing of the real web server',
}
checks = []
for p in props:
    i = p['id']
    if have and i not in have: continue
    checks.append({
      'property': i,
      'quick_cmd': './check.sh ' + i,
      'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + i,
      'technique': tech.get(i, 'property-based testing of the real code against a reference model'),
      'level': 'fault_enumeration' if i == 'C12' else 'exploration',
      'level_note': note.get(i, 'Holds on every generated case (counts, rule and samples in the evidence file); trusts the reference model in /verif/harness and the Go toolchain. Bounds and domain: DESIGN.md.'),
    })
m = {
 'version': 1,
 'setup_cmd': './check.sh build',
 'hooks': {'guard': 'build tag verif', 'enable': "the harness is built with 'go build -tags verif' (index.VerifSetSpillLimit)",
           'source_commits': ['08a2c4554c2431ea85e77eeab66818583dc8d897']},
 'checks': checks,
 'not_applicable': [{'property': p['id'], 'reason': 'check not built yet'} for p in props if have and p['id'] not in have],
}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
