#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry in harness/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
import checks
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='./setup', checks=[], not_applicable=[],
    notes='All checks: property-based testing with recorded choice sequences (own engine, harness/pbt.hpp and harness/pbt.py), forked workers, shrinking, replay: ./check <ID> --replay <file>.')
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd='./check %s --tier quick' % i, thorough_cmd='./check %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i, technique=c.get('technique', 'property-based testing: generated inputs against a reference model'), level='exploration',
            level_note=c.get('note', 'No counterexample among the generated cases; trusts the oracle in harness/%s.* and the stated floating-point tolerances. Establishes presence, never absence, of violations.' % i)))
    else:
        m['not_applicable'].append(dict(property=i, reason=checks.NA.get(i, 'no check built yet')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not claimed')
