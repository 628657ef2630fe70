#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the implemented checks."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H); sys.path.insert(0, V)
import check
NOTE = {
 'numeric': 'TLC validates recorded executions of the real code against the TLA+ specification (every call of every trace is a step of the specification, results within a rounding bound), and checks the specification itself exhaustively in a bounded model. Exhaustive over unit vectors for small sizes (the operators are linear), sampled over sizes, intervals and data. Trusts: IEEE arithmetic of the JVM behind module F64, the driver, gcc.',
 'history': 'TLC explores the bounded design model exhaustively and validates recorded histories of the real code against the same specification. Bounds: see evidence. Trusts: the driver/recorder, gcc, the JVM.',
}
EXTRA = json.load(open(os.path.join(H, 'notes.json'))) if os.path.exists(os.path.join(H, 'notes.json')) else {}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=[],
         notes='No hooks in /repo: the drivers use public interfaces, link-time wrapping and an instrumented build.')
for p in props:
    i = p['id']
    if i in check.CHECKS:
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py ' + i, evidence_file='evidence/%s.json' % i,
            technique='TLA+ specification checked with TLC; trace validation of recorded executions of the real code against it',
            level='model_checking', level_note=EXTRA.get(i, NOTE['history' if i in ('C19','C20','C22','C23','C24','C25','C26','C27','C28','C29') else 'numeric'])))
    else:
        m['not_applicable'].append(dict(property=i, reason='check not built yet'))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
