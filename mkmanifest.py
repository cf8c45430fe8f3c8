#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the levels in mirv/py/assumptions.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'mirv', 'py'))
import assumptions
NA = {'C19': 'The property is about which source texts the proc macro rejects at compile time (a relation between token streams and compile errors, through syn, and through rustc evaluating '
             'generated const functions). varlen_macro is compiler-side code over syn\'s recursive syntax trees, String formatting and TokenStreams; no contract within reach of a deductive verifier '
             'here expresses "the generated program is sound" for all token streams, and the existing shouldfail doctests sample it. What the macro generates for accepted inputs is verified (C01-C03, C07, C12-C14, C16).'}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    lv = assumptions.LEVELS.get(i, 'proof')
    checks.append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='python3-vt check.py %s' % i, evidence_file='evidence/%s.json' % i,
                       technique='contracts on the real functions, discharged function by function over the compiler\'s MIR (mirv: symbolic weakest preconditions, z3 and polynomial back ends)',
                       level=lv, level_note=assumptions.NOTES.get(i, assumptions.NOTE)))
m = dict(version=1, setup_cmd='bash setup.sh', hooks=dict(guard='none', enable='no hooks: the checks read the MIR the compiler produces for the unmodified crate', source_commits=[]),
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='thorough = VERIF_TIER=thorough (longer solver limits, more companion histories). See DESIGN.md.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
