#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
from props import PROPS
import bounds
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for i in ids:
    if i in PROPS:
        b = '; '.join(bounds.B[e['name']] for e in PROPS[i] if e['quick'])
        checks.append(dict(
            property=i,
            quick_cmd='python3 check.py %s --tier quick' % i,
            thorough_cmd='python3 check.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique='symbolic execution of the compiled code (LLVM IR of chanoma, its dependencies and std) with Z3',
            level='model_checking',
            level_note=('Holds for every input within these bounds: ' + b)[:1500] +
            ('. pyo3 and Python are replaced by a stand-in' if i == 'P24' else '') + '. Trusts rustc, the engine in engine/ and Z3; counterexamples and sample paths are replayed natively.',
        ))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'Not claimed yet.')))
m = dict(version=1, setup_cmd='python3 lib/build.py', hooks=dict(guard='none', enable='no hooks are needed: the checks build /repo as it is', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='check.py builds harness + /repo to one LLVM module, runs engine/ (sxe) on the entries of the property (lib/props.py), replays counterexamples natively.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
