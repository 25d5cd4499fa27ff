#!/usr/bin/env python3
"""Regenerates MANIFEST.json from configs.py and properties.jsonl (development helper)."""
import json, sys
sys.path.insert(0, '/verif')
from configs import CHECKS
try:
    from configs import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'symbolic execution of the LLVM IR of /repo with z3 deciding branches and assertions; counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': 'Bounded: holds for every input within: %s. Outside: %s. Trusts rustc/LLVM lowering, the engine\'s semantics (validated by replaying path models natively) and z3.' % (c['bounds'], c['outside']),
        })
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check built yet')})
json.dump({
    'version': 1,
    'setup_cmd': 'bash build.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'check.py builds /verif/harness against /repo, emits LLVM IR and runs /verif/engine (twsym). See DESIGN.md.',
}, open('/verif/MANIFEST.json', 'w'), indent=1)
