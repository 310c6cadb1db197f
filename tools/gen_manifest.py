#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and sa/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/sa')
import props
NA = {
    'C26': 'a progress/bounded-time claim over unbounded histories with arbitrary user reactions: it depends on whether user code stops posting events and on run-time quantities; no sound static argument in reach decides it',
    'C27': 'whole-history functional correctness against a user chart: it relates every event history to a configuration, which needs an unbounded exploration of run-time states; the single-step obligations it decomposes into are decided by the other checks, their composition over histories is not',
}
NA.update(getattr(props, 'NOT_APPLICABLE', {}))
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p in props.CHECKS:
        checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py %s --thorough' % p,
                       'technique': props.TECH.get(p, 'abstract interpretation of the LLVM IR with typestate monitors'),
                       'level': 'other', 'level_note': props.NOTE.get(p, props.DEFNOTE)})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'not claimed yet: the check for it is under construction')})
m = {'version': 1, 'setup_cmd': 'python3 sa/build.py', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are static: they compile witness programs against /repo/include and analyse the IR; nothing of the library is run.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
