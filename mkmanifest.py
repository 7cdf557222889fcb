#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the harness folders and properties.jsonl."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
NA = {}
checks, na = [], []
for l in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(l)
    pid = p['id']
    if os.path.isdir(os.path.join(here, 'harness', pid.lower())) and pid not in NA:
        checks.append({
            'property': pid,
            'quick_cmd': f'bash check.sh {pid} quick',
            'thorough_cmd': f'bash check.sh {pid} thorough',
            'technique': 'symbolic execution of the real Go code (go/ssa) with z3 deciding every branch and assertion, counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': 'bounded: holds for all inputs within the bounds each harness states (evidence lists them, and marks harnesses cut by time or encoding as not exhaustive); trusts go/ssa, the executor\'s models of library functions (cross-checked by native replay of path models) and z3',
        })
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'no check has been built for this property yet')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'hooks': {'guard': 'none', 'enable': 'no hooks are compiled into /repo; harness packages are injected with a build overlay', 'source_commits': []},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
