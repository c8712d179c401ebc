#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the check modules present (TECH, NOTE in each)."""
import importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
NA = {}
checks, na = [], []
for l in open(os.path.join(here, '..', 'properties.jsonl')):
    d = json.loads(l); i = d['id']
    if os.path.exists(os.path.join(here, 'checks', i.lower() + '.py')):
        m = importlib.import_module('checks.' + i.lower())
        c = 'python3 analysis/run.py ' + i
        checks.append({'property': i, 'quick_cmd': c, 'thorough_cmd': c, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': m.TECH, 'level': 'other', 'level_note': m.NOTE})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no static check has been built for this property yet')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks are static analyses of the C++ syntax trees and control-flow graphs of /repo; see DESIGN.md.'},
          open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1)
