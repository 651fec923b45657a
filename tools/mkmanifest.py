#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, '..', 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 tools/build.py plain',
     'checks': [{'property': i, 'quick_cmd': 'python3 tools/check.py %s --tier quick' % i, 'thorough_cmd': 'python3 tools/check.py %s --tier thorough' % i,
                 'evidence_file': 'evidence/%s.json' % i, 'technique': 'deterministic simulation with fault injection: ' + PROPS[i]['how'], 'level': 'exploration',
                 'level_note': 'Seeded search over schedules, segmentation and faults of the real proxy (and client library) code on a simulated kernel; no claim beyond the executions explored. ' + PROPS[i].get('note', '')} for i in ids if i in PROPS],
     'not_applicable': [{'property': i, 'reason': NOT_APPLICABLE[i]} for i in ids if i not in PROPS],
     'notes': 'No hooks in /repo: every seam is below the C library boundary (sim/interpose.cpp), in the Qt event dispatcher (sim/dispatcher.cpp) or a Qt function defined by the simulator (QUuid::createUuid). Replay a violation with: python3 tools/check.py --replay <file>. Known and repaired defects: known-findings.json.'}
json.dump(m, open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not claimed')
