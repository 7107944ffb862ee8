#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); sys.path.insert(0, HERE)
from props import PROPS
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl') if l.strip()]
T = 'The translator is a C#/.NET program (Roslyn based) and the sandbox has no .NET SDK or runtime: its code can neither be compiled nor executed here, so no exploration of it can run and a model of it could not be bound to it by replay'
NA = {'T01': T, 'T02': T}
checks = [{'property': p, 'quick_cmd': f'python3 mc/check.py {p} quick', 'thorough_cmd': f'python3 mc/check.py {p} thorough',
  'technique': PROPS[p].get('technique', 'stateless model checking: exhaustive bounded enumeration of operation histories and inputs on the real code, each execution compared with a reference model'),
  'level': 'model_checking',
  'level_note': PROPS[p].get('note', 'Every combination of choices within the bounds named per suite is executed on the library built from the working tree (AddressSanitizer, redzoned heap) and compared step by step with an independent reference model; nothing is claimed outside those bounds. Trusts the compiler, libc/libm and the reference model.')} for p in ids if p in PROPS]
m = {'version': 1, 'setup_cmd': 'python3 mc/setup.py', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': NA.get(p, 'No check has been built for this property yet')} for p in ids if p not in PROPS],
     'notes': 'No hooks in /repo: the seams used are the C++ virtual interfaces the library already offers, malloc and the clock functions (wrapped at link time).'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
