#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from targets import CHECKS
from notes import NOTES, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(os.path.join(VERIF, 'properties.jsonl'))]
checks = []
for p in props:
    if p in CHECKS:
        technique, level, note = NOTES[p]
        checks.append(dict(property=p, quick_cmd=f'python3 tools/check.py {p} --tier quick', thorough_cmd=f'python3 tools/check.py {p} --tier thorough',
                           technique=technique, level=level, level_note=' '.join(note.split())))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, 'check not built yet')) for p in props if p not in CHECKS]
doc = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
           notes='No hooks in /repo: everything is observed through public interfaces, the pthread interface and compiler instrumentation.')
json.dump(doc, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
