#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claims below."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
sys.dont_write_bytecode = True
from mz import claims  # noqa: E402

checks = []
for pid, technique, note in claims.CLAIMS:
    checks.append({'property': pid, 'quick_cmd': './check %s' % pid, 'thorough_cmd': './check %s thorough' % pid,
                   'technique': technique, 'level': 'model_checking', 'level_note': note})
ids = [json.loads(x)['id'] for x in open(os.path.join(ROOT, 'properties.jsonl'))]
claimed = {x['property'] for x in checks}
na = [{'property': p, 'reason': claims.NOT_APPLICABLE.get(p, claims.PENDING)} for p in ids if p not in claimed]
m = {'version': 1, 'setup_cmd': './setup', 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks compile /repo sources unchanged against stand-in headers in /verif/shim', 'source_commits': []},
     'checks': checks, 'not_applicable': na, 'notes': claims.NOTES}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claims,', len(na), 'not applicable')
