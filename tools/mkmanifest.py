"""Writes MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from meta import META, NOT_APPLICABLE, HOOKS
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = [{'property': p, 'quick_cmd': 'python3 tools/check.py ' + p, 'thorough_cmd': 'python3 tools/check.py ' + p + ' thorough',
           'evidence_file': 'evidence/%s.json' % p, 'technique': META[p][0], 'level': 'model_checking', 'level_note': META[p][1]} for p in props if p in META]
na = [{'property': p, 'reason': NOT_APPLICABLE.get(p, 'no check built yet')} for p in props if p not in META]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ (TLC). Every check rebuilds the harness crates of /verif against /repo and has TLC judge what was recorded; see DESIGN.md.'}
if HOOKS:
    m['hooks'] = HOOKS
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
