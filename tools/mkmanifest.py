"""Writes MANIFEST.json from the checks present in checks/ and the notes below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, 'tools', 'notes.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    n = NOTES.get(p, {})
    if os.path.exists(os.path.join(ROOT, 'checks', p.lower() + '.py')):
        checks.append({'property': p, 'quick_cmd': f'VERIF_TIER=quick python3 check.py {p}',
                       'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {p}',
                       'technique': n.get('technique', 'TLA+ specification checked with TLC; scenarios generated by TLC are replayed into batoid and TLC validates the recorded traces'),
                       'level': 'model_checking', 'level_note': n.get('note', '')})
    else:
        na.append({'property': p, 'reason': n.get('reason', 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 setup_check.py', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks: python3 check.py <id> [quick|thorough]. No hooks in /repo are needed: the public API exposes the abstract state.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
