"""Writes MANIFEST.json from properties.jsonl and the contract registry (levels)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
np_ = os.path.join(HERE, 'tools', 'levels.json')
if os.path.exists(np_):
    NOTES = json.load(open(np_))
checks = []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    pid = json.loads(l)['id']
    n = NOTES.get(pid, {})
    checks.append({
        'property': pid,
        'quick_cmd': 'python3-vt check.py %s' % pid,
        'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': n.get('technique', 'run-time contract checking on the real code (bounded stand-in)'),
        'level': n.get('level', 'exploration'),
        'level_note': n.get('note', 'Bounded stand-in: the contract is evaluated on generated inputs against independent oracles.'),
    })
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks in /repo. Repairs of /repo are listed in known_findings.txt.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
