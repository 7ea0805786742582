"""Writes /verif/MANIFEST.json from the list of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'mc'))
sys.dont_write_bytecode = True
import checks
from notes import NOTES
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
out = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.exit(0)"', 'checks': [], 'not_applicable': [],
       'notes': 'No hooks in /repo: the checks build the library, the generator output and the parser as they are. See DESIGN.md.'}
for p in props:
    if p in checks.CHECKS:
        t, n = NOTES[p]
        out['checks'].append({'property': p, 'quick_cmd': f'python3 run.py {p}', 'thorough_cmd': f'VERIF_TIER=thorough python3 run.py {p}',
                              'technique': t, 'level': checks.CHECKS[p][1], 'level_note': n})
    else:
        out['not_applicable'].append({'property': p, 'reason': 'check under construction'})
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
