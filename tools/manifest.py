"""Source of /verif/MANIFEST.json: `python3 tools/manifest.py` rewrites it from the plan."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from vf.plan import PLAN, NOTES
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, '..', 'properties.jsonl'))]
checks, na = [], []
for p in ids:
    if p in PLAN:
        tech, note = NOTES[p]
        checks.append(dict(property=p, quick_cmd=f'python3 check.py {p} quick', thorough_cmd=f'python3 check.py {p} thorough',
                           technique=tech, level='model_checking', level_note=note))
    else:
        na.append(dict(property=p, reason='not built yet'))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='TLA+ specifications in spec/, checked with TLC; drivers/ run the real code; see DESIGN.md.')
json.dump(m, open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')
