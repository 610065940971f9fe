"""Write MANIFEST.json from the properties that have a check module."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NOTE = json.load(open(os.path.join(H, 'vp', 'levels.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(H, 'vp', 'props', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd=f'/opt/venv/bin/python /verif/run_check.py {i} --tier quick',
                           thorough_cmd=f'/opt/venv/bin/python /verif/run_check.py {i} --tier thorough',
                           technique='property-based testing (Hypothesis): ' + NOTE[i]['technique'],
                           level='exploration', level_note=NOTE[i]['note'],
                           evidence_file=f'/verif/evidence/{i}.json'))
    else:
        na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python /verif/setup_check.py', checks=checks,
               not_applicable=na), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
