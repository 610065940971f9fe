"""Build /verif/seeded/<id>/ from the table in seed_table.py (text replacement in a scratch copy of /repo)."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import seed_table
import seed_table2
import seed_table3
import seed_table4
import seed_table5
PRE = seed_table.PRE
SEEDS = [s for s in seed_table.SEEDS if s['id'] not in seed_table.DROP]
ROOT = os.path.dirname(HERE)
SCR = '/tmp/seed_scratch'
shutil.rmtree('/tmp/seed_scratch', ignore_errors=True)
subprocess.check_call(["git", "clone", "-q", os.environ.get("REPO_SRC", "/repo"), SCR])
want = set(sys.argv[1:])
for s in SEEDS:
    if want and s['id'] not in want:
        continue
    subprocess.check_call(['git', '-C', SCR, 'checkout', '-q', '--', '.'])
    for f, old, new in s['edits']:
        p = os.path.join(SCR, f)
        t = open(p).read()
        assert t.count(old) >= 1, (s['id'], f, old)
        n = s.get('nth', {}).get(f)
        if n is None:
            assert t.count(old) == 1, (s['id'], f, t.count(old))
            t = t.replace(old, new)
        else:
            parts = t.split(old)
            t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        open(p, 'w').write(t)
    diff = subprocess.check_output(['git', '-C', SCR, 'diff']).decode()
    d = os.path.join(ROOT, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(PRE + s['demo'].strip() + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1\n'
                                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    print('made', s['id'])
shutil.rmtree('/tmp/seed_scratch', ignore_errors=True)
