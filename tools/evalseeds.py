"""evalseeds.py confirm|detect [ids...]
confirm: in a scratch copy per bug: patch applies, modules import, stable tests pass, demo 0 on clean / nonzero patched.
detect:  apply to /repo, run the property's quick check (and any extra ids given in EXTRA), undo."""
import json, os, shutil, subprocess, sys, xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = ROOT + '/seeded'
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, JAX_PLATFORMS='cpu', XLA_FLAGS='--xla_cpu_multi_thread_eigen=false', OPENBLAS_NUM_THREADS='1',
           OMP_NUM_THREADS='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', HOME='/root')
STABLE = json.load(open('/opt/vp/BASELINE.json'))


def stable_names():
    b = STABLE
    for k in ('stable', 'passed', 'tests', 'stable_pass'):
        if k in b:
            v = b[k]
            return set(v if isinstance(v, list) else v.keys())
    raise SystemExit('baseline keys %s' % list(b))


def run_tests(copy):
    rep = copy + '.rep'
    os.makedirs(rep, exist_ok=True)
    subprocess.run(['bash', '-c', f'''cd {copy} && export PYTHONPATH={copy} rep={rep}
one() {{ n=$(echo "${{1%.py}}" | tr / .); {PY} -m pytest "$1" --rootdir={copy} -q -p no:cacheprovider --timeout=600 -o junit_family=xunit2 --junitxml=$rep/$n.xml >/dev/null 2>&1; }}
export -f one
{{ ls tests/test_filtering.py tests/test_multi_dim_moments.py; find tests -name 'test_*.py' ! -path tests/test_filtering.py ! -path tests/test_multi_dim_moments.py | sort; }} | xargs -P 8 -I@ bash -c 'one "$1"' _ @'''], env=ENV)
    bad = set()
    ok = set()
    for f in os.listdir(rep):
        for tc in ET.parse(os.path.join(rep, f)).iter('testcase'):
            n = tc.get('classname') + '::' + tc.get('name')
            (bad if any(c.tag in ('failure', 'error') for c in tc) else ok).add(n)
    shutil.rmtree(rep)
    return ok, bad


def confirm(i):
    copy = '/tmp/seedc_' + i
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.check_call(['cp', '-a', os.environ.get('REPO_SRC', '/repo'), copy])
    try:
        r0 = subprocess.run(['bash', f'{SEED}/{i}/demo.sh'], cwd=copy, env=ENV, capture_output=True, timeout=300)
        a = subprocess.run(['git', '-C', copy, 'apply', f'{SEED}/{i}/patch.diff'], capture_output=True)
        r1 = subprocess.run(['bash', f'{SEED}/{i}/demo.sh'], cwd=copy, env=ENV, capture_output=True, timeout=300)
        ok, bad = run_tests(copy) if mode == 'confirm' else (STAB, set())
        miss = sorted(n for n in STAB if n not in ok)
        good = r0.returncode == 0 and a.returncode == 0 and r1.returncode != 0 and not miss
        print(i, 'OK' if good else 'BAD', 'demo', r0.returncode, r1.returncode, 'apply', a.returncode,
              'stable failing', miss[:4], len(miss), flush=True)
        if r0.returncode:
            print(r0.stderr.decode()[-800:])
        if not good and r1.returncode == 0:
            print(r1.stdout.decode()[-500:])
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def detect(i):
    """Against a scratch copy (VP_REPO), so that it can run next to other work; the registered checks use /repo."""
    meta = json.load(open(f'{SEED}/{i}/meta.json'))
    props = EXTRA or [meta['property']]
    copy = '/tmp/seedd_' + i
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.check_call(['cp', '-a', os.environ.get('REPO_SRC', '/repo'), copy])
    try:
        subprocess.check_call(['git', '-C', copy, 'apply', f'{SEED}/{i}/patch.diff'])
        for p in props:
            r = subprocess.run([PY, 'run_check.py', p, '--tier', 'quick', '--out', copy + '.ev.json'], cwd=ROOT, capture_output=True,
                               env=dict(os.environ, VP_REPO=copy, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick'))
            out = r.stdout.decode()
            v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
            why = [l for l in out.splitlines() if 'replay' not in l][-1:] if not v else []
            print(i, p, 'rc', r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED', *v[:2], *why, flush=True)
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        if os.path.exists(copy + '.ev.json'):
            os.remove(copy + '.ev.json')


mode = sys.argv[1]
ids = [a for a in sys.argv[2:] if not a.startswith('+')] or sorted(os.listdir(SEED))
EXTRA = [a[1:] for a in sys.argv[2:] if a.startswith('+')]
if mode in ('confirm', 'demo'):
    STAB = stable_names()
    with ThreadPoolExecutor(1 if mode == 'confirm' else 4) as ex:
        list(ex.map(confirm, ids))
else:
    for i in ids:
        detect(i)
