#!/opt/venv/bin/python
"""Decide one property: `run_check.py <PID> [--tier quick|thorough] [--replay FILE] [--workers N] [--only SUB]`.

Exit 0: held on everything explored. Exit 1 and a line `VIOLATION property=<id> replay=<path>`: a violation that is not a
listed known finding. Exit 2: the harness itself failed (no verdict).
"""
import argparse
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vp import env  # noqa: E402,F401


def _task(args):
    from vp import core
    return core.run_shard(*args)


def known_findings(pid):
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        kf = json.load(f)
    return [k for k in kf['findings'] if k['property'] == pid]


def replay(pid, path):
    from vp import core
    with open(path) as f:
        r = json.load(f)
    prop = core.load(pid)
    _, v = core.run_one(prop.subs[r['sub']], r['case'])
    if v is None:
        print(f'replay of {path}: property {pid} ({r["sub"]}) holds on this case')
        return 0
    print(json.dumps(dict(what=v.what, detail=core.to_json(v.detail)), indent=1))
    print(f'VIOLATION property={pid} replay={path}')
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.)
    ap.add_argument('--out', default=None)
    a = ap.parse_args()
    pid = a.pid.upper()
    if a.replay:
        return replay(pid, a.replay)

    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    from vp import core
    prop = core.load(pid)
    budget, cap = (300., 780.) if a.tier == 'quick' else (5400., 7200.)
    tasks = []
    for sub in prop.subs.values():
        if a.only and sub.name not in a.only.split(','):
            continue
        n = max(1, int((sub.quick if a.tier == 'quick' else sub.thorough) * a.scale))
        shards = min(sub.shards if a.tier == 'quick' else max(sub.shards, 4), n)
        for s in range(shards):
            tasks.append((pid, sub.name, a.tier, s, n // shards + (1 if s < n % shards else 0), seed, budget))
    # long shards first, so that the pool drains evenly
    tasks.sort(key=lambda t: (t[3], -t[4]))
    results, errors = [], []
    ctx = mp.get_context('spawn')
    ex = cf.ProcessPoolExecutor(max_workers=min(a.workers, len(tasks)), mp_context=ctx)
    futs = [ex.submit(_task, t) for t in tasks]
    timed_out = False
    try:
        for f in cf.as_completed(futs, timeout=cap):
            r = f.result()
            results.append(r)
            if r['error']:
                errors.append(r)
            if r['failure'] is not None and r['failure']['reproduced']:
                break
    except cf.TimeoutError:
        timed_out = True
    except cf.process.BrokenProcessPool as e:
        print(f'harness error: worker died: {e}', file=sys.stderr)
        return 2
    if all(f.done() for f in futs):
        ex.shutdown(wait=True)
    else:
        for f in futs:
            f.cancel()
        for p in list((ex._processes or {}).values()):
            p.kill()
        ex.shutdown(wait=False, cancel_futures=True)

    # known findings: replay each listed history; they are printed, never searched for
    kf_lines = []
    for k in known_findings(pid):
        if a.only and k['sub'] not in a.only.split(','):
            continue
        _, v = core.run_one(prop.subs[k['sub']], k['case'])
        if v is not None:
            kf_lines.append(f'KNOWN-FINDING: property={pid} {k["what"]}')
    for line in kf_lines:
        print(line)

    failures = [r for r in results if r['failure'] is not None and r['failure']['reproduced']]
    flaky = [r for r in results if r['failure'] is not None and not r['failure']['reproduced']]
    nontriv = {(r['sub'], k) for r in results for k in r['nontrivial']}
    per_sub = {}
    for r in results:
        d = per_sub.setdefault(r['sub'], dict(evaluations=0, distinct_nontrivial=0, inconclusive=0, not_run_budget=0,
                                              wall_s=0., classes={}))
        d['evaluations'] += r['evaluations']
        d['inconclusive'] += r['inconclusive']
        d['not_run_budget'] += r['skipped_budget']
        d['wall_s'] = round(d['wall_s'] + r['wall'], 2)
        for k, v in r['labels'].items():
            d['classes'][k] = d['classes'].get(k, 0) + v
    for s in per_sub:
        per_sub[s]['distinct_nontrivial'] = len({k for (n, k) in nontriv if n == s})
    samples = []
    for r in sorted(results, key=lambda r: (r['shard'], r['sub'])):
        for s in r['samples'][:1]:
            if len(samples) < 12 and r['shard'] == 0:
                samples.append(dict(sub=r['sub'], case=s))
    ev = dict(property=pid, tier=a.tier, seed=seed, level='exploration',
              coverage=dict(evaluations=sum(r['evaluations'] for r in results),
                            distinct_nontrivial=len(nontriv), rule=prop.rule, samples=samples,
                            calls_into_code_under_test=sum(r['calls'] for r in results),
                            inconclusive=sum(r['inconclusive'] for r in results),
                            not_run_budget=sum(r['skipped_budget'] for r in results),
                            timed_out=timed_out, sub_checks=per_sub),
              wall_s=round(time.time() - t0, 2), violations=len(failures),
              assumptions=prop.assumptions)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not a.only:
        with open(a.out or os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    c = ev['coverage']
    print(f'{pid} tier={a.tier} seed={seed}: {c["evaluations"]} cases, {c["distinct_nontrivial"]} distinct non-trivial, '
          f'{c["inconclusive"]} inconclusive, {c["not_run_budget"]} not run, {ev["wall_s"]} s')
    for s, d in per_sub.items():
        print(f'  {s}: {d["evaluations"]} cases, {d["distinct_nontrivial"]} non-trivial, {d["inconclusive"]} '
              f'inconclusive, {d["wall_s"]} cpu s')
    if failures:
        rdir = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for r in failures:
            path = os.path.join(rdir, f'{pid}_{r["sub"]}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=pid, sub=r['sub'], seed=seed, **r['failure']), f, indent=1)
            print(json.dumps(dict(sub=r['sub'], **r['failure']), indent=1)[:4000])
            print(f'VIOLATION property={pid} replay={path}')
        return 1
    if errors or flaky:
        for r in errors[:3]:
            print(f'harness error in {r["sub"]} (shard {r["shard"]}):\n{r["error"]}', file=sys.stderr)
        for r in flaky[:3]:
            print(f'harness error: unreproducible failure in {r["sub"]}: {r["failure"]}', file=sys.stderr)
        return 2
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
