import argparse
import importlib
import json
import logging
import multiprocessing as mp
import os
import sys
import time
import traceback

HOME = os.environ.get('VERIF_HOME', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('PROJECT_DIR_FRM', '/repo')


def load(pid):
    import frm
    if not os.path.abspath(frm.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError(f'frm was imported from {frm.__file__}, not from {REPO}')
    return importlib.import_module(f'pbt.checks.{pid.lower()}')


def known_findings(pid):
    path = os.path.join(HOME, 'known_findings.json')
    with open(path) as f:
        data = json.load(f)
    return [k for k in data['findings'] if k['property'] == pid and k['status'] == 'known']


_MOD = None
QUICK_SCALE = 4.0  # the facets' quick counts were sized for about 5 s a check


def _work(args):
    from pbt.core import run_facet
    idx, seed, n, budget = args
    try:
        return run_facet(_MOD.FACETS[idx], seed, n, budget)
    except BaseException:
        return dict(name=_MOD.FACETS[idx].name, error=traceback.format_exc()[-3000:], evaluations=0, discards=0,
                    hashes=[], labels={}, samples=[], violation=None, known={}, wall_s=0.0, rule='', budget_up=False)


def main():
    global _MOD
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--facet')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    pid = a.pid
    t0 = time.time()
    logging.disable(logging.CRITICAL)
    from pbt.core import evaluate, Discard
    try:
        _MOD = load(pid)
    except Exception:
        traceback.print_exc()
        print(f'{pid}: the code under test or the check could not be imported', file=sys.stderr)
        return 2

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        fct = next(f for f in _MOD.FACETS if f.name == rep['facet'])
        try:
            _, msg = evaluate(fct, rep['case'])
        except Discard:
            msg = None
        if msg:
            print(f'{pid} {fct.name}: {msg}')
            print(f'VIOLATION property={pid} replay={a.replay}')
            return 1
        print(f'{pid} {fct.name}: held on this case')
        return 0

    if hasattr(_MOD, 'warmup'):
        _MOD.warmup()

    thorough = a.tier == 'thorough'
    jobs = []
    for i, f in enumerate(_MOD.FACETS):
        if a.facet and f.name != a.facet:
            continue
        n = f.thorough if thorough else f.quick * QUICK_SCALE
        n = max(1, int(n * a.scale))
        shards = 8 if thorough else max(f.shards, 3)
        budget = 700.0 if thorough else f.budget
        if thorough:
            # facets share the pool; keep a whole thorough run inside the time limit
            waves = max(1, -(-len(_MOD.FACETS) * shards // a.jobs))
            budget = min(budget, 780.0 / waves)
        for s in range(shards):
            seed = (a.seed * 1000003 + i * 101 + s * 7919 + sum(map(ord, f.name))) % (2 ** 31)
            jobs.append((i, seed, -(-n // shards), budget))
    # longest first
    ctx = mp.get_context('fork')
    results = []
    with ctx.Pool(min(a.jobs, len(jobs)), maxtasksperchild=None) as pool:
        for res in pool.imap_unordered(_work, jobs, chunksize=1):
            results.append(res)
    byname = {}
    for res in results:
        m = byname.setdefault(res['name'], dict(evaluations=0, discards=0, hashes=set(), labels={}, samples=[],
                                                violation=None, errors=[], known={}, wall_s=0.0, rule=res['rule'],
                                                budget_up=False))
        m['evaluations'] += res['evaluations']
        m['discards'] += res['discards']
        m['hashes'] |= set(res['hashes'])
        for k, v in res['labels'].items():
            m['labels'][k] = m['labels'].get(k, 0) + v
        for k, v in res['known'].items():
            m['known'][k] = m['known'].get(k, 0) + v
        m['samples'] = (m['samples'] + res['samples'])[:5]
        m['wall_s'] += res['wall_s']
        m['budget_up'] |= res['budget_up']
        if res.get('error'):
            m['errors'].append(res['error'])
        if res['violation'] and (m['violation'] is None or
                                 len(json.dumps(res['violation'])) < len(json.dumps(m['violation']))):
            m['violation'] = res['violation']

    errors = [(k, e) for k, m in byname.items() for e in m['errors']]
    violations = [(k, m['violation']) for k, m in byname.items() if m['violation']]

    # listed known findings: re-run their pinned input, report, never suppress anything else
    kf_out = []
    for kf in known_findings(pid):
        try:
            fct = next(f for f in _MOD.PINNED if f.name == kf['facet'])
            _, msg = evaluate(fct, kf['case'])
        except Exception as e:
            msg = f'(pinned input could not be run: {e})'
        still = 'still fails' if msg else 'no longer fails'
        kf_out.append(dict(id=kf['id'], state=still, message=msg))
        if msg:
            print(f"KNOWN-FINDING: property={pid} {kf['id']}: {kf['what']}")

    wall = time.time() - t0
    evals = sum(m['evaluations'] for m in byname.values())
    dn = sum(len(m['hashes']) for m in byname.values())
    samples = []
    for k, m in byname.items():
        for c in m['samples'][:2]:
            samples.append({'facet': k, 'case': c})
    ev = dict(property=pid, tier='thorough' if thorough else 'quick', seed=a.seed, level='exploration',
              coverage=dict(kind='property-based testing (generated inputs, explicit oracles)',
                            evaluations=evals, distinct_nontrivial=dn,
                            rule='per facet: ' + ' || '.join(f'{k}: {m["rule"]}' for k, m in sorted(byname.items())),
                            samples=samples[:40],
                            facets={k: dict(evaluations=m['evaluations'], discarded=m['discards'],
                                            distinct_nontrivial=len(m['hashes']), rule=m['rule'],
                                            labels=dict(sorted(m['labels'].items())),
                                            stopped_by_time_budget=m['budget_up'],
                                            cpu_s=round(m['wall_s'], 2),
                                            violation=m['violation']) for k, m in sorted(byname.items())},
                            known_findings=kf_out),
              violations=len(violations), wall_s=round(wall, 2))
    try:
        os.makedirs(os.path.join(HOME, 'evidence'), exist_ok=True)
        if not a.facet:
            with open(os.path.join(HOME, 'evidence', f'{pid}.json'), 'w') as f:
                json.dump(ev, f, indent=1, default=str)
    except OSError as e:
        print(f'could not write evidence: {e}', file=sys.stderr)

    for k, m in sorted(byname.items()):
        print(f'{pid} {k}: {m["evaluations"]} cases, {len(m["hashes"])} distinct non-trivial, '
              f'{m["discards"]} discarded, {m["wall_s"]:.1f}s cpu' + (' [time budget]' if m['budget_up'] else '')
              + (' VIOLATED' if m['violation'] else ''))
    if violations:
        os.makedirs(os.path.join(HOME, 'replays'), exist_ok=True)
        for k, v in violations:
            path = os.path.join(HOME, 'replays', f'{pid}_{k}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=pid, facet=k, case=v['case'], message=v['message'],
                               replay_cmd=f'./check {pid} --replay {path}'), f, indent=1)
            print(f'{pid} {k}: {v["message"]}')
            print(f'VIOLATION property={pid} replay={path}')
        return 1
    if errors:
        for k, e in errors:
            print(f'{pid} {k}: harness error\n{e}', file=sys.stderr)
        return 2
    print(f'{pid}: held on {evals} generated cases ({dn} distinct non-trivial), {wall:.1f}s')
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
