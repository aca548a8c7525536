import os
import sys
import json
import time
import argparse
import importlib
import multiprocessing as mp
import multiprocessing.connection
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VX_EVIDENCE', os.path.join(HERE, 'evidence'))


def worker(m, case, conn, seed, prop):
    """one case per process: every case starts from a process in which nothing was built yet"""
    import torch
    torch.set_num_threads(1)
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    except OSError:
        pass
    name = case[0]
    try:
        r = run_one(m, case, seed, prop)
    except Exception as e:       # an error of the machinery, never a verdict
        r = dict(case=name, verdict='error', detail=f'{type(e).__name__}: {e}', trace=traceback.format_exc()[-3000:])
    conn.send(r)
    conn.close()
    os._exit(0)


def run_one(m, case, seed, prop):
    kind = case[2] if len(case) > 2 else 'tensor'
    if kind == 'tensor':
        from . import harness
        return harness.run_case(case[0], case[1], seed, prop=prop)
    if kind == 'custom':
        return case[1](case[0], seed)
    raise ValueError(kind)


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--case', default=None)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--replay', default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop = a.prop
    mod = prop.lower()
    t0 = time.time()
    if a.replay:
        return replay(prop, mod, a.replay)
    budget = float(os.environ.get('VX_BUDGET', 780 if tier == 'quick' else 5400))
    case_limit = float(os.environ.get('VX_CASE', 240 if tier == 'quick' else 1500))
    try:
        m = importlib.import_module(mod)
        cases = get_cases(m, tier)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if not any('/e2cnn/' in f.filename for f in tb) or isinstance(e, (ImportError, SyntaxError)):
            raise
        # the library cannot even build the objects the property speaks of
        rdir = os.path.join(EVID, 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{prop}-0.json')
        json.dump(dict(property=prop, tier=tier, case='construction', label='construction', detail=f'{type(e).__name__}: {e}', values={}, seed=seed, trace=traceback.format_exc()[-3000:],
                       how=f'/opt/venv/bin/python {HERE}/check.py {prop}'), open(path, 'w'), indent=1)
        print(f'VIOLATION property={prop} replay={path}')
        print(f'  case=construction: the library fails to build an object the property speaks of: {type(e).__name__}: {e}')
        return 1
    names = [c[0] for c in cases]
    if a.case:
        names = [n for n in names if a.case in n]
    results = run_pool(m, [c for c in cases if c[0] in set(names)], seed, prop, a.jobs, budget, case_limit, a.v)
    return report(prop, tier, seed, m, names, results, t0, a)


def get_cases(m, tier):
    out, seen = [], {}
    for c in m.cases(tier):
        n = c[0]
        seen[n] = seen.get(n, 0) + 1
        if seen[n] > 1:
            n = f'{n}~{seen[n]}'
        out.append((n,) + tuple(c[1:]))
    return out


def run_pool(m, cases, seed, prop, jobs, budget, case_limit, verbose):
    ctx = mp.get_context('fork')
    t0 = time.time()
    pending = list(cases)[::-1]
    results = {}
    live = []

    def note(r):
        results[r['case']] = r
        if verbose:
            print(f"  {r['case']}: {r['verdict']} {r.get('detail', '')} {r.get('wall_s', '')}s", flush=True)

    while pending or live:
        while pending and len(live) < jobs and time.time() - t0 < budget:
            c = pending.pop()
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(m, c, wr, seed, prop), daemon=True)
            p.start()
            wr.close()
            live.append((p, rd, c[0], time.time()))
        mp.connection.wait([l[1] for l in live], timeout=1.0)
        for l in list(live):
            p, rd, n, t = l
            if rd.poll():
                try:
                    note(rd.recv())
                except EOFError:
                    note(dict(case=n, verdict='inconclusive', detail='worker ended without an answer'))
                p.join(timeout=5)
            elif time.time() - t > case_limit or time.time() - t0 > budget:
                p.kill()
                note(dict(case=n, verdict='inconclusive', detail='time limit', wall_s=round(time.time() - t, 1)))
            else:
                continue
            rd.close()
            live.remove(l)
        if time.time() - t0 > budget:
            for c in pending:
                note(dict(case=c[0], verdict='inconclusive', detail='time budget'))
            pending = []
    return results


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])


def report(prop, tier, seed, m, names, results, t0, a):
    known = [k for k in load_known() if k['property'] == prop]
    viol, kf, inc, err = [], [], [], []
    agg = dict(queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, terms=0)
    ob = 0
    for n in names:
        r = results.get(n) or dict(case=n, verdict='inconclusive', detail='not run')
        for k in agg:
            agg[k] += r.get('stats', {}).get(k, 0)
        ob += r.get('obligations', 0)
        if r['verdict'] == 'violated':
            match = [k for k in known if k['case'] == n and (k.get('label') in (None, r.get('label')))]
            (kf if match else viol).append((r, match[0] if match else None))
        elif r['verdict'] == 'inconclusive':
            inc.append(r)
        elif r['verdict'] == 'error':
            err.append(r)
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    code = 0
    for r, k in kf:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for i, (r, _) in enumerate(viol):
        path = os.path.join(rdir, f"{prop}-{i}.json")
        json.dump(dict(property=prop, tier=tier, case=r['case'], label=r.get('label'), detail=r.get('detail'),
                       values=r.get('values', {}), seed=r.get('replay_seed', seed), trace=r.get('trace', ''),
                       how=f'/opt/venv/bin/python {HERE}/check.py {prop} --replay {path}'), open(path, 'w'), indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  case={r['case']} {r.get('label')}: {r.get('detail')}")
        code = 1
    for r in inc:
        print(f"INCONCLUSIVE property={prop} case={r['case']}: {r.get('detail')}")
    for r in err:
        print(f"ERROR property={prop} case={r['case']}: {r.get('detail')}")
        if r.get('trace'):
            print(r['trace'])
    done = [results[n] for n in names if n in results]
    proved = [r for r in done if r['verdict'] == 'proved']
    wall = time.time() - t0
    info = getattr(m, 'INFO', {})
    cov = dict(
        functions_encoded=info.get('functions', []),
        bounds=info.get('bounds', ''),
        outside_bounds=info.get('outside', ''),
        cases=len(names), cases_proved=len(proved),
        cases_skipped=[r['case'] for r in done if r['verdict'] == 'skipped'],
        cases_inconclusive=[dict(case=r['case'], why=r.get('detail', '')) for r in inc],
        obligations=ob, queries=agg['queries'], queries_unsat=agg['unsat'], queries_sat=agg['sat'],
        queries_unknown=agg['unknown'], solver_seconds=round(agg['solver_s'], 3), linear_terms=agg['terms'],
        reachability_witnesses=sum(1 for r in done if r.get('witness')),
        symbolic_variables=sum(r.get('vars', 0) for r in done),
        operators_executed=sum(r.get('ops', 0) or 0 for r in done),
        solver='z3 ' + _z3v(),
        explanation=info.get('explanation', 'solver verdict over all values of the symbolic inputs, for every listed configuration'),
        case_list=[dict(case=r['case'], verdict=r['verdict'], obligations=r.get('obligations', 0), wall_s=r.get('wall_s'),
                        queries=r.get('stats', {}).get('queries', 0), tiers=r.get('tiers', {})) for r in done],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=info.get('level', 'model_checking'), coverage=cov, wall_s=round(wall, 2),
              assumptions=info.get('assumptions', []),
              violations=[dict(case=r['case'], label=r.get('label'), detail=r.get('detail')) for r, _ in viol])
    if not a.case:
        os.makedirs(os.path.join(EVID), exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, f'{prop}.json'), 'w'), indent=1, default=str)
    if err and code == 0:
        code = 2
    if code == 0 and not proved and not kf:
        if not [r for r in done if r['verdict'] == 'inconclusive']:
            print(f'ERROR property={prop}: nothing was decided')
            code = 2
    print(f"{prop} [{tier}]: {len(proved)}/{len(names)} cases proved, {ob} obligations, {agg['queries']} queries "
          f"({agg['unsat']} unsat), solver {agg['solver_s']:.1f}s, wall {wall:.1f}s, inconclusive {len(inc)}, violations {len(viol)}")
    return code


def _z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


def replay(prop, mod, path):
    """re-run a recorded counterexample on the unpatched code"""
    d = json.load(open(path))
    m = importlib.import_module(mod)
    case = [c for c in get_cases(m, d['tier']) if c[0] == d['case']][0]
    if len(case) > 2 and case[2] == 'custom' and hasattr(case[1], 'pe') and d['values']:
        import random
        from . import pe
        try:
            bad = pe.concrete(case[1].pe, d['values'], random.Random(d['seed']))[0]
        except Exception as e:
            bad = [('exception', f'{type(e).__name__}: {e}')]
        for l, t in bad:
            print(f'reproduced: {l}: {t}')
        return 1 if bad else 0
    if len(case) > 2 and case[2] == 'custom':
        r = run_one(m, case, d['seed'], prop)
        print(r['verdict'], r.get('label'), r.get('detail'))
        return 1 if r['verdict'] == 'violated' else 0
    from . import harness
    try:
        bad = harness.concrete_run(case[1], d['values'], d['seed'])
    except Exception as e:
        bad = [('exception', f'{type(e).__name__}: {e}')]
    for l, t in bad:
        print(f'reproduced: {l}: {t}')
    return 1 if bad else 0
