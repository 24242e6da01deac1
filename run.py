"""run.py <property id> [--tier quick|thorough] [--only scenario] [--replay file] : decide one property"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback

os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
EVID = os.environ.get('DEV_EVIDENCE') or os.path.join(os.path.dirname(os.path.abspath(__file__)), 'evidence')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import symx  # noqa: E402
from symx import patch  # noqa: E402
from harness import history  # noqa: E402


def scenarios(mod, tier, pid):
    return list(mod.scenarios(tier)) + history.scenarios(pid, tier)


LIMIT = {'quick': 240, 'thorough': 700}      # seconds for one scenario


class TimeUp(BaseException):
    pass


def time_up(*_):
    raise TimeUp('time limit of the scenario')


def work(args):
    idx, deadline, pid, tier, seed = args
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import z3
    z3.set_param('smt.random_seed', seed % 1000)
    sys.setrecursionlimit(20000)
    sc = SC[idx]
    from symx.harness import Explorer
    t0 = time.time()
    if sc.budget:
        deadline = min(deadline, time.time() + sc.budget)
    ex = Explorer(sc, deadline)
    signal.signal(signal.SIGALRM, time_up)
    signal.setitimer(signal.ITIMER_REAL, max(5, min(LIMIT.get(tier, 240), deadline + 30 - time.time())), 5)
    try:
        ex.explore()
        signal.setitimer(signal.ITIMER_REAL, 0)
    except BaseException as e:  # noqa: BLE001
        ex.undecided.append('engine error: ' + ''.join(traceback.format_exception_only(type(e), e)).strip())
        ex.last_tb = traceback.format_exc()
    signal.setitimer(signal.ITIMER_REAL, 0)
    st = ex.ctx.stats.as_dict()
    return {'name': sc.name, 'stats': st, 'violations': ex.violations, 'undecided': ex.undecided, 'mismatch': ex.mismatch,
            'witness_ok': ex.witness_ok, 'witness_skipped': ex.witness_skipped, 'samples': ex.samples,
            'decided_paths': ex.decided_paths, 'reached': ex.reached, 'labels': ex.labels,
            'tb': getattr(ex, 'last_tb', None), 'wall': time.time() - t0, 'functions': list(sc.functions)}


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    return x if isinstance(x, (str, int, float, bool, type(None))) else repr(x)


def main():
    global SC
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    patch.load_simcats()
    mod = importlib.import_module(f'harness.{a.pid.lower()}')
    if a.replay:
        rec = json.load(open(a.replay))
        from symx.harness import Explorer
        sc = [s for s in scenarios(mod, 'thorough', a.pid) if s.name == rec['scenario']][0]
        ce, exc = Explorer(sc, None).run_conc(rec['inputs'])
        fails = [] if ce is None else ce.failures
        print('\n'.join(fails) or 'no failure')
        sys.exit(1 if fails else 0)
    SC = scenarios(mod, a.tier, a.pid)
    if a.only:
        SC = [s for s in SC if re.search(a.only, s.name)]
    budget = getattr(mod, 'BUDGET', {}).get(a.tier, 480 if a.tier == 'quick' else 780)
    deadline = t0 + budget
    known = load_known(a.pid)

    def listed(name, v):
        return [k for k in known if k['re'].search(f"{name}: {v['label']}")]
    res = []
    ctx = mp.get_context('fork')
    # (scenarios of one kind are spread: where a change makes one kind endless, the others still run)
    order = sorted(range(len(SC)), key=lambda i: (-(SC[i].budget or 0), hashlib.md5(SC[i].name.encode()).hexdigest()))
    with ctx.Pool(min(a.jobs, max(1, len(SC))), maxtasksperchild=1) as pool:
        it = [pool.apply_async(work, ((i, deadline, a.pid, a.tier, seed),)) for i in order]
        found = None
        while not all(r.ready() for r in it) and time.time() < deadline + 60:
            if any(not listed(r.get()['name'], v) for r in it if r.ready() and r.successful() for v in r.get()['violations']):
                found = found or time.time()
                if time.time() - found > (0 if os.environ.get('DEV_FAST') else 60):     # the answer is known
                    cut = len(it)
                    order = [i for i, r in zip(order, it) if r.ready()]
                    it = [r for r in it if r.ready()]
                    print(f'({cut - len(it)} scenarios were not waited for after the first violation)')
                    break
            time.sleep(0.2)
        for i, r in zip(order, it):
            left = deadline + 60 - time.time()
            try:
                res.append(r.get(timeout=max(left, 1)))
            except BaseException as e:  # noqa: BLE001
                res.append({'name': SC[i].name, 'stats': None, 'violations': [], 'mismatch': [], 'decided_paths': 0,
                            'undecided': [f'worker: {type(e).__name__} {e}'], 'witness_ok': 0, 'witness_skipped': 0,
                            'samples': [], 'reached': 0, 'labels': {}, 'tb': None, 'wall': 0, 'functions': []})
        pool.terminate()
    res.sort(key=lambda r: r['name'])
    tot = {k: 0 for k in ('queries', 'unsat', 'sat', 'unknown', 'branch_queries', 'paths', 'infeasible', 'checks',
                          'discharged')}
    solver_s = 0.0
    notes = {}
    for r in res:
        if r['stats']:
            for k in tot:
                tot[k] += r['stats'][k]
            solver_s += r['stats']['solver_s']
            for k, v in r['stats']['notes'].items():
                notes[k] = notes.get(k, 0) + v
    viol, knownhit = [], []
    for r in res:
        for v in r['violations']:
            v['scenario'] = r['name']
            hit = listed(r['name'], v)
            (knownhit if hit else viol).append((v, hit))
    undec = [(r['name'], u) for r in res for u in r['undecided']]
    mism = [(r['name'], m) for r in res for m in r['mismatch']]
    empty = [r['name'] for r in res if not r['reached'] and not r['violations']]
    for k in known:
        print(f"KNOWN-FINDING: property={a.pid} {k['what']}")
    lines = []
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for i, (v, _) in enumerate(viol):
        p = os.path.join(rdir, f"{a.pid}_{i}.json")
        json.dump(jsonable({'property': a.pid, **v}), open(p, 'w'), indent=1)
        lines.append(f"VIOLATION property={a.pid} replay={p}")
        print(f"  scenario {v['scenario']}: {v['label']}")
        print(f"    inputs: {json.dumps(jsonable(v['inputs']))[:1500]}")
    shown = []
    if a.v or undec or mism or empty:
        for r in res:
            if a.v or r['undecided'] or r['mismatch'] or not r['reached']:
                st = r['stats'] or {}
                print(f"  [{r['name']}] paths={st.get('paths')} reached={r['reached']} checks={st.get('checks')} "
                      f"queries={st.get('queries')} unknown={st.get('unknown')} witnesses={r['witness_ok']}/{r['witness_skipped']} "
                      f"solver={st.get('solver_s', 0):.1f}s wall={r['wall']:.1f}s undecided={r['undecided'][:3]} "
                      f"mismatch={r['mismatch'][:1]}")
                if r['tb'] and a.v and r['tb'] not in shown:
                    shown.append(r['tb'])
                    print('\n'.join(r['tb'].splitlines()[-7:]))
    evid = {
        'property': a.pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': tot['paths'], 'transitions': tot['branch_queries'] + tot['queries'],
            'traces_validated_against_impl': sum(r['witness_ok'] for r in res),
            'samples': [s for r in res for s in r['samples']][:8],
            'exhaustive': not undec and not mism,
            'states_meaning': 'symbolic execution paths completed; each covers every input value satisfying its path condition',
            'transitions_meaning': 'solver queries: branch feasibility plus assertions',
            'traces_meaning': 'path witnesses (solver models) run on the unpatched code, outputs compared with the encoding',
            'functions_encoded': sorted({f for r in res for f in r['functions']}) or getattr(mod, 'FUNCTIONS', []),
            'bounds': getattr(mod, 'BOUNDS', '') + ('; histories: ' + history.BOUNDS if history.scenarios(a.pid, a.tier) else ''), 'outside': getattr(mod, 'OUTSIDE', ''),
            'scenarios': [{'name': r['name'], 'paths': (r['stats'] or {}).get('paths'), 'reached_assertions': r['reached'],
                           'assertions': r['labels'], 'wall_s': round(r['wall'], 2),
                           'solver_s': round((r['stats'] or {}).get('solver_s', 0), 2)} for r in res],
            'assertions_checked': tot['checks'], 'assertions_discharged': tot['discharged'],
            'assertion_queries': tot['queries'], 'unsat': tot['unsat'], 'sat': tot['sat'], 'unknown': tot['unknown'],
            'branch_queries': tot['branch_queries'], 'solver_s': round(solver_s, 2), 'undecided': [list(u) for u in undec][:20],
            'witness_mismatches': len(mism), 'notes': notes, 'known_findings': [k['what'] for k in known],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON,
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    json.dump(jsonable(evid), open(os.path.join(EVID, f'{a.pid}.json'), 'w'), indent=1)
    print(f"{a.pid} {a.tier}: {len(res)} scenarios, {tot['paths']} paths, {tot['checks']} assertions "
          f"({tot['discharged']} discharged), {tot['queries']}+{tot['branch_queries']} queries, solver {solver_s:.1f}s, "
          f"{sum(r['witness_ok'] for r in res)} witnesses replayed, wall {time.time() - t0:.1f}s")
    for ln in lines:
        print(ln)
    if lines:
        sys.exit(1)
    whole = [r['name'] for r in res if r['undecided'] and r['decided_paths'] == 0 or r['mismatch']]
    if undec:
        for n, u in undec[:10]:
            print(f"UNDECIDED [{n}] {u}")
    if mism:
        print(f'ENCODING MISMATCH in {len(mism)} scenarios (counted as undecided)', str(mism[0])[:600])
    if 2 * len(set(whole) | set(empty)) > len(res):
        print(f"error: no answer (undecided: {whole}, mismatch: {len(mism)}, assertions never reached: {empty})")
        sys.exit(3)
    sys.exit(0)


COMMON = [
    'floating point numbers are modelled as mathematical reals; assertions on derived values carry a tolerance',
    'transcendental functions are only known through monotonicity, symmetry, range and point bounds',
    'z3 5.3.2 and the numpy stand-in in symx/ are trusted; every path witness and counterexample is replayed on the real code',
]


def load_known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if not ln or ln.startswith('#') or ln.startswith('fixed:'):
                continue
            k = json.loads(ln)
            if k['property'] == pid:
                k['re'] = re.compile(k['match'])
                out.append(k)
    return out


if __name__ == '__main__':
    main()
