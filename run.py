#!/usr/bin/env python3
"""Runner:  run.py C01 [--tier quick|thorough] [--case NAME] [--jobs N]      decide one property
            run.py --replay out/replays/<file>.json                          re-run a counterexample on /repo
            run.py --list                                                    properties and cases
Exit 0: held on everything explored.  Exit 1: VIOLATION line(s) printed.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
FAILFAST = bool(os.environ.get('VERIF_FAILFAST'))     # development: stop at the first violation
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV = '/opt/venv/bin/python'
ENV = dict(JAX_PLATFORMS='cpu', XLA_FLAGS='--xla_cpu_multi_thread_eigen=false', OPENBLAS_NUM_THREADS='1',
           OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           TF_CPP_MIN_LOG_LEVEL='3', JAX_ENABLE_X64='1')


def bootstrap():
    need = [k for k, v in ENV.items() if os.environ.get(k) != v]
    if need or (os.path.exists(VENV) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv')):
        if os.environ.get('VERIF_BOOT') != '1':
            os.environ.update(ENV)
            os.environ['VERIF_BOOT'] = '1'
            exe = VENV if os.path.exists(VENV) else sys.executable
            os.execv(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:])
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)


def load(pid):
    return importlib.import_module('props.' + pid.lower())


def properties():
    out = {}
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        for ln in f:
            if ln.strip():
                d = json.loads(ln)
                out[d['id']] = d
    return out


# ------------------------------------------------------------------ workers

def worker(inq, outq, pid, tier, seed):
    bootstrap()
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    sys.setrecursionlimit(20000)
    import warnings
    warnings.filterwarnings('ignore')
    solver = None
    err = None
    cases = {}
    try:
        from engine import core, smt
        import mfs
        assert os.path.realpath(mfs.__path__[0]).startswith(os.path.realpath(REPO)), 'mfs is not /repo'
        cases = {c.name: c for c in load(pid).cases(tier)}
        solver = smt.Solver()
        if tier == 'thorough':
            solver.cross = True
    except BaseException as e:
        import traceback
        err = f'{type(e).__name__}: {e}', traceback.format_exc()
    while True:
        name = inq.get()
        if name is None:
            break
        if err or name not in cases:
            outq.put(dict(name=name, status='inconclusive', reasons=[err[0] if err else 'case missing'], violations=[],
                          stats={}, functions=[], contracts=[], wall=0., trace=err[1] if err else ''))
            continue
        outq.put(dict(name=name, started=time.time(), pid=os.getpid()))
        try:
            solver.cross_spent = 0.
            r = core.run_case(cases[name], solver, tier, seed)
            outq.put(dict(name=name, status=r.status, reasons=r.reasons, violations=r.violations, stats=r.stats,
                          functions=sorted(r.functions), contracts=sorted(r.contracts), wall=r.wall,
                          trace=getattr(r, 'trace', ''), cross=dict(solver.cross_stats)))
            solver.cross_stats = dict.fromkeys(solver.cross_stats, 0)
        except BaseException as e:
            import traceback
            outq.put(dict(name=name, status='inconclusive', reasons=[f'{type(e).__name__}: {str(e)[:300]}'],
                          violations=[], stats={}, functions=[], contracts=[], wall=0.,
                          trace=traceback.format_exc()))
    if solver:
        solver.stop()


def run_all(pid, tier, seed, cases, jobs, limit):
    """Run the cases over worker processes; a dead worker makes its case inconclusive."""
    ctx = mp.get_context('spawn')
    outq = ctx.Queue()
    results, t0 = {}, time.time()
    order = sorted(cases, key=lambda c: -c.budget)
    todo = [c.name for c in order]
    budget = {c.name: c.budget for c in cases}
    jobs = max(1, min(jobs, len(todo)))
    workers = []

    def spawn():
        q = ctx.Queue()
        p = ctx.Process(target=worker, args=(q, outq, pid, tier, seed), daemon=True)
        p.start()
        return dict(p=p, q=q, cur=None, since=None)

    def feed(w):
        if todo:
            w['cur'], w['since'] = todo.pop(0), time.time()
            w['q'].put(w['cur'])
        else:
            w['cur'] = None
            w['q'].put(None)
    for _ in range(jobs):
        w = spawn()
        workers.append(w)
        feed(w)

    def lost(name, why):
        results[name] = dict(name=name, status='inconclusive', reasons=[why], violations=[], stats={}, functions=[],
                             contracts=[], wall=0.)
    import queue
    while len(results) < len(cases):
        try:
            r = outq.get(timeout=1.0)
            if 'started' not in r:
                results[r['name']] = r
                if FAILFAST and r['violations']:
                    for n in todo:
                        lost(n, 'not run (failfast)')
                    todo.clear()
                    for w in workers:
                        if w['cur'] and w['cur'] not in results:
                            lost(w['cur'], 'not run (failfast)')
                        w['p'].kill()
                    return results
                for w in workers:
                    if w['cur'] == r['name']:
                        feed(w)
                        break
            continue
        except queue.Empty:
            pass
        now = time.time()
        for i, w in enumerate(workers):
            if w['cur'] is None:
                continue
            dead = not w['p'].is_alive()
            over = now - w['since'] > budget[w['cur']] * 1.6 + 90
            if dead or over:
                time.sleep(0.2)
                if w['cur'] in results:
                    continue
                lost(w['cur'], 'worker died' if dead else 'hard time limit')
                w['p'].kill()
                workers[i] = spawn()
                feed(workers[i])
        if now - t0 > limit:
            for w in workers:
                if w['cur'] and w['cur'] not in results:
                    lost(w['cur'], 'property time limit')
                w['p'].kill()
            for n in todo:
                lost(n, 'property time limit (not started)')
            todo.clear()
    for w in workers:
        w['p'].join(5)
        if w['p'].is_alive():
            w['p'].kill()
    return results


def known_findings():
    """Lines 'known: property=<id> case=<case> <what>' suppress exactly that case; 'fixed:' lines suppress nothing."""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('known:'):
                kv = dict(t.split('=', 1) for t in ln.split() if '=' in t)
                out.append((kv.get('property'), kv.get('case'), ln[len('known:'):].strip()))
    return out


def check(pid, tier, seed, only, jobs):
    t0 = time.time()
    mod = load(pid)
    cases = mod.cases(tier)
    assert len({c.name for c in cases}) == len(cases), 'duplicate case names'
    if only:
        cases = [c for c in cases if only in c.name]
    limit = 780 if tier == 'quick' else float(os.environ.get('VERIF_THOROUGH_LIMIT', 5400))
    results = run_all(pid, tier, seed, cases, jobs, limit)
    wall = time.time() - t0
    known = known_findings()
    code = tries = 0
    vio = []
    os.makedirs(os.path.join(HERE, 'out', 'replays'), exist_ok=True)
    for c in cases:
        r = results[c.name]
        line = f"{r['status']:13s} {c.name:44s} {r['wall']:7.1f}s"
        s = r['stats']
        if s:
            line += f"  paths={s['paths']} goals={s['goals']} comps={s['components']} q={s['queries']}" \
                    f" unsat={s['unsat']} t={s['solver_s']:.1f}s"
        print(line)
        if r['status'] == 'inconclusive':
            for x in r['reasons'][:4]:
                print('    -', x[:400])
            if os.environ.get('VERIF_DEBUG') and r.get('trace'):
                print(r['trace'])
        if r['violations']:
            v = r['violations'][0]
            k = [x for x in known if x[0] == pid and x[1] == c.name]
            if k:
                print(f'KNOWN-FINDING: property={pid} {k[0][2]}')
                continue
            path = os.path.join(HERE, 'out', 'replays', f'{pid}-{c.name}.json'.replace('/', '_'))
            with open(path, 'w') as f:
                json.dump(dict(property=pid, tier=tier, **v), f, indent=1)
            if len(vio) < 3 and (tries >= 12 or time.time() - t0 > 840 or not confirmed(path)):
                tries += 1
                print('    - counterexample not reproduced in a fresh process: inconclusive')
                r['status'] = 'inconclusive'
                r['reasons'].append('counterexample not reproduced in a fresh process')
                r['violations'] = []
                continue
            for g in v['goals'][:4]:
                print('    !', g)
            print(f'VIOLATION property={pid} replay={path}')
            vio.append(dict(case=c.name, found_by=v['found_by'], goals=v['goals'], inputs=v['env'], replay=path))
            code = 1
    write_evidence(pid, tier, seed, mod, cases, results, vio, wall)
    n = sum(r['status'] == 'proved' for r in results.values())
    print(f'{pid}: {n}/{len(cases)} cases decided, {len(vio)} violations, {wall:.1f}s')
    return code


def confirmed(path):
    """Every counterexample is replayed once more, on the real code, in a process of its own."""
    import subprocess
    try:
        r = subprocess.run([sys.executable, os.path.abspath(__file__), '--replay', path], capture_output=True, text=True, timeout=200)
    except subprocess.TimeoutExpired:
        return True
    return not (r.returncode == 0 and 'not reproduced' in r.stdout)


def write_evidence(pid, tier, seed, mod, cases, results, vio, wall):
    agg = dict(paths=0, goals=0, components=0, queries=0, unsat=0, sat=0, unknown=0, solver_s=0., eqns=0, traces=0,
               validated=0, vacuity=0, lemma_instances=0, rounding=0)
    prims, funcs, contracts, cross = {}, set(), set(), dict(agree=0, unknown=0, disagree=0)
    per = []
    for c in cases:
        r = results[c.name]
        s = r['stats']
        for k in agg:
            agg[k] += s.get(k, 0)
        for k, v in s.get('prims', {}).items():
            prims[k] = prims.get(k, 0) + v
        for k, v in (r.get('cross') or {}).items():
            cross[k] = cross.get(k, 0) + v
        funcs |= set(r['functions'])
        contracts |= set(r['contracts'])
        per.append(dict(case=c.name, status=r['status'], bounds=c.bounds, wall_s=round(r['wall'], 2),
                        reasons=r['reasons'][:6], goals=s.get('goals', 0), components=s.get('components', 0),
                        queries=s.get('queries', 0), solver_s=round(s.get('solver_s', 0.), 2)))
    proved = sum(r['status'] == 'proved' for r in results.values())
    ev = dict(property=pid, tier=tier, seed=int(seed), level='other',
              coverage=dict(
                  explanation='Symbolic execution of the jaxprs JAX traces from /repo on this run, over exact reals; '
                              'every goal component is an SMT query (unsat = holds for all values within the bounds). '
                              + getattr(mod, 'EXPLAIN', ''),
                  evidence_for_all_inputs_within_bounds=proved == len(cases),
                  functions_encoded=sorted(funcs), bounds=getattr(mod, 'BOUNDS', ''),
                  outside_bounds=getattr(mod, 'OUTSIDE', ''),
                  cases=len(cases), cases_decided=proved,
                  cases_inconclusive=[p['case'] for p in per if p['status'] == 'inconclusive'],
                  symbolic_paths=agg['paths'], goals=agg['goals'], components=agg['components'],
                  queries_discharged=agg['unsat'], queries_total=agg['queries'], sat=agg['sat'],
                  unknown=agg['unknown'], solver_time_s=round(agg['solver_s'], 2),
                  jaxpr_equations_executed=agg['eqns'], traces=agg['traces'], primitives=prims,
                  eigen_contract_instances=agg['lemma_instances'], rounding_queries=agg['rounding'],
                  vacuity_witnesses=agg['vacuity'], translation_validated_goals=agg['validated'],
                  second_solver=cross if tier == 'thorough' else 'thorough tier only',
                  per_case=per),
              wall_s=round(wall, 2),
              assumptions=sorted(contracts) + list(getattr(mod, 'ASSUMPTIONS', [])) + [
                  'IEEE rounding is idealised: float64 operations are read as exact real operations, float literals as '
                  'the simple rational/surd they round; replay compares with a 1e-6 relative tolerance',
                  'jax.make_jaxpr is a faithful IR of the traced function (validated numerically on a witness per path)'],
              violations=len(vio))
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def replay(path):
    from engine import core
    d = json.load(open(path))
    case = next(c for c in load(d['property']).cases(d['tier']) if c.name == d['case'])
    api = core.NumAPI(dict(d['env']), None, d['tier'], seed=d.get('seed', 0))
    api.tables = {k: [(a, b) for a, b in v] for k, v in d['tables'].items()}
    try:
        core.run_numeric(case, api)
    except Exception as e:
        if not core.raised_in_code(e):
            raise
        print(f'FAILS the code raises {type(e).__name__}: {str(e)[:300]}')
        print('reproduced')
        return 1
    bad = [(g, i) for g in api.goals for i in [core.goal_num_fails(g)] if i is not None]
    for g, i in bad:
        print('FAILS', core.describe(g, i))
    print('reproduced' if bad else 'not reproduced')
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--case', default=None)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument('--replay')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.list:
        for pid in properties():
            try:
                m = load(pid)
            except ModuleNotFoundError:
                continue
            for t in ('quick', 'thorough'):
                print(pid, t, [c.name for c in m.cases(t)])
        return 0
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    return check(a.pid, tier, seed, a.case, a.jobs)


if __name__ == '__main__':
    bootstrap()
    sys.exit(main())
