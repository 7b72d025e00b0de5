#!/opt/venv/bin/python
"""Run one check:  run.py C01 [--tier quick|thorough] [--only TASK]
                  run.py --replay evidence/replays/....json"""
import argparse
import importlib
import json
import os
import sys
import time
import warnings

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SYMX_REPO', '/repo')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('HF_HUB_OFFLINE', '1')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(0, VERIF)
warnings.filterwarnings('ignore')


def load_known():
    out = []
    fn = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith('finding: '):
                kv, what = line[9:].split(' :: ', 1)
                d = dict(x.split('=', 1) for x in kv.split(' '))
                d['what'] = what
                out.append(d)
    return out


def _work(args):
    modname, i, tier, deadline = args
    from symx import engine
    mod = importlib.import_module(modname)
    task = mod.tasks(tier)[i]
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        r = engine.explore(task, deadline)
    v = r.violation
    return dict(
        name=task.name, error=r.error, incomplete=r.incomplete, wall=r.wall,
        checks=r.checks, stats=r.stats, samples=r.samples,
        violation=None if v is None else dict(
            msg=v.msg, values=v.values, kind=v.kind,
            replay=list(getattr(v, 'replay', ('', ''))), detail=v.detail))


def _serve(conn, beat, modname, tier, deadline):
    """a worker: runs the harnesses it is sent"""
    from symx import core
    core.BEAT = beat
    while True:
        msg = conn.recv()
        if msg is None:
            return
        i, attempt = msg
        if attempt:
            import z3
            z3.set_param('smt.random_seed', attempt)
        core.tick()
        try:
            r = _work((modname, i, tier, deadline))
        except Exception as e:
            r = repr(e)
        beat.value = 0
        conn.send(r)


def _pool(jobs, order, names, args, deadline, stale):
    """results of the harnesses; a worker in which a solver call neither
    answers nor heeds its time limit is replaced and its harness repeated"""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork')
    todo = [(i, 0) for i in reversed(order)]
    live = []

    def lost(w, why):
        w['p'].kill()
        w['p'].join()
        w['conn'].close()
        live.remove(w)
        i, attempt = w['job']
        if attempt < 2:
            todo.append((i, attempt + 1))
            return None
        if why == 'died':
            return f'{names[i]}: the process died'
        from symx.core import Stats
        return dict(name=names[i], error=None, checks=0, wall=0., samples=[],
                    stats=Stats(), violation=None,
                    incomplete='a solver call does not return')

    try:
        while todo or any(w['job'] for w in live):
            while todo and len(live) < jobs or todo and any(
                    w['job'] is None for w in live):
                free = [w for w in live if w['job'] is None]
                if not free:
                    mine, its = ctx.Pipe()
                    beat = ctx.Value('d', 0., lock=False)
                    p = ctx.Process(target=_serve, args=(its, beat) + args,
                                    daemon=True)
                    p.start()
                    its.close()
                    free = [dict(p=p, conn=mine, beat=beat, job=None)]
                    live += free
                w = free[0]
                w['job'] = todo.pop()
                w['beat'].value = time.time()
                w['conn'].send(w['job'])
            ready = wait([w['conn'] for w in live if w['job']], timeout=1)
            now = time.time()
            for w in [w for w in live if w['job']]:
                r = None
                if w['conn'] in ready:
                    try:
                        r = w['conn'].recv()
                        w['job'] = None
                    except (EOFError, ConnectionError):
                        r = lost(w, 'died')
                elif w['beat'].value and now - w['beat'].value > stale:
                    r = lost(w, 'hangs')
                elif now > deadline + stale:
                    w['job'] = w['job'][0], 9
                    r = lost(w, 'hangs')
                if r is not None:
                    yield r
    finally:
        for w in live:
            w['p'].kill()


def do_replay(path):
    from symx import engine
    d = json.load(open(path))
    mod = importlib.import_module('checks.' + d['property'].lower())
    task = [t for t in mod.tasks(d['tier']) if t.name == d['task']][0]
    kind, text = engine.replay(task, d['values'])
    print(kind, text)
    return 1 if kind in ('fail', 'exception') else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)
    t0 = time.time()
    pid = a.property
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import logging
    logging.disable(logging.WARNING)
    import torch
    torch.set_num_threads(1)
    from symx import engine
    mod = importlib.import_module('checks.' + pid.lower())
    tasks = mod.tasks(a.tier)
    names = [t.name for t in tasks]
    assert len(set(names)) == len(names), 'duplicate task names'
    idx = [i for i, t in enumerate(tasks) if not a.only or a.only in t.name]
    budget = getattr(mod, 'BUDGET', {'quick': 240, 'thorough': 3000})[a.tier]
    deadline = t0 + budget
    engine._monitor_on()
    results, errors, viols, known_hits = [], [], [], []
    known = [k for k in load_known() if k['property'] == pid]
    jobs = min(a.jobs, len(idx))
    order = sorted(idx, key=lambda i: -tasks[i].opts.get('cost', 1))

    def handle(r):
        results.append(r)
        if a.v:
            st = r['stats'].as_dict()
            print(f"  {r['name']}: {r['wall']:.1f}s checks={r['checks']} {st}"
                  f" {r['incomplete'] or ''} {'ERR' if r['error'] else ''}"
                  f" {'VIOL ' + r['violation']['msg'] if r['violation'] else ''}",
                  flush=True)
        if r['error']:
            errors.append((r['name'], r['error']))
        if r['violation']:
            k = [k for k in known if k['task'] == r['name']
                 and k.get('msg', '').replace('_', ' ') in
                 r['violation']['msg'].replace('_', ' ')]
            (known_hits if k else viols).append((r, k[0] if k else None))

    if jobs <= 1:
        for i in order:
            handle(_work(('checks.' + pid.lower(), i, a.tier, deadline)))
            if viols:
                break
    else:
        for r in _pool(jobs, order, names, (f'checks.{pid.lower()}', a.tier,
                                           deadline), deadline,
                       150 if a.tier == 'quick' else 400):
            if isinstance(r, str):
                errors.append(('worker', r))
            else:
                handle(r)
            if viols:
                break
    wall = time.time() - t0
    # ------------------------------------------------------------ evidence
    tot = None
    from symx.core import Stats
    tot = Stats()
    for r in results:
        tot.merge(r['stats'])
    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    vlines = []
    for r, _ in viols:
        p = os.path.join('evidence', 'replays',
                         f"{pid}-{abs(hash(r['name'])) % 10**8}.json")
        json.dump(dict(property=pid, tier=a.tier, task=r['name'],
                       msg=r['violation']['msg'],
                       values=r['violation']['values'],
                       replayed=r['violation']['replay']),
                  open(os.path.join(VERIF, p), 'w'), indent=1)
        vlines.append((p, r))
    samples = []
    for r in results:
        for s in r['samples'][:1]:
            samples.append({'harness': r['name'],
                            'path_witness': {k: str(v) for k, v in
                                             list(s.items())[:8]}})
    info = getattr(mod, 'INFO', {})
    ev = dict(
        property=pid, tier=a.tier, seed=seed,
        level='other',
        coverage={
                'explanation':
                'Symbolic execution of the real code from /repo with z3; every '
                'path of every harness explored within the stated bounds, one '
                'or more solver queries per claim.',
                'harnesses': len(results),
                'harness_names': sorted(r['name'] for r in results)[:400],
                'functions_executed_symbolically': sorted(tot.funcs),
                'bounds': info.get('bounds', ''),
                'outside': info.get('outside', ''),
                'paths': tot.paths,
                'infeasible_paths': tot.infeasible,
                'claims_checked': tot.obligations,
                'queries_discharged': tot.queries,
                'branch_feasibility_queries': tot.branch_queries,
                'solver_seconds': round(tot.solver_s, 2),
                'slowest_query_seconds': round(tot.max_query_s, 2),
                'narrowing_notes': sorted(tot.notes),
                'incomplete_harnesses': {r['name']: r['incomplete']
                                         for r in results if r['incomplete']},
                'errors': [f'{n}: {e[:500]}' for n, e in errors],
                'known_findings_reproduced': [k['what'] for _, k in known_hits],
                'samples': samples[:8],
        },
        wall_s=round(wall, 2),
        assumptions=['floats are treated as mathematical reals'] +
        list(info.get('assumptions', [])),
        violations=[dict(harness=r['name'], claim=r['violation']['msg'],
                         replay=p) for p, r in vlines])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for r, k in known_hits:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for p, r in vlines:
        print(f"violated: {r['name']}: {r['violation']['msg']}")
        print(f"  counterexample: {str(r['violation']['values'])[:600]}")
        print(f"  replay on the real code: {r['violation']['replay']}")
        print(f'VIOLATION property={pid} replay={p}')
    for n, e in errors:
        print(f'ERROR {n}: {e}'[:6000], file=sys.stderr)
    print(f'{pid} {a.tier}: harnesses={len(results)} paths={tot.paths} '
          f'claims={tot.obligations} queries={tot.queries} '
          f'solver={tot.solver_s:.1f}s wall={wall:.1f}s '
          f'incomplete={sum(1 for r in results if r["incomplete"])} '
          f'errors={len(errors)}')
    sys.stdout.flush()
    if viols:
        os._exit(1)
    if errors:
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
