"""Runs one check: the proof tasks, the bounded monitor, the verdict and the evidence file."""
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

from .api import Fail, Log

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = 8


def known_for(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {k['key']: k for k in data.get('known', []) if k['property'] == pid}


def _ob(o):
    return {'name': o.name, 'status': o.status, 'backend': o.backend,
            'time': round(o.time, 4), 'detail': str(o.detail)[:600],
            'model': (str(o.model)[:1500] if o.model else None),
            'witness': (str(o.witness)[:600] if getattr(o, 'witness', None) else None)}


def task_child(modname, idx, tier, deadline, conn):
    try:
        mod = importlib.import_module(modname)
        task = mod.proofs(tier)[idx]
        res = []
        r = task.fn(deadline)
        for c in r if isinstance(r, (list, tuple)) else [r]:
            obs = [_ob(o) for o in c.obligations]
            res.append({'ctx': c.name, 'paths': c.paths, 'queries': c.queries,
                        'solver_time': c.solver_time,
                        'covers': {k: bool(v) for k, v in c.covers.items()},
                        'n': len(obs), 'proved': sum(o['status'] == 'proved' for o in obs),
                        'backends': _hist(o['backend'] for o in obs if o['status'] == 'proved'),
                        'names': sorted({o['name'] for o in obs})[:60],
                        'bad': [o for o in obs if o['status'] != 'proved'][:20]})
        conn.send(('ok', res))
    except BaseException as e:  # noqa: BLE001
        conn.send(('error', f'{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}'))
    conn.close()


def _hist(it):
    h = {}
    for x in it:
        h[x] = h.get(x, 0) + 1
    return h


def monitor_child(modname, fnname, seed, tier, seconds, known, conn):
    log = Log(time.time() + seconds, seed, tier, known)
    fail = None
    try:
        mod = importlib.import_module(modname)
        getattr(mod, fnname)(random.Random(seed), log)
    except Fail as e:
        fail = {'what': e.what, 'case': _js(e.case), 'key': e.key, 'seed': seed, 'monitor': fnname}
    except BaseException as e:  # noqa: BLE001
        fail = {'what': f'unexpected {type(e).__name__}: {e}', 'case': None, 'key': None,
                'trace': traceback.format_exc()[-2500:], 'seed': seed, 'monitor': fnname}
    conn.send({'evaluations': log.evaluations, 'keys': list(log.keys)[:2000000],
               'samples': log.samples, 'known_hits': log.known_hits, 'fail': fail})
    conn.close()


def _js(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        return repr(x)[:6000]


class Pool:
    """At most NPROC child processes, each with a hard time limit."""

    def __init__(self):
        self.ctx = mp.get_context('fork')
        self.wait = []
        self.live = []
        self.done = {}

    def add(self, key, target, args, hard, weight=1):
        self.wait.append((key, target, args, hard))

    def run(self, stop=None):
        while self.wait or self.live:
            while self.wait and len(self.live) < NPROC:
                key, target, args, hard = self.wait.pop(0)
                r, w = self.ctx.Pipe(False)
                p = self.ctx.Process(target=target, args=(*args, w), daemon=True)
                p.start()
                w.close()
                self.live.append((key, p, r, time.time() + hard))
            conns = [x[2] for x in self.live]
            ready = mp.connection.wait(conns, timeout=0.5) if conns else []
            now = time.time()
            for item in list(self.live):
                key, p, r, end = item
                if r in ready:
                    try:
                        self.done[key] = r.recv()
                    except EOFError:
                        self.done[key] = None
                elif now > end:
                    p.kill()
                    self.done[key] = None
                else:
                    continue
                p.join(5)
                if p.is_alive():
                    p.kill()
                    p.join()
                self.live.remove(item)
            if stop and stop(self.done):
                for _k, p, _r, _e in self.live:
                    p.kill()
                    p.join()
                self.live = []
                self.wait = []
        return self.done


def main(argv):
    import multiprocessing.connection  # noqa: F401
    pid = argv[0]
    tier = 'thorough' if '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough' \
        else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    modname = f'checks.{pid.lower()}'
    sys.path.insert(0, VERIF)
    import pyvc  # noqa: F401  (sets up sys.path for gempakio and the solvers)
    mod = importlib.import_module(modname)
    known = known_for(pid)
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            rec = json.load(f)
        fl = rec.get('failure')
        if not fl:
            print('no concrete input recorded:', rec.get('failed_obligations'))
            return 1
        try:
            getattr(mod, fl['monitor'])(random.Random(fl['seed']),
                                        Log(time.time() + 600, fl['seed'], tier, known))
        except Fail as e:
            print('reproduced:', e.what, e.case)
            return 1
        print('not reproduced')
        return 0

    tasks = mod.proofs(tier) if hasattr(mod, 'proofs') else []
    monitors = getattr(mod, 'MONITORS', ['monitor'] if hasattr(mod, 'monitor') else [])
    mon_s = getattr(mod, 'MONITOR_SECONDS', 15) * (8 if tier == 'thorough' else 1)
    limit_s = 780 if tier == 'quick' else 3000
    deadline = t0 + limit_s
    pool = Pool()
    for m in monitors:
        pool.add(('mon', m, 0), monitor_child,
                 (modname, m, seed, tier, mon_s, list(known)), mon_s + 60)
    for i, t in enumerate(tasks):
        dl = min(deadline, t0 + limit_s)
        pool.add(('task', i), task_child, (modname, i, tier, dl),
                 (t.timeout if tier == 'quick' else t.timeout * 8))
    done = pool.run()

    # ---- proof results
    failed, results = [], []
    n_ob = n_ok = nb_ob = nb_ok = 0
    solver = 0.0
    backends = {}
    unreached = []
    for i, t in enumerate(tasks):
        r = done.get(('task', i))
        if r is None:
            failed.append({'name': f'{t.label}: no result within {t.timeout} s',
                           'status': 'unknown', 'detail': '', 'model': None})
            continue
        if r[0] == 'error':
            failed.append({'name': f'{t.label}: obligations could not be generated',
                           'status': 'unsupported', 'detail': r[1], 'model': None})
            continue
        for c in r[1]:
            solver += c['solver_time']
            if t.bounded:
                nb_ob += c['n']
                nb_ok += c['proved']
            else:
                n_ob += c['n']
                n_ok += c['proved']
            for b, k in c['backends'].items():
                backends[b] = backends.get(b, 0) + k
            for o in c['bad']:
                failed.append({**o, 'name': f"{c['ctx']}: {o['name']}"})
            if not c['n']:
                failed.append({'name': f"{c['ctx']}: no obligation generated",
                               'status': 'vacuous', 'detail': '', 'model': None})
            for k, v in c['covers'].items():
                if not v:
                    unreached.append(f"{c['ctx']}: {k}")
            results.append({'group': c['ctx'], 'bounded': t.bounded,
                            'functions': t.functions, 'obligations': c['n'],
                            'discharged': c['proved'], 'paths': c['paths'],
                            'queries': c['queries'],
                            'solver_s': round(c['solver_time'], 2), 'names': c['names'][:25]})
    for u in unreached:
        failed.append({'name': f'vacuity guard, not reachable: {u}', 'status': 'vacuous',
                       'detail': '', 'model': None})

    # ---- monitor results
    def collect(done):
        ev, keys, samples, fl, hits = 0, set(), [], [], {}
        for k, r in done.items():
            if k[0] != 'mon':
                continue
            if r is None:
                fl.append({'what': f'monitor {k[1]} (seed {k[2]}) did not end: a call on the '
                                   'real code hangs', 'case': None, 'seed': k[2] or seed,
                           'monitor': k[1]})
                continue
            ev += r['evaluations']
            keys.update(r['keys'])
            samples += r['samples']
            hits.update(r['known_hits'])
            if r['fail']:
                fl.append(r['fail'])
        return ev, keys, samples, fl, hits

    ev, keys, samples, fails, hits = collect(done)
    searched = 0
    if failed and not fails and monitors:
        # an obligation failed: look harder for an input showing it on the real code
        extra = Pool()
        for k in range(1, 1 + NPROC):
            for m in monitors:
                extra.add(('mon', m, k), monitor_child,
                          (modname, m, seed * 1000 + k, tier, mon_s * 3 / len(monitors) + 5,
                           list(known)), mon_s * 3 + 90)
        more = extra.run(stop=lambda d: any(r and r['fail'] for r in d.values()))
        ev2, keys2, _s, fails, hits2 = collect(more)
        searched = ev2
        ev += ev2
        keys |= keys2
        hits.update(hits2)

    # ---- verdict
    for k, what in sorted(hits.items()):
        print(f'KNOWN-FINDING: property={pid} {known[k].get("what", what)}')
    known_ob = {k for k in known if k.startswith('ob:')}
    new_failed = [f for f in failed if not any(f['name'].startswith(k[3:]) for k in known_ob)]
    violation = bool(fails or new_failed)
    ev_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    replay = os.path.join(ev_dir, f'replay_{pid}.json')
    if violation:
        with open(replay, 'w') as f:
            json.dump({'property': pid, 'failure': fails[0] if fails else None,
                       'other_failures': fails[1:5],
                       'failed_obligations': new_failed[:40],
                       'rerun': f'python check.py {pid} --replay {replay}'}, f, indent=1,
                      default=str)
        for x in fails[:1]:
            print('FAILING INPUT:', x['what'], str(x.get('case'))[:1500])
        for x in new_failed[:8]:
            print('FAILED OBLIGATION:', x['name'], '--', x['status'], str(x['detail'])[:300],
                  (str(x['model']) or '')[:300])
        tail = '' if fails else ' no-failing-input-found'
        print(f'VIOLATION property={pid} replay={replay}{tail}')
    elif os.path.exists(replay):
        os.unlink(replay)

    level = getattr(mod, 'LEVEL', 'proof')
    cov = {
        'obligations': n_ob, 'discharged': n_ok,
        'checker_cmd': f'/opt/venv/bin/python -B check.py {pid}' +
                       (' --thorough' if tier == 'thorough' else ''),
        'trusted_base': getattr(mod, 'TRUSTED', []) + COMMON_TRUST,
        'functions_under_contract': getattr(mod, 'FUNCTIONS', []),
        'bounded_standins': getattr(mod, 'BOUNDED', []),
        'bounded_obligations': nb_ob, 'bounded_discharged': nb_ok,
        'backends': backends, 'solver_s': round(solver, 2),
        'groups': results[:400],
        'evaluations': ev, 'distinct_nontrivial': len(keys),
        'rule': getattr(mod, 'RULE', 'bounded contract monitor on the real code: seeded '
                                     'structured inputs; distinct by generated case'),
        'samples': samples[:5],
        'counterexample_search_evaluations': searched,
        'failed_obligations': [f['name'] for f in failed][:50],
    }
    if level != 'proof':
        cov['explanation'] = getattr(mod, 'EXPLANATION', '')
    with open(os.path.join(ev_dir, f'{pid}.json'), 'w') as f:
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': level,
                   'coverage': cov, 'assumptions': getattr(mod, 'ASSUMPTIONS', []),
                   'wall_s': round(time.time() - t0, 2), 'violations': int(violation)}, f,
                  indent=1, default=str)
    print(f'{pid}: {n_ok}/{n_ob} obligations discharged'
          + (f', {nb_ok}/{nb_ob} bounded' if nb_ob else '')
          + f', {ev} monitored cases, {time.time()-t0:.1f}s')
    return 1 if violation else 0


COMMON_TRUST = [
    'pyvc: the obligation generator of this repository (path-by-path symbolic execution of the '
    'parsed source of /repo, loops cut at invariants)',
    'z3 and cvc5',
    'Python semantics of the supported subset as implemented by pyvc.interp',
]
