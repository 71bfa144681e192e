"""Runs seeds, minimises violations, writes replay files and evidence."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, 'out')


def _prep():
    os.environ.setdefault('MPLBACKEND', 'agg')
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all='ignore')
    sys.unraisablehook = lambda *_: None
    from . import core
    core.install_finders()


def load_props():
    import importlib
    import pkgutil
    from . import props
    for m in sorted(x.name for x in pkgutil.iter_modules(props.__path__)):
        importlib.import_module('sim.props.' + m)
    from .env import SCENARIOS
    return SCENARIOS


def plan_for(prop, seed, index, tier):
    """The plan of run #index is a pure function of (property, seed, index, tier)."""
    scen = load_props()[prop]
    h = hashlib.sha256(('%s/%s/%s/%s' % (prop, seed, index, tier)).encode()).digest()
    rng = random.Random(int.from_bytes(h, 'big'))
    order = sorted(scen, key=lambda s: s.name)
    s = rng.choices(order, [x.weight for x in order])[0]
    p = s.gen(rng, tier)
    plan = {'prop': prop, 'scenario': s.name, 'seed': rng.randrange(2 ** 48), 'p': p,
            'bias': rng.choice([0.0, 0.0, 0.3, 0.7, 0.9])}
    if rng.random() < 0.25:
        f = rng.randrange(0, 40)
        plan['stalls'] = [{'rank': rng.randrange(0, 4), 'from': f, 'to': f + rng.randrange(5, 60)}]
    return json.loads(json.dumps(plan))


def find(prop, name):
    for s in load_props()[prop]:
        if s.name == name:
            return s
    raise KeyError(name)


def execute(plan, scratch, stats=None):
    """One simulated run. -> (violation or None, env)."""
    from .core import Violation
    from .env import Env
    stats = stats if stats is not None else {}
    s = find(plan['prop'], plan['scenario'])
    env = Env(plan, scratch, stats)
    cwd = os.getcwd()
    v = None
    try:
        os.chdir(env.rundir())
        s.run(env, plan['p'])
    except Violation as e:
        v = e
    except (MemoryError, OSError):
        raise
    except Exception as e:
        # the jobs ended normally but what they returned cannot be read by the oracle (wrong type, length, key ...)
        if env.worlds == 0:
            raise
        tb = traceback.extract_tb(e.__traceback__)[-1]
        v = Violation('unreadable-result', '%s: %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
    finally:
        os.chdir(cwd)
        env.cleanup()
    return v, env


# --------------------------------------------------------------------------- minimise
def _shrinks(plan, s):
    """Candidate smaller plans, roughly biggest simplification first."""
    p = plan['p']

    def with_p(**kw):
        q = json.loads(json.dumps(plan))
        q['p'].update(kw)
        return q
    if plan.get('stalls'):
        q = json.loads(json.dumps(plan))
        q['stalls'] = []
        yield q
    for k in sorted(p):
        if k in s.keep or k.endswith('seed'):
            continue
        v = p[k]
        if isinstance(v, list) and v and not isinstance(v[0], (int, float)):
            n = len(v)
            size = n
            while size >= 1:
                for i in range(0, n, size):
                    if n - size >= s.mins.get(k, 0):
                        yield with_p(**{k: v[:i] + v[i + size:]})
                size //= 2
        elif isinstance(v, bool):
            if v:
                yield with_p(**{k: False})
        elif isinstance(v, int):
            lo = s.mins.get(k, 1)
            for c in sorted({lo, (lo + v) // 2, v - 1}):
                if lo <= c < v:
                    yield with_p(**{k: c})


def minimise(plan, kind, scratch, budget_s=60.0, log=None):
    s = find(plan['prop'], plan['scenario'])
    t0 = time.time()
    tries = 0

    def fails(q):
        nonlocal tries
        tries += 1
        try:
            if not s.valid(q['p']):
                return None
            v, env = execute(q, scratch)
        except Exception:
            return None
        if v is not None and v.kind == kind:
            return v, env
        return None
    # make the schedule explicit first
    base = dict(plan)
    r = fails(base)
    if r is None:
        return plan, None, tries
    sched = list(r[1].choices.log)
    cur = json.loads(json.dumps(base))
    cur['sched'] = sched
    last = fails(cur)
    if last is None:
        cur = json.loads(json.dumps(base))
        last = r
    improved = True
    while improved and time.time() - t0 < budget_s:
        improved = False
        # parameters
        for q in _shrinks(cur, s):
            if time.time() - t0 > budget_s:
                break
            for sch in ((cur.get('sched'), []) if cur.get('sched') else (cur.get('sched'),)):
                q2 = json.loads(json.dumps(q))
                q2['sched'] = sch
                r = fails(q2)
                if r is not None:
                    break
            if r is not None:
                cur, last, improved = q2, r, True
                cur['sched'] = list(r[1].choices.log)
                break
        if improved:
            continue
        # schedule: truncate, then zero chunks
        sch = cur.get('sched') or []
        while sch and sch[-1] == 0:
            sch = sch[:-1]
        size = len(sch)
        while size >= 1 and time.time() - t0 < budget_s:
            i = 0
            while i < len(sch) and time.time() - t0 < budget_s:
                if any(sch[i:i + size]):
                    cand = sch[:i] + [0] * len(sch[i:i + size]) + sch[i + size:]
                    q2 = json.loads(json.dumps(cur))
                    q2['sched'] = cand
                    r = fails(q2)
                    if r is not None:
                        sch = cand
                        last = r
                i += size
            size //= 2
        while sch and sch[-1] == 0:
            sch = sch[:-1]
        cur['sched'] = sch
    q = json.loads(json.dumps(cur))
    r = fails(q)
    if r is None:          # must never happen: keep the unshrunk plan
        return plan, None, tries
    return q, r, tries


def write_replay(plan, result, tries, outdir):
    os.makedirs(outdir, exist_ok=True)
    v, env = result
    body = dict(plan)
    w = env.cur_world
    body['violation'] = {'kind': v.kind, 'message': str(v.msg)[:2000]}
    body['digests'] = env.digests
    body['trace'] = [list(map(str, e)) for e in (w.events if w is not None else [])][-400:]
    body['minimiser_tries'] = tries
    name = '%s-%s.json' % (plan['prop'], hashlib.sha1(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:12])
    path = os.path.join(outdir, name)
    with open(path, 'w') as f:
        json.dump(body, f, indent=1, sort_keys=True)
    return path


# --------------------------------------------------------------------------- workers
def _worker(wid, nw, prop, seed, tier, runs, deadline, q, scratch, min_budget, cur):
    try:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        _prep()
        load_props()
        import gc
        gc.collect()
        gc.freeze()
        stats = {}
        scheds = set()
        plans = set()
        samples = []
        done = 0
        steps = 0
        for i in range(wid, runs, nw):
            if time.time() > deadline or cur[nw]:
                break
            plan = plan_for(prop, seed, i, tier)
            cur[wid] = i + 1
            v, env = execute(plan, scratch, stats)
            done += 1
            steps += env.steps
            scheds.update(env.sched_digests)
            if env.nevals:
                plans.add(hashlib.sha1(json.dumps(plan['p'], sort_keys=True).encode()).hexdigest()[:16])
            if len(samples) < 2:
                samples.append({'run': i, 'scenario': plan['scenario'], 'p': plan['p'],
                                'steps': env.steps, 'jobs': env.worlds})
            if v is not None:
                cur[nw] = 1
                cur[wid] = 0
                raw = dict(plan)
                raw['sched'] = list(env.choices.log)
                rawpath = write_replay(raw, (v, env), 0, OUT)
                q.put(('found', i, v.kind, str(v.msg)[:600], rawpath, plan['scenario']))
                mplan, res, tries = minimise(plan, v.kind, scratch, min_budget)
                if res is None:
                    res = (v, env)
                    mplan = dict(plan)
                    mplan['sched'] = list(env.choices.log)
                path = write_replay(mplan, res, tries, OUT)
                if path != rawpath:
                    os.unlink(rawpath)
                q.put(('violation', i, v.kind, str(res[0].msg)[:600], path, plan['scenario']))
                break
            if done % 5 == 0:
                q.put(('tick', wid))
        cur[wid] = 0
        q.put(('done', wid, done, steps, stats, scheds, plans, samples))
    except BaseException:
        q.put(('error', wid, traceback.format_exc()))


def batch(prop, seed, tier, runs, wall, workers=None, min_budget=60.0, hang_s=240.0):
    """Search `runs` seeded runs of a property. -> dict."""
    workers = workers or int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    workers = max(1, min(workers, runs))
    root = tempfile.mkdtemp(prefix='betsim-')
    t0 = time.time()
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    cur = ctx.Array('q', workers + 1)    # run in progress per worker; last: stop flag
    ps = []
    for w in range(workers):
        sc = os.path.join(root, 'w%d' % w)
        os.makedirs(sc)
        p = ctx.Process(target=_worker, args=(w, workers, prop, seed, tier, runs, t0 + wall, q, sc, min_budget, cur))
        p.start()
        ps.append(p)
    res = {'runs': 0, 'steps': 0, 'stats': {}, 'scheds': set(), 'plans': set(), 'samples': [],
           'violations': [], 'errors': []}
    pending = set(range(workers))
    found, grace = {}, float('inf')
    last = {w: (0, time.time()) for w in range(workers)}
    import queue as _q
    try:
        while pending:
            try:
                m = q.get(timeout=2.0)
            except _q.Empty:
                m = None
            now = time.time()
            if m is not None:
                if m[0] == 'found':
                    found[m[1]] = m[1:]
                    grace = min(grace, now + min_budget + 60.0)
                elif m[0] == 'violation':
                    found[m[1]] = m[1:]
                elif m[0] == 'done':
                    _, w, done, steps, stats, scheds, plans, samples = m
                    pending.discard(w)
                    res['runs'] += done
                    res['steps'] += steps
                    for k, v in stats.items():
                        res['stats'][k] = res['stats'].get(k, 0) + v
                    res['scheds'] |= scheds
                    res['plans'] |= plans
                    res['samples'] += samples
                elif m[0] == 'error':
                    pending.discard(m[1])
                    res['errors'].append(m[2])
            for w in list(pending):
                c = cur[w]
                if c != last[w][0]:
                    last[w] = (c, now)
                elif c and now - last[w][1] > hang_s:
                    plan = plan_for(prop, seed, c - 1, tier)
                    plan['violation'] = {'kind': 'hang', 'message': 'run did not finish within %ds' % hang_s}
                    os.makedirs(OUT, exist_ok=True)
                    path = os.path.join(OUT, '%s-hang-%d.json' % (prop, c - 1))
                    with open(path, 'w') as f:
                        json.dump(plan, f, indent=1)
                    found[c - 1] = (c - 1, 'hang', plan['violation']['message'], path, plan['scenario'])
                    grace = now
                if not ps[w].is_alive() and m is None:
                    pending.discard(w)
                    res['errors'].append('worker %d died (exit %s) in run %d' % (w, ps[w].exitcode, c - 1))
            if now > grace:
                break
    finally:
        for p in ps:
            if p.is_alive():
                p.join(0.2)
            if p.is_alive():
                p.terminate()
                p.join(2)
            if p.is_alive():
                p.kill()
                p.join(2)
        shutil.rmtree(root, ignore_errors=True)
    res['violations'] = [found[i] for i in sorted(found)]
    res['wall'] = time.time() - t0
    return res
