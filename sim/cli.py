import json
import os
import subprocess
import sys
import tempfile
import time

from . import runner
from .budget import WALL, runs as run_count

VERIF = runner.VERIF


def known_findings():
    path = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith('fixed:'):
                out.append(json.loads(line))
    return out


def evidence(prop, tier, seed, res, nviol):
    from .meta import META
    m = META.get(prop, {})
    st = res['stats']
    wall = max(res['wall'], 1e-6)
    faults = {k[6:]: v for k, v in sorted(st.items()) if k.startswith('fault:')}
    probes = {k[6:]: v for k, v in sorted(st.items()) if k.startswith('probe:')}
    nprocs = {k[6:]: v for k, v in sorted(st.items()) if k.startswith('ranks:')}
    ev = {
        'property': prop, 'tier': tier, 'seed': int(seed) if str(seed).lstrip('-').isdigit() else 0, 'level': 'exploration',
        'coverage': {
            'evaluations': res['runs'],
            'distinct_nontrivial': len(res['plans']),
            'rule': 'evaluations = simulated runs, each a seeded plan (workload, schedule, faults); distinct_nontrivial = '
                    'distinct workload parameter sets (sha1) whose run reached at least one oracle comparison',
            'oracle_comparisons': int(st.get('oracle_evaluations', 0)),
            'samples': res['samples'][:4],
            'runs_per_hour': round(3600.0 * res['runs'] / wall),
            'simulated_jobs': int(st.get('jobs', 0)),
            'simulated_time': '%d scheduler steps (the code has no clock or timer; a step is one atomic segment '
                              'of one rank between two scheduling points)' % res['steps'],
            'scheduler_steps': res['steps'],
            'collectives': int(st.get('collectives', 0)),
            'disk_operations': int(st.get('fs_ops', 0)),
            'distinct_interleavings': len(res['scheds']),
            'interleaving_measure': 'distinct sha1 of the per-job sequence of (event kind, rank, operation) at '
                                    'collectives, disk operations and pauses, jobs of 2+ ranks',
            'jobs_by_rank_count': nprocs,
            'faults_fired': faults,
            'probes': probes,
            'real_components': m.get('real', 'all bet.* modules from the working tree (one private copy per rank), '
                                             'numpy, scipy, pyDOE, pickle, CPython buffered I/O'),
            'stub_components': m.get('stub', 'mpi4py communicator (simulated), process scheduling, raw file layer '
                                             '(fault-injecting FileIO over a scratch directory), user model'),
        },
        'wall_s': round(wall, 2),
        'violations': nviol,
        'assumptions': m.get('assumptions', [
            'ranks interact only through the communicator and the file system, so interleaving at those points '
            'covers every observable schedule',
            'sampling, not proof: only the generated plans are covered']),
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)


def do_run(prop, tier, seed):
    n = int(os.environ.get('VERIF_RUNS', '0')) or run_count(prop, tier)
    print('seed=%s property=%s tier=%s runs=%d' % (seed, prop, tier, n))
    sys.stdout.flush()
    runner._prep()
    scen = runner.load_props()
    if prop not in scen:
        print('no scenarios for', prop)
        return 3
    wall = float(os.environ.get('VERIF_WALL', WALL[tier]))
    res = runner.batch(prop, seed, tier, n, wall)
    for e in res['errors']:
        print('HARNESS-ERROR', e)
    new = []
    for k in known_findings():
        if k['property'] == prop:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    seen = set()
    for (i, kind, msg, path, scn) in res['violations']:
        key = (scn, kind)
        if key in seen:
            continue
        seen.add(key)
        new.append(path)
        print('run %d scenario %s: %s: %s' % (i, scn, kind, msg))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if not os.environ.get('VERIF_NO_EVIDENCE'):
        evidence(prop, tier, seed, res, len(new))
    print('runs=%d steps=%d interleavings=%d wall=%.1fs violations=%d' % (
        res['runs'], res['steps'], len(res['scheds']), res['wall'], len(new)))
    if new:
        return 1
    if res['errors']:
        return 2
    return 0


def do_replay(path):
    runner._prep()
    runner.load_props()
    with open(path) as f:
        plan = json.load(f)
    want = plan.pop('violation', {}).get('kind')
    digests = plan.pop('digests', None)
    plan.pop('trace', None)
    plan.pop('minimiser_tries', None)
    scratch = tempfile.mkdtemp(prefix='betsim-')
    try:
        v, env = runner.execute(plan, scratch)
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
    if v is None:
        print('replay: no violation')
        return 0
    print('%s: %s' % (v.kind, v.msg))
    print('same kind: %s  same event log: %s' % (v.kind == want, digests is None or digests == env.digests))
    print('VIOLATION property=%s replay=%s' % (plan['prop'], path))
    return 1


def main(argv):
    seed = os.environ.get('VERIF_SEED', '1')
    if argv[0] == 'replay':
        return do_replay(argv[1])
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return do_run(argv[0], tier, seed)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
