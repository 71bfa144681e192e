"""Development aid: tally violation classes over many runs without stopping.
   python -m sim.survey P01 400 [tier] [seed]"""
import collections
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback
from . import runner


def work(a):
    prop, seed, tier, idx = a
    out = []
    sc = tempfile.mkdtemp(prefix='betsim-')
    for i in idx:
        plan = runner.plan_for(prop, seed, i, tier)
        t = time.time()
        try:
            v, env = runner.execute(plan, sc)
            out.append((i, plan['scenario'], v.kind if v else None, str(v.msg)[:400] if v else '', time.time() - t,
                        env.digests, dict(env.stats)))
        except Exception:
            out.append((i, plan['scenario'], 'HARNESS', traceback.format_exc()[-800:], time.time() - t, [], {}))
    shutil.rmtree(sc, ignore_errors=True)
    return out


def main():
    prop, n = sys.argv[1], int(sys.argv[2])
    tier = sys.argv[3] if len(sys.argv) > 3 else 'quick'
    seed = sys.argv[4] if len(sys.argv) > 4 else '1'
    runner._prep()
    runner.load_props()
    only = os.environ.get('ONLY')
    chunks = [(prop, seed, tier, list(range(w, n, 32))) for w in range(32)]
    t0 = time.time()
    with mp.get_context('fork').Pool(8) as pool:
        res = [x for c in pool.map(work, chunks, 1) for x in c]
    print('wall %.1f' % (time.time() - t0))
    by = collections.OrderedDict()
    times = collections.defaultdict(list)
    st = collections.Counter()
    for i, sc, k, msg, t, d, s in sorted(res):
        times[sc].append(t)
        st.update(s)
        if k:
            by.setdefault((sc, k, msg[:30] if os.environ.get('FINE') else ''), []).append((i, msg))
    for sc in sorted(times):
        print('%-22s runs %5d  mean %.3fs max %.2fs' % (sc, len(times[sc]), sum(times[sc]) / len(times[sc]), max(times[sc])))
    for (sc, k, _), v in by.items():
        print('--', sc, k, len(v), 'e.g. run', v[0][0], v[0][1])
    if os.environ.get('STATS'):
        for k in sorted(st):
            print('  ', k, st[k])
    import hashlib
    print('digest', hashlib.sha1(repr([(r[0], r[2], r[5]) for r in sorted(res, key=lambda r: r[0])]).encode()).hexdigest())


if __name__ == '__main__':
    main()
