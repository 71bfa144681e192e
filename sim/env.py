"""Per-run environment, helper assertions and the scenario registry."""
import os
import random
import shutil
import sys

import numpy as np

from .core import Choices, SimFS, Violation, World

SCENARIOS = {}   # property id -> list of Scenario


class Scenario:
    """One family of simulated runs for a property.

    gen(rng, tier) -> JSON-able dict of parameters; run(env, p) raises Violation.
    mins: lower bounds for integer parameters used by the minimiser."""
    prop = None
    name = None
    weight = 1.0
    mins = {}
    faulty = False
    keep = ()          # parameters the minimiser must not touch

    def gen(self, rng, tier):
        raise NotImplementedError

    def run(self, env, p):
        raise NotImplementedError

    def valid(self, p):
        return True


def register(cls):
    s = cls()
    SCENARIOS.setdefault(s.prop, []).append(s)
    return cls


class Env:
    """Everything one simulated run may touch."""

    def __init__(self, plan, scratch, stats):
        self.plan = plan
        self.stats = stats
        self.scratch = scratch
        if plan.get('sched') is not None:
            self.choices = Choices(replay=plan['sched'])
        else:
            self.choices = Choices(seed=plan['seed'], bias=plan.get('bias', 0.0))
        self.worlds = 0
        self.steps = 0
        self.digests = []
        self.sched_digests = []
        self.dir = None
        self.cur_world = None
        self.nevals = 0

    def data(self, seed, salt=0):
        return np.random.RandomState((int(seed) * 7919 + salt) % (2 ** 32))

    def rundir(self):
        if self.dir is None:
            self.dir = os.path.join(self.scratch, 'run')
            shutil.rmtree(self.dir, ignore_errors=True)
            os.makedirs(self.dir)
        return self.dir

    def new_fs(self, bufsize=None, chunk=0):
        return SimFS(self.rundir(), bufsize=bufsize, chunk=chunk)

    def job(self, n, program, rng_seed=0, rng_mode='distinct', **kw):
        """Launch one simulated job of n ranks and run it to quiescence."""
        if self.plan.get('stalls') and n > 1:
            kw.setdefault('stalls', self.plan['stalls'])
        w = World(n, self.choices, rng_seed=rng_seed, rng_mode=rng_mode, stats=self.stats, **kw)
        self.cur_world = w
        self.worlds += 1
        w.run(program)
        self.steps += w.step
        self.digests.append(w.digest())
        if n > 1:
            self.sched_digests.append(w.schedule_digest())
        self.stats['jobs'] = self.stats.get('jobs', 0) + 1
        self.stats['ranks:%d' % n] = self.stats.get('ranks:%d' % n, 0) + 1
        return w

    def hit(self, probe, k=1):
        """Rare-condition probe: counted in the evidence."""
        key = 'probe:' + probe
        self.stats[key] = self.stats.get(key, 0) + k

    def evals(self, k=1):
        self.nevals += k
        self.stats['oracle_evaluations'] = self.stats.get('oracle_evaluations', 0) + k

    def cleanup(self):
        if self.dir is not None:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None

    # ------------------------------------------------------------------ assertions
    def check(self, cond, kind, msg=''):
        self.evals()
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)

    def equal(self, got, want, kind, what=''):
        """Exact equality of arrays/None."""
        self.evals()
        if want is None or got is None:
            if (want is None) != (got is None):
                raise Violation(kind, '%s: got %s, expected %s' % (what, _s(got), _s(want)))
            return
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            raise Violation(kind, '%s: shape %s, expected %s' % (what, g.shape, w.shape))
        same = (g == w)
        if g.dtype.kind in 'fc' and w.dtype.kind in 'fc':
            same = same | (np.isnan(g) & np.isnan(w))
        if not np.all(same):
            raise Violation(kind, '%s: %s, expected %s' % (what, _s(g), _s(w)))

    def close(self, got, want, kind, what='', rtol=1e-9, atol=1e-11):
        self.evals()
        if want is None or got is None:
            if (want is None) != (got is None):
                raise Violation(kind, '%s: got %s, expected %s' % (what, _s(got), _s(want)))
            return
        g, w = np.asarray(got), np.asarray(want)
        if g.dtype == object or w.dtype == object:
            raise Violation(kind, '%s: %s, expected %s' % (what, _s(got), _s(want)))
        if g.shape != w.shape:
            raise Violation(kind, '%s: shape %s, expected %s' % (what, g.shape, w.shape))
        if not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True):
            d = np.abs(g - w)
            raise Violation(kind, '%s: max difference %g: %s, expected %s' % (what, np.nanmax(d), _s(g), _s(w)))

    def replicated(self, per_rank, kind, what=''):
        for r in range(1, len(per_rank)):
            self.equal(per_rank[r], per_rank[0], kind, '%s on rank %d vs rank 0' % (what, r))


def _s(x):
    t = repr(x).replace('\n', ' ')
    return t if len(t) < 160 else t[:157] + '...'


FORCE_N = [None]


def pick_n(rng, tier, lo=1, hi=None, many=0.0):
    """Rank counts: mostly small, sometimes more ranks than data."""
    if FORCE_N[0]:
        return FORCE_N[0]
    hi = hi or (9 if tier == 'thorough' else 7)
    n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9])
    if many and rng.random() < many:
        return rng.randint(10, 12)          # rank numbers of two digits
    return max(lo, min(hi, n))


def split(a, n, r):
    """The block decomposition stated by numpy.array_split (the reference partition)."""
    return np.array_split(a, n)[r]
