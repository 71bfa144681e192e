"""P17: without mpi4py everything works as a job of one process, with the same results."""
import json

import numpy as np

from .. import env as env_mod
from ..env import SCENARIOS, Env, Scenario, register


class Forwarding:
    """The run environment handed to another property's scenario; launches its jobs with or without mpi4py."""

    def __init__(self, env, no_mpi):
        self._env, self._no_mpi, self.results = env, no_mpi, []

    def __getattr__(self, k):
        return getattr(self._env, k)

    def job(self, n, program, *a, **kw):
        w = self._env.job(n, program, *a, no_mpi=self._no_mpi, **kw)
        self.results.append([r.value for r in w.ranks])
        return w


def same(a, b):
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype == object:
            return all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return a.tobytes() == b.tobytes() or np.array_equal(a, b)
    if isinstance(a, (bool, int, str, bytes, type(None))):
        return type(a) is type(b) and a == b
    if isinstance(a, float):
        return isinstance(b, float) and (a == b or a != a)
    return True


@register
class Serial(Scenario):
    prop = 'P17'
    name = 'without_mpi4py'
    keep = ('target', 'q')

    def targets(self):
        return sorted((k, s.name) for k, v in SCENARIOS.items() if k != 'P17' for s in v)

    def gen(self, rng, tier):
        props = sorted({k for k, _ in self.targets()})
        prop = rng.choice(props)
        order = sorted(SCENARIOS[prop], key=lambda s: s.name)
        s = rng.choices(order, [x.weight for x in order])[0]
        env_mod.FORCE_N[0] = 1
        try:
            q = s.gen(rng, tier)
        finally:
            env_mod.FORCE_N[0] = None
        return {'target': [prop, s.name], 'q': q, 'twin': rng.random() < 0.5}

    def run(self, env, p):
        prop, name = p['target']
        s = [x for x in SCENARIOS[prop] if x.name == name][0]
        if not s.valid(p['q']):
            return
        env.hit('target:' + prop)
        a = Forwarding(env, True)
        s.run(a, json.loads(json.dumps(p['q'])))
        if p['twin']:
            env.cleanup()
            b = Forwarding(env, False)
            import os
            os.chdir(env.rundir())
            s.run(b, json.loads(json.dumps(p['q'])))
            env.check(len(a.results) == len(b.results), 'different-jobs', '%s %s' % (prop, name))
            for k, (x, y) in enumerate(zip(a.results, b.results)):
                env.check(same(x, y), 'differs-from-mpi4py-job-of-one', lambda: '%s %s job %d: %r vs %r' % (prop, name, k, x, y))


@register
class Communicator(Scenario):
    """The communicator offered without mpi4py answers the object calls as a job of one process does."""
    prop = 'P17'
    name = 'communicator'
    weight = 0.05

    def gen(self, rng, tier):
        return {'calls': [[rng.choice(['allgather', 'gather', 'allreduce', 'bcast', 'scatter', 'barrier', 'Barrier', 'ids', 'Bcast', 'Allreduce']), rng.choice(['int', 'list', 'dict', 'array', 'str', 'float'])]
                          for _ in range(rng.randint(1, 8))], 'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        def value(kind, rs):
            return {'int': int(rs.randint(9)), 'list': [int(x) for x in rs.randint(0, 9, 3)], 'dict': {'a': float(rs.rand())}, 'array': rs.rand(3), 'str': 'abc', 'float': float(rs.rand())}[kind]

        def program(R):
            C = R.mod('bet.Comm')
            rs = np.random.RandomState(p['data_seed'])
            out = []
            for call, kind in p['calls']:
                v = value(kind, rs)
                if call == 'allreduce':
                    v = v if kind in ('int', 'float', 'array') else 3
                    out.append(C.comm.allreduce(v, op=C.MPI.SUM))
                elif call == 'scatter':
                    out.append(C.comm.scatter([[v], (v,), np.array([[1.5, 2.5]])][rs.randint(3)], root=0))
                elif call in ('gather', 'bcast'):
                    out.append(getattr(C.comm, call)(v, root=0))
                elif call == 'allgather':
                    out.append(C.comm.allgather(v))
                elif call == 'Bcast':
                    a = rs.rand(4)
                    C.comm.Bcast([a, C.MPI.DOUBLE], root=0)
                    out.append(a)
                elif call == 'Allreduce':
                    # as everywhere in bet: the receiving array starts as a copy of the sent one
                    a = rs.rand(4)
                    b = np.copy(a)
                    C.comm.Allreduce([a, C.MPI.DOUBLE], [b, C.MPI.DOUBLE], op=rs.choice([C.MPI.SUM, C.MPI.MAX]))
                    out.append(b)
                elif call == 'ids':
                    out.append([C.comm.rank, C.comm.size, C.comm.Get_rank(), C.comm.Get_size(), C.rank, C.size])
                else:
                    out.append(getattr(C.comm, call)())
            return out
        a = env.job(1, program, no_mpi=True).require_clean('communicator without mpi4py')[0]
        b = env.job(1, program).require_clean('communicator')[0]
        for (call, kind), x, y in zip(p['calls'], a, b):
            env.check(same(x, y), 'differs-from-mpi4py-job-of-one', lambda: '%s of %s: %r vs %r' % (call, kind, x, y))
