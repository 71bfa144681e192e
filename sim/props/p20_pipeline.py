"""P20: a whole analysis spread over several jobs, interrupted and restarted anywhere, gives the answer of one uninterrupted run."""
import os

import numpy as np

from .. import build, ref
from ..core import Violation
from ..env import Scenario, pick_n, register, split

FAULTS = ['crash', 'crash', 'torn_crash', 'enospc', 'eio_write', 'eio_close', 'emfile_open', 'eio_read']


@register
class Pipeline(Scenario):
    prop = 'P20'
    name = 'pipeline'
    faulty = True
    mins = {'n1': 1, 'n2': 1, 'n3': 1, 'num': 4, 'enum': 1, 'dim': 1, 'odim': 1, 'at': 0, 'bufsize': 0, 'nb': 1}

    def gen(self, rng, tier):
        return {'n1': pick_n(rng, tier, hi=6), 'n2': pick_n(rng, tier, hi=6), 'n3': pick_n(rng, tier, hi=6), 'num': rng.choice([4, 7, 12, 25, 41]), 'enum': rng.choice([5, 20, 61]),
                'dim': rng.randint(1, 3), 'odim': rng.randint(1, 2), 'source': rng.choice(['random', 'random', 'lhs', 'grid', 'given']), 'g1': rng.random() < 0.6,
                'per': rng.random() < 0.35, 'localize': rng.random() < 0.5,
                'dist': rng.choice(['reg_scaled', 'reg_size', 'uni_scaled', 'data', 'normal', 'user', 'uni_normal']),
                'vols': rng.choice(['mc', 'emulated', 'exact', 'estimate']), 'algo': rng.choice(['prob', 'prob', 'emu']), 'gp': rng.random() < 0.7,
                'fault_stage': rng.choice([0, 0, 1, 2, 2, 3]), 'fault': rng.choice(FAULTS), 'at': rng.choice([0, 1, 2, 4, 7, 12, 20, 33]), 'frac': rng.choice([0.0, 0.4, 0.9]),
                'again': rng.random() < 0.4, 'bufsize': rng.choice([0, 256, 4096]), 'nb': rng.randint(2, 5), 'rng_mode': 'distinct',
                'rng_seed': rng.randrange(10 ** 6), 'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        dim, odim = p['dim'], p['odim']
        rs = env.data(p['data_seed'])
        dom = build.domain(rs, dim)
        w = dom[:, 1] - dom[:, 0]
        A = rs.randn(dim, odim)
        f = lambda X: np.sin(X).dot(A) + 0.1 * X.sum(1)[:, None]
        grid = 2 if dim == 3 else 3
        num = grid ** dim if p['source'] == 'grid' else p['num']
        X0 = dom[:, 0] + w * rs.rand(num, dim)
        E = dom[:, 0] + w * rs.rand(p['enum'], dim)
        T = dom[:, 0] + w * rs.rand(5, dim)
        refin = dom[:, 0] + w * rs.uniform(0.3, 0.7, dim)
        UV, UP = f(dom[:, 0] + w * rs.rand(4, dim)), rs.rand(4) + 0.1
        UP /= UP.sum()
        vols = p['vols']
        if vols == 'exact' and (dim == 3 or num < 5):
            vols = 'mc'
        n1, n2 = p['n1'], p['n2']
        n3 = n2 if p['per'] else p['n3']
        n2 = n2 if p['g1'] else n1
        if not p['g1'] and p['per']:
            n3 = n2

        def stage1(R):
            sample, bs = R.mod('bet.sample'), R.mod('bet.sampling.basicSampling')
            sm = bs.sampler(lambda x: f(x) if np.ndim(x) > 1 else f(np.array(x)[None])[0])
            s = sample.sample_set(dim)
            s.set_domain(np.array(dom))
            s.set_reference_value(np.array(refin))
            if p['source'] == 'random':
                s = sm.random_sample_set('random', s, num, globalize=p['g1'])
            elif p['source'] == 'lhs':
                s = sm.lhs_sample_set(s, num, 'center', globalize=p['g1'])
            elif p['source'] == 'grid':
                s = sm.regular_sample_set(s, [grid] * dim)
            else:
                s.set_values(np.array(X0))
            d = sm.compute_qoi_and_create_discretization(s, savefile='stage1', globalize=p['g1'])
            i = d.get_input_sample_set()
            return np.array(i.get_values_local()), np.array(d.get_output_sample_set().get_values_local())

        def dist(R, d):
            sf = R.mod('bet.calculateP.simpleFunP')
            k = p['dist']
            q = f(refin[None])[0]
            if k == 'reg_scaled':
                sf.regular_partition_uniform_distribution_rectangle_scaled(d, q, 0.4, 2)
            elif k == 'reg_size':
                sf.regular_partition_uniform_distribution_rectangle_size(d, q, 0.5, 2)
            elif k == 'uni_scaled':
                sf.uniform_partition_uniform_distribution_rectangle_scaled(d, q, 0.4, 6, 40)
            elif k == 'data':
                sf.uniform_partition_uniform_distribution_data_samples(d)
            elif k == 'normal':
                sf.normal_partition_normal_distribution(d, q, std=0.3, M=4, num_d_emulate=50)
            elif k == 'uni_normal':
                sf.uniform_partition_normal_distribution(d, q, std=0.3, M=4, num_d_emulate=50)
            else:
                a = R.mod('bet.sample').sample_set(odim)
                a.set_values(np.array(UV))
                b = R.mod('bet.sample').sample_set(odim)
                b.set_values(np.repeat(UV, 3, 0))
                sf.user_partition_user_distribution(d, a, b)

        def stage2(R):
            cp, util = R.mod('bet.calculateP.calculateP'), R.mod('bet.util')
            if p['g1']:
                d = util.load_object('stage1', localize=p['localize'])
            else:
                d = util.load_object_parallel('stage1') if R.size > 1 else util.load_object('stage1')
                d.local_to_global()
            i = d.get_input_sample_set()
            emu = R.mod('bet.sample').sample_set(dim)
            emu.set_domain(np.array(dom))
            emu.set_values(np.array(E))
            d.set_emulated_input_sample_set(emu)
            dist(R, d)
            if vols == 'mc':
                i.estimate_volume_mc()
            elif vols == 'emulated':
                d.estimate_input_volume_emulated()
            elif vols == 'exact':
                (i.exact_volume_1D if dim == 1 else i.exact_volume_2D)()
            else:
                i.estimate_volume(n_mc_points=200)
            if p['algo'] == 'prob':
                cp.prob(d, globalize=p['gp'])
            else:
                cp.prob_on_emulated_samples(d, globalize=p['gp'])
            if not p['gp']:
                (i if p['algo'] == 'prob' else emu).local_to_global()
            s = d.get_output_probability_set()
            if s._left is not None:
                spec = {'kind': 'rect', 'lo': np.array(s._left[:-1]), 'hi': np.array(s._right[:-1])}
            else:
                spec = {'kind': 'voronoi', 'values': np.array(s.get_values()), 'p': s.get_p_norm()}
            spec['prob'] = np.array(s.get_probabilities())
            res = {'X': np.array(i.get_values()), 'Y': np.array(d.get_output_sample_set().get_values()), 'vol': np.array(i.get_volumes()), 'spec': spec,
                   'P': np.array((i if p['algo'] == 'prob' else emu).get_probabilities())}
            R.world.ranks[R.rank].value = res
            d.save('stage2', globalize=not p['per'])
            return res

        def stage3(R):
            cp, util, pp, pt = R.mod('bet.calculateP.calculateP'), R.mod('bet.util'), R.mod('bet.postProcess.plotP'), R.mod('bet.postProcess.postTools')
            if p['per']:
                d = util.load_object_parallel('stage2') if R.size > 1 else util.load_object('stage2')
            else:
                d = util.load_object('stage2', localize=p['localize'])
            i, e = d.get_input_sample_set(), d.get_emulated_input_sample_set()
            s = i if p['algo'] == 'prob' else e
            new = R.mod('bet.sample').sample_set(dim)
            new.set_values(np.array(T))
            t = np.array(cp.prob_from_sample_set(s, new))
            b, m = pp.calculate_1D_marginal_probs(s, nbins=p['nb'])
            k, _, idx = pt.sample_highest_prob(0.6, s)
            return {'t': t, 'm': [np.array(m[j]) for j in range(dim)], 'k': int(k), 'idx': np.array(idx), 'X': np.array(i.get_values()), 'vol': np.array(i.get_volumes()),
                    'P': np.array(s.get_probabilities()), 'Y': np.array(d.get_output_sample_set().get_values()), 'q': d.get_output_sample_set().get_reference_value()}

        def stage(k, n, program):
            """Run one stage; a fault in it means the operator runs it again."""
            fs = env.new_fs(p['bufsize'] or None)
            if p['fault_stage'] == k:
                w_ = env.job(n, program, p['rng_seed'] + k, p['rng_mode'], fs=fs, faults=[{'kind': p['fault'], 'at': p['at'], 'frac': p['frac']}])
                if w_.violation is not None:
                    raise w_.violation
                if fs.fired:
                    env.hit('interrupted_stage_%d' % k)
                    fs = env.new_fs(p['bufsize'] or None)
                else:
                    return w_.require_clean('stage %d' % k)
            vals = env.job(n, program, p['rng_seed'] + 10 * k, p['rng_mode'], fs=fs).require_clean('stage %d' % k)
            if p['again'] and k == 2:       # run once more: replaces the earlier result
                vals = env.job(n, program, p['rng_seed'] + 100, p['rng_mode'], fs=env.new_fs(p['bufsize'] or None)).require_clean('stage 2 again')
            return vals

        a = stage(1, n1, stage1)
        X = np.vstack([v[0] for v in a])
        env.check(X.shape == (num, dim), 'wrong-sample-count', 'stage 1')
        env.close(np.vstack([v[1] for v in a]), f(X), 'outputs-not-paired', 'stage 1')
        b = stage(2, n2, stage2)
        near = ref.nearest(X, E)
        for r, v in enumerate(b):
            what = 'stage 2 rank %d of %d (stage 1 by %d)' % (r, n2, n1)
            env.equal(v['X'], X, 'wrong-samples', what)
            env.close(v['Y'], f(X), 'wrong-outputs', what)
            spec = v['spec']
            for k in spec:
                if k not in ('kind', 'p'):
                    env.equal(spec[k], b[0]['spec'][k], 'distribution-not-replicated', what)
            env.close(spec['prob'].sum(), 1.0, 'distribution-not-normalized', what)
            env.check(np.all(spec['prob'] >= 0), 'negative-probability', what)
            if vols == 'mc':
                vol = np.full(num, 1.0 / num)
            elif vols == 'emulated':
                vol = ref.counts(near, num) / len(E)
            elif vols == 'exact':
                vol = ref.volumes_1d(X[:, 0], dom[0]) if dim == 1 else ref.volumes_2d(X, dom)
            else:
                vol = v['vol']
                env.equal(vol, b[0]['vol'], 'volumes-not-replicated', what)
                env.close(vol.sum(), 1.0, 'volumes-do-not-sum-to-one', what)
            if vols == 'exact' and dim == 2 and np.abs(v['vol'] - vol).max() > 1e-6:
                vol = v['vol']              # the mirrored-points method is approximate near the boundary (P07 decides it)
            env.close(v['vol'], vol, 'wrong-volumes', what, rtol=1e-6, atol=1e-7)
            cell = ref.in_cells(spec, f(X))
            P = ref.inverse_prob(cell, v['vol'], spec['prob']) if p['algo'] == 'prob' else ref.emulated_prob(cell[near], spec['prob'])
            env.close(v['P'], P, 'wrong-probability', what)
        c = stage(3, n3, stage3)
        src = X if p['algo'] == 'prob' else E
        for r, v in enumerate(c):
            what = 'stage 3 rank %d of %d (stage 2 by %d, stage 1 by %d)' % (r, n3, n2, n1)
            env.equal(v['X'], X, 'wrong-samples', what)
            env.close(v['Y'], f(X), 'wrong-outputs', what)
            env.close(v['vol'], b[0]['vol'], 'wrong-volumes', what)
            env.close(v['P'], P, 'wrong-probability', what)
            env.close(np.ravel(v['q']), f(refin[None])[0], 'reference-lost', what)
            env.close(v['t'], ref.transfer(ref.nearest(T, src), P, 5), 'wrong-transfer', what)
            if p['algo'] == 'prob':
                for j in range(dim):
                    env.close(v['m'][j], np.histogram(src[:, j], bins=np.linspace(dom[j, 0], dom[j, 1], p['nb'] + 1), weights=P)[0], 'wrong-marginal', what)
            env.check(v['k'] == c[0]['k'], 'not-replicated', what)
            env.equal(v['idx'], c[0]['idx'], 'not-replicated', what)
            env.check(len(set(v['idx'].tolist())) == v['k'] and P[v['idx']].sum() <= 0.6 + 1e-9, 'wrong-selection', what)
