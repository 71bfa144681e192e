"""P09: drawing sample sets; P10: evaluating the model over a distributed sample set; P19: resampling."""
import numpy as np
from scipy import stats

from .. import build, ref
from ..env import Scenario, pick_n, register, split

def dkw(env, x, cdf, what):
    """Dvoretzky-Kiefer-Wolfowitz: the empirical distribution of N draws is farther than 3.5 / sqrt(N) away with probability 5e-11."""
    x = np.sort(np.asarray(x, float))
    N = len(x)
    if N:
        F = cdf(x)
        D = max((np.arange(1, N + 1) / N - F).max(), (F - np.arange(N) / N).max())
        env.check(D * np.sqrt(N) < 3.5, 'wrong-distribution', lambda: '%s: %d draws, distance %.3f to the distribution' % (what, N, D))


def uncorrelated(env, G, what, cor=0.0):
    N, dim = G.shape
    for i in range(dim):
        for j in range(i):
            if N > 60 and np.std(G[:, i]) > 0 and np.std(G[:, j]) > 0:
                c = np.corrcoef(G[:, i], G[:, j])[0, 1]
                want = cor if np.isscalar(cor) else cor[i, j]
                env.check(abs(np.arctanh(np.clip(c, -1 + 1e-15, 1 - 1e-15)) - np.arctanh(want)) * np.sqrt(N - 3) < 8, 'wrong-dependence', lambda: '%s: correlation %.3f of coordinates %d, %d, expected %.3f' % (what, c, j, i, want))


RV = {'uniform': {'loc': -1.5, 'scale': 3.0}, 'norm': {'loc': 2.0, 'scale': 0.5}, 'beta': {'a': 2.0, 'b': 3.0, 'loc': 1.0, 'scale': 2.0},
      'expon': {'loc': 1.0, 'scale': 2.0}}


def moments(name, args):
    a = dict(args)
    loc, sc = a.get('loc', 0.0), a.get('scale', 1.0)
    if name == 'uniform':
        return loc + sc / 2, sc / np.sqrt(12), (loc, loc + sc)
    if name == 'norm':
        return loc, sc, (-np.inf, np.inf)
    if name == 'expon':
        return loc + sc, sc, (loc, np.inf)
    x, y = a['a'], a['b']
    return loc + sc * x / (x + y), sc * np.sqrt(x * y / ((x + y) ** 2 * (x + y + 1))), (loc, loc + sc)


def check_partition(env, vals, num, dim, what, n, key='values', lkey='local'):
    """Global array replicated, and equal to the concatenation of the local ones, with balanced blocks."""
    G = vals[0][key]
    env.check(G is not None and G.shape == (num, dim), 'wrong-sample-count',
              lambda: '%s: global shape %s, expected %s' % (what, None if G is None else G.shape, (num, dim)))
    env.replicated([v[key] for v in vals], 'not-replicated', what)
    L = [v[lkey] for v in vals]
    env.equal(np.vstack(L), G, 'local-parts-differ-from-global', what)
    sizes = [len(x) for x in L]
    env.check(max(sizes) - min(sizes) <= 1, 'unbalanced', lambda: '%s: local sizes %s' % (what, sizes))
    return G


@register
class Sampling(Scenario):
    prop = 'P09'
    name = 'sampling'
    mins = {'n': 1, 'num': 1, 'dim': 1}

    def gen(self, rng, tier):
        return {'n': pick_n(rng, tier), 'num': rng.choice([1, 2, 3, 5, 10, 17, 40, 100, 601, 1500]), 'dim': rng.randint(1, 4),
                'how': rng.choice(['r', 'random', 'uniform', 'named', 'pair', 'list', 'lhs', 'lhs', 'lhs_direct', 'lhs_direct', 'grid', 'grid']),
                'obj': rng.choice(['int', 'domain', 'set', 'set_domain', 'used_set']), 'sampler': rng.random() < 0.5,
                'globalize': rng.random() < 0.6, 'criterion': rng.choice(['center', 'c', None, 'maximin', 'm', 'cm']),
                'names': [rng.choice(sorted(RV)) for _ in range(4)], 'per': [rng.randint(1, 5) for _ in range(4)],
                'scalar_per': rng.random() < 0.4, 'rng_mode': rng.choice(['distinct', 'distinct', 'identical']),
                'rng_seed': rng.randrange(10 ** 6), 'twice': rng.random() < 0.2, 'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        n, num, dim = p['n'], p['num'], p['dim']
        rs = env.data(p['data_seed'])
        dom = build.domain(rs, dim)
        lhs = p['how'].startswith('lhs')
        if lhs and p['criterion'] in ('maximin', 'm', 'cm') and (num > 60 or num < 2):
            num = 9
        if p['obj'] in ('int', 'set'):
            eff_dom = np.repeat([[0.0, 1.0]], dim, 0)
        else:
            eff_dom = dom
        per = [p['per'][0]] * dim if p['scalar_per'] else p['per'][:dim]
        if p['how'] == 'grid':
            num = int(np.prod(per))
        used = rs.rand(max(1, num // 2), dim)

        def program(R):
            sample = R.mod('bet.sample')
            bs = R.mod('bet.sampling.basicSampling')
            sm = bs.sampler(lambda x: x) if p['sampler'] else bs

            def obj():
                if p['obj'] == 'int':
                    return dim
                if p['obj'] == 'domain':
                    return np.array(dom)
                s = sample.sample_set(dim)
                if p['obj'] != 'set':
                    s.set_domain(np.array(dom))
                if p['obj'] == 'used_set':
                    s.set_values(np.array(used))
                    s.global_to_local()
                return s
            out = []
            for _ in range(2 if p['twice'] else 1):
                o = obj()
                g = p['globalize']
                if p['how'] in ('r', 'random', 'uniform'):
                    s = sm.random_sample_set(p['how'], o, num, globalize=g)
                elif p['how'] == 'named':
                    s = sm.random_sample_set(p['names'][0] if p['names'][0] != 'beta' else 'norm', o, num, globalize=g)
                elif p['how'] == 'pair':
                    s = sm.random_sample_set([p['names'][0], dict(RV[p['names'][0]])], o, num, globalize=g)
                elif p['how'] == 'list':
                    s = sm.random_sample_set([[k, dict(RV[k])] for k in p['names'][:dim]], o, num, globalize=g)
                elif p['how'] == 'lhs':
                    s = sm.random_sample_set('lhs', o, num, globalize=g)
                elif p['how'] == 'lhs_direct':
                    s = sm.lhs_sample_set(o, num, criterion=p['criterion'], globalize=g)
                else:
                    s = sm.regular_sample_set(o, num_samples_per_dim=per[0] if p['scalar_per'] else np.array(per))
                loc = np.array(s.get_values_local())
                # whatever global array is visible before globalizing must belong to this draw
                early = None if s.get_values() is None else np.array(s.get_values())
                if not g and p['how'] != 'grid':
                    s.local_to_global()
                out.append({'values': None if s.get_values() is None else np.array(s.get_values()), 'local': loc, 'early': early,
                            'dom': np.array(s.get_domain()), 'num': s.check_num(),
                            'kept': (not p['sampler']) or sm.input_sample_set is s})
            return out
        vals = env.job(n, program, p['rng_seed'], p['rng_mode']).require_clean(p['how'])
        if p['how'] in ('r', 'random', 'uniform'):
            rv = [('uniform', {'loc': d[0], 'scale': d[1] - d[0]}) for d in eff_dom]
        elif p['how'] == 'named':
            k = p['names'][0] if p['names'][0] != 'beta' else 'norm'
            rv = [(k, {} if p['obj'] in ('int', 'set') else {'loc': d[0], 'scale': d[1] - d[0]}) for d in eff_dom]
        elif p['how'] == 'pair':
            rv = [(p['names'][0], RV[p['names'][0]])] * dim
        elif p['how'] == 'list':
            rv = [(k, RV[k]) for k in p['names'][:dim]]
        for k in range(len(vals[0])):
            what = '%s %d samples over %d ranks' % (p['how'], num, n)
            v = [x[k] for x in vals]
            G = check_partition(env, v, num, dim, what, n)
            for r in range(n):
                env.check(v[r]['num'] == num, 'wrong-sample-count', what)
                env.check(v[r]['kept'], 'sampler-lost-its-set', what)
                if v[r]['early'] is not None:
                    env.equal(v[r]['early'], G, 'stale-global-values', '%s: rank %d sees global values of an earlier draw' % (what, r))
            env.replicated([x['dom'] for x in v], 'domain-not-replicated', what)
            if lhs:
                env.close(v[0]['dom'], eff_dom, 'wrong-domain', what)
                env.check(np.all((G >= eff_dom[:, 0] - 1e-12) & (G <= eff_dom[:, 1] + 1e-12)), 'outside-domain', what)
                U = (G - eff_dom[:, 0]) / (eff_dom[:, 1] - eff_dom[:, 0]) * num
                for d in range(dim):
                    s = np.sort(np.floor(U[:, d] + 1e-9).astype(int))
                    env.check(np.array_equal(s, np.arange(num)), 'not-a-latin-hypercube',
                              lambda: '%s: dimension %d has strata %s' % (what, d, s[:20]))
                if p['how'] == 'lhs' or p['criterion'] in ('center', 'c', 'cm'):
                    env.check(np.abs(U - np.floor(U) - 0.5).max() < 1e-6, 'not-centered', lambda: '%s: criterion %s' % (what, p['criterion']))
                env.hit('lhs_checked')
            elif p['how'] == 'grid':
                axes = [eff_dom[d, 0] + (eff_dom[d, 1] - eff_dom[d, 0]) * (np.arange(per[d]) + 0.5) / per[d] for d in range(dim)]
                want = np.vstack([a.ravel() for a in np.meshgrid(*axes, indexing='ij')]).T
                env.close(G[np.lexsort(np.round(G, 9).T)], want[np.lexsort(np.round(want, 9).T)], 'wrong-grid', what)
                env.close(v[0]['dom'], eff_dom, 'wrong-domain', what)
            else:
                mu, sd, rg = zip(*[moments(a, b) for a, b in rv])
                rg = np.array(rg)
                env.close(v[0]['dom'], rg, 'wrong-domain', what)
                env.check(np.all((G >= rg[:, 0]) & (G <= rg[:, 1])), 'outside-domain', what)
                if p['rng_mode'] == 'distinct':
                    env.check(len(np.unique(G, axis=0)) == num, 'samples-repeated',
                              '%s: rows repeat although the streams are independent' % what)
                    uncorrelated(env, G, what)
                X = G if p['rng_mode'] == 'distinct' else v[0]['local']
                for d, (name, args) in enumerate(rv):
                    dkw(env, X[:, d], getattr(stats, name)(**args).cdf, what)
        if p['twice'] and not lhs and p['how'] != 'grid' and p['rng_mode'] == 'distinct':
            a, b = [vals[0][k]['values'] for k in (0, 1)]
            env.check(not np.intersect1d(a, b).size, 'draws-repeated', lambda: '%s: a second draw holds samples of the first' % what)
        if num < n:
            env.hit('more_ranks_than_samples')


@register
class ComputeQoI(Scenario):
    """Every sample goes to the model exactly once and its output stays next to it."""
    prop = 'P10'
    name = 'compute_qoi'
    mins = {'n': 1, 'num': 1, 'dim': 1, 'odim': 1}

    def gen(self, rng, tier):
        return {'n': pick_n(rng, tier), 'num': rng.choice([1, 2, 3, 4, 7, 12, 25, 50]), 'dim': rng.randint(1, 3), 'odim': rng.randint(1, 3),
                'source': rng.choice(['global', 'block', 'local_only', 'renewed_local', 'random', 'random_nonglobal', 'lhs', 'grid', 'create', 'create_nonglobal']),
                'ret': rng.choice(['array', 'array', 'flat', 'tuple1', 'ee', 'jac', 'both']), 'refval': rng.random() < 0.4,
                'refmodel': rng.choice(['row', 'same', 'index', 'value', 'never']), 'globalize': rng.random() < 0.7, 'copied': rng.random() < 0.2, 'save': rng.random() < 0.35, 'again': rng.random() < 0.25,
                'n2': pick_n(rng, tier), 'old_name': rng.random() < 0.2, 'unit': rng.choice([0, 0, 0, 7, -6]),
                'rng_seed': rng.randrange(10 ** 6), 'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        n, num, dim = p['n'], p['num'], p['dim']
        odim = 1 if p['ret'] == 'flat' else p['odim']
        rs = env.data(p['data_seed'])
        dom = build.domain(rs, dim) * 10.0 ** p.get('unit', 0)
        X0 = dom[:, 0] + (dom[:, 1] - dom[:, 0]) * rs.rand(num, dim)
        A = rs.randn(dim, odim)
        old = rs.rand(num + rs.randint(3), dim)
        ref_in = dom[:, 0] + 0.4137 * (dom[:, 1] - dom[:, 0])
        per = max(1, int(round(num ** (1.0 / dim))))
        if p['source'] == 'grid':
            num = per ** dim

        def f(x):
            return np.tanh(x).dot(A) + 0.1 * x.sum(1)[:, None]

        def fe(x):
            return 0.3 * f(x) - 0.1

        def fj(x):
            return (A.T[None, :, :] * (1 + x.sum(1))[:, None, None])
        fs = env.new_fs()

        def program(R):
            sample = R.mod('bet.sample')
            bs = R.mod('bet.sampling.basicSampling')
            log = []

            def model(x):
                x = np.array(x)
                one = x.ndim == 1
                if one and p['refmodel'] in ('index', 'value'):
                    if p['refmodel'] == 'index':
                        x[:, 0]
                    raise ValueError('samples expected')
                if p['refmodel'] == 'never' and p['refval'] and x.size == dim and np.allclose(x, ref_in, rtol=1e-14, atol=0):
                    raise ValueError('cannot map the reference')
                if one:
                    x = x.reshape(1, -1)
                one = one and p['refmodel'] == 'row'
                log.append(np.array(x))
                y = f(x)
                if one:
                    return y[0]
                if p['ret'] == 'flat':
                    return y[:, 0]
                if p['ret'] == 'array':
                    return y
                if p['ret'] == 'tuple1':
                    return (y,)
                if p['ret'] == 'ee':
                    return (y, fe(x))
                if p['ret'] == 'jac':
                    return (y, fj(x))
                return (y, fe(x), fj(x))
            sm = bs.sampler(model, error_estimates=p['ret'] in ('ee', 'both'), jacobians=p['ret'] in ('jac', 'both'))
            if p['copied']:
                sm = sm.copy()
            out = []
            for k in range(2 if p['again'] else 1):
                del log[:]
                s = sample.sample_set(dim)
                s.set_domain(np.array(dom))
                if p['refval']:
                    s.set_reference_value(np.array(ref_in))
                g = p['globalize']
                save = ('disc%d' % k) if p['save'] else None
                if p['source'].startswith('create'):
                    g = p['source'] == 'create'
                    d = sm.create_random_discretization('r', s, save, num_samples=num, globalize=g)
                else:
                    if p['source'] == 'global':
                        s.set_values(np.array(X0))
                    elif p['source'] == 'block':
                        s.set_values(np.array(X0))
                        s.global_to_local()
                    elif p['source'] in ('local_only', 'renewed_local'):
                        if p['source'] == 'renewed_local':
                            s.set_values(np.array(old))
                            s.global_to_local()
                        s.set_values_local(np.array(split(X0, n, R.rank)))
                    elif p['source'] == 'grid':
                        s = sm.regular_sample_set(s, per)
                    elif p['source'] == 'lhs':
                        s = sm.lhs_sample_set(s, num, 'center', globalize=g)
                    else:
                        s = sm.random_sample_set('r', s, num, globalize=p['source'] == 'random')
                    fn = sm.compute_QoI_and_create_discretization if p['old_name'] else sm.compute_qoi_and_create_discretization
                    d = fn(s, savefile=save, globalize=g) if k == 0 else fn(s, save, g)
                i, o = d.get_input_sample_set(), d.get_output_sample_set()
                loc = {'in': np.array(i.get_values_local()), 'out': np.array(o.get_values_local())}
                if not g:
                    (sm if p['copied'] else d).local_to_global()
                jac = i.get_jacobians()
                ee = o.get_error_estimates()
                out.append({'seen': np.vstack(log) if log else np.zeros((0, dim)), 'in': np.array(i.get_values()),
                            'out': np.array(o.get_values()), 'loc': loc, 'jac': None if jac is None else np.array(jac),
                            'ee': None if ee is None else np.array(ee), 'qref': o.get_reference_value(), 'held': sm.discretization is d,
                            'odim': o.get_dim(), 'g': g})
            return out
        vals = env.job(n, program, p['rng_seed'], fs=fs).require_clean('compute_qoi')
        for k in range(len(vals[0])):
            what = '%s/%s over %d ranks' % (p['source'], p['ret'], n)
            I = vals[0][k]['in']
            env.check(I.shape == (num, dim), 'wrong-sample-count', what)
            if p['source'] in ('global', 'block', 'local_only', 'renewed_local'):
                env.equal(I, X0, 'inputs-disturbed', what)
            seen = np.vstack([v[k]['seen'] for v in vals])
            refs = np.all(np.abs(seen - ref_in) <= 1e-14 * np.abs(ref_in), 1) if len(seen) else np.zeros(0, bool)
            on_ref = np.all(np.abs(I - ref_in) <= 1e-14 * np.abs(ref_in), 1).any()
            work = seen if (on_ref or not p['refval']) else seen[~refs]
            if not (on_ref and p['refval']):
                a = work[np.lexsort(work.T)]
                b = I[np.lexsort(I.T)]
                env.check(a.shape == b.shape and np.array_equal(a, b), 'not-evaluated-exactly-once',
                          lambda: '%s: model saw %d rows for %d samples' % (what, len(work), num))
            for r in range(n):
                v = vals[r][k]
                w = '%s, rank %d' % (what, r)
                env.equal(v['in'], I, 'not-replicated', w)
                env.check(v['odim'] == odim and v['held'], 'wrong-discretization', w)
                env.close(v['out'], f(I), 'output-not-paired-with-input', w)
                env.close(v['loc']['out'], f(v['loc']['in']), 'local-output-not-paired', w)
                env.close(v['ee'], fe(I) if p['ret'] in ('ee', 'both') else None, 'wrong-error-estimates', w)
                env.close(v['jac'], fj(I) if p['ret'] in ('jac', 'both') else None, 'wrong-jacobians', w)
                if p['refval'] and p['refmodel'] == 'never':
                    env.check(v['qref'] is None, 'reference-made-up', w)
                elif p['refval']:
                    env.check(v['qref'] is not None, 'reference-not-mapped', w)
                    env.close(v['qref'], f(ref_in[None])[0], 'wrong-reference-output', w)
            env.equal(np.vstack([v[k]['loc']['in'] for v in vals]), I, 'local-parts-differ-from-global', what)
            if p['save']:
                # a later job, possibly of another size, reads the file back
                m = p['n2'] if vals[0][k]['g'] else n

                def reader(R, k=k):
                    d = R.mod('bet.util').load_object('disc%d' % k)
                    if not vals[0][k]['g']:
                        d.local_to_global()
                    return np.array(d.get_input_sample_set().get_values()), np.array(d.get_output_sample_set().get_values())
                for a, b in env.job(m, reader, fs=fs).require_clean('load after compute'):
                    env.equal(a, I, 'saved-inputs-differ', what)
                    env.close(b, f(I), 'saved-outputs-differ', what)


@register
class Resample(Scenario):
    """sample_from_updated: the requested number of samples, drawn from the stored measure."""
    prop = 'P19'
    name = 'resample'
    mins = {'n': 1, 'num': 1, 'dim': 1, 'clusters': 1}

    def gen(self, rng, tier):
        return {'n': pick_n(rng, tier), 'num': rng.choice([1, 2, 3, 4, 5, 8, 9, 20, 51, 400, 1200]), 'dim': rng.randint(1, 3), 'clusters': rng.choice([1, 2, 3, 4, 4, 9, 12]),
                'kind': rng.choice(['rv', 'kde', 'kde', 'gmm', 'gmm']), 'globalize': rng.random() < 0.6, 'disc': rng.random() < 0.5,
                'equal': rng.random() < 0.4, 'none': rng.random() < 0.2, 'again': rng.random() < 0.4, 'rng_mode': rng.choice(['distinct', 'distinct', 'identical']),
                'rng_seed': rng.randrange(10 ** 6), 'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        n, num, dim, K = p['n'], p['num'], p['dim'], p['clusters']
        rs = env.data(p['data_seed'])
        w = np.ones(K) if p['equal'] else rs.randint(1, 6, K).astype(float)
        if p.get('none') and K > 1:
            w[int(rs.randint(K))] = 0.0             # no observation fell into this cluster
        w = w / w.sum()
        # clusters and coordinates live in separate, recognisable ranges
        mean = 100.0 * np.arange(K)[:, None] + 10.0 * np.arange(dim)[None, :]
        data = [[mean[i, j] + rs.uniform(0.1, 0.5) * rs.randn(12) for i in range(K)] for j in range(dim)]
        L = [np.tril(rs.uniform(-0.3, 0.3, (dim, dim)), -1) + np.diag(rs.uniform(0.1, 0.5, dim)) for _ in range(K)]
        cov = [a.dot(a.T) for a in L]
        names = [sorted(RV)[int(rs.randint(len(RV)))] for _ in range(dim)]

        def program(R):
            from scipy.stats import gaussian_kde
            sample = R.mod('bet.sample')
            bs = R.mod('bet.sampling.basicSampling')
            s = sample.sample_set(dim)
            s.set_values(rs_vals)
            s.set_prob_type(p['kind'])
            if p['kind'] == 'rv':
                s.set_prob_parameters([[k, dict(RV[k])] for k in names])
            elif p['kind'] == 'kde':
                s.set_prob_parameters(([[gaussian_kde(x) for x in row] for row in data], list(w)))
            else:
                s.set_prob_parameters(([np.array(m) for m in mean], [np.array(c) for c in cov], list(w)))
            arg = s
            if p['disc']:
                o = sample.sample_set(1)
                o.set_values(rs_vals[:, :1])
                arg = sample.discretization(s, o)
            t = bs.sample_from_updated(arg, num, globalize=p['globalize'])
            loc = np.array(t.get_values_local())
            if not p['globalize']:
                t.local_to_global()
            again = None
            if p.get('again'):
                again = np.array(bs.sample_from_updated(arg, num, globalize=True).get_values())
            return {'again': again, 'values': np.array(t.get_values()), 'local': loc, 'src': np.array(s.get_values()), 'type': t.get_prob_type_init()}
        rs_vals = rs.rand(6, dim)
        vals = env.job(n, program, p['rng_seed'], p['rng_mode']).require_clean('sample_from_updated')
        what = '%s: %d samples, %d clusters, %d ranks' % (p['kind'], num, K, n)
        G = vals[0]['values']
        env.check(G.shape == (num, dim), 'wrong-sample-count', lambda: '%s: got shape %s' % (what, G.shape))
        env.replicated([v['values'] for v in vals], 'not-replicated', what)
        env.equal(np.vstack([v['local'] for v in vals]), G, 'local-parts-differ-from-global', what)
        for v in vals:
            env.equal(v['src'], rs_vals, 'source-disturbed', what)
            env.check(v['type'] == p['kind'], 'measure-not-recorded', what)
        if p['rng_mode'] == 'distinct':
            env.check(len(np.unique(G, axis=0)) == num, 'samples-repeated', what)
            for j in range(dim):
                env.check(len(np.unique(G[:, j])) == num, 'samples-repeated', lambda: '%s: coordinate %d' % (what, j))
        if vals[0]['again'] is not None and p['rng_mode'] == 'distinct':
            A = vals[0]['again']
            env.check(A.shape == G.shape and not np.intersect1d(A, G).size, 'draws-repeated', lambda: '%s: a second draw holds samples of the first' % what)
        if p['kind'] == 'rv':
            X = G if p['rng_mode'] == 'distinct' else vals[0]['local']
            rg = np.array([moments(k, RV[k])[2] for k in names])
            env.check(np.all((G >= rg[:, 0]) & (G <= rg[:, 1])), 'outside-support', what)
            for j, k in enumerate(names):
                dkw(env, X[:, j], getattr(stats, k)(**RV[k]).cdf, what)
            uncorrelated(env, X, what)
            return
        d = np.abs(G[:, None, :] - mean[None]).max(2)
        c = d.argmin(1)
        env.check(np.all(d.min(1) < 4.9), 'coordinates-mixed', lambda: '%s: %s lies in no cluster' % (what, G[d.min(1) >= 4.9][0]))
        cnt = np.bincount(c, minlength=K)
        env.check(np.all(np.abs(cnt - w * num) <= 1.0 + 1e-9), 'cluster-share-off', lambda: '%s: counts %s for weights %s' % (what, cnt, w))
        X = G if p['rng_mode'] == 'distinct' else vals[0]['local']
        c = np.abs(X[:, None, :] - mean[None]).max(2).argmin(1)
        for i in range(K):
            x = X[c == i]
            for j in range(dim):
                if p['kind'] == 'kde':
                    h = np.std(data[j][i], ddof=1) * len(data[j][i]) ** (-1.0 / 5)      # Scott's rule
                    dkw(env, x[:, j], lambda y: stats.norm.cdf((y[:, None] - data[j][i][None]) / h).mean(1), what)
                else:
                    dkw(env, x[:, j], stats.norm(mean[i, j], np.sqrt(cov[i][j, j])).cdf, what)
            sd = np.sqrt(np.diag(cov[i]))
            uncorrelated(env, x, what, 0.0 if p['kind'] == 'kde' else cov[i] / np.outer(sd, sd))
