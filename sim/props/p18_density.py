"""P18: density-based (data-consistent) inversion gives the same updated measure on every process."""
import numpy as np

from .. import build
from ..env import Scenario, pick_n, register
from .p05_inverse import place, ranges


def kde(x, **kw):
    from scipy.stats import gaussian_kde
    return gaussian_kde(x, **kw)


class StubLUQ(object):
    """Stands in for the luq package (not installed): a deterministic learner over the given time series."""
    clusters = 2

    def __init__(self, predicted, observed, times):
        self.predicted, self.observed, self.times = np.array(predicted), np.array(observed), np.array(times)

    def clean_data(self, **kw):
        self.cleaned = kw

    def dynamics(self, k=2):
        self.k = k
        self.predict_labels, self.obs_labels = luq_labels(self.predicted, k), luq_labels(self.observed, k)

    def learn_qois_and_transform(self, num_qoi=1):
        self.num_pcs = [num_qoi] * self.k
        self.predict_maps = [self.predicted[self.predict_labels == i][:, :num_qoi] for i in range(self.k)]
        self.obs_maps = [self.observed[self.obs_labels == i][:, :num_qoi] for i in range(self.k)]


def luq_labels(series, k):
    return np.floor(series[:, -1] * 1e6).astype(int) % k


def time_series(x, times):
    """The model: one series per parameter sample."""
    x = np.asarray(x)
    return np.sin(x.sum(1)[:, None] + times[None, :]) + x[:, :1] * times[None, :]


@register
class LearnedQoIs(Scenario):
    """From time series through learned QoIs (stub learner) to the inverted discretization."""
    prop = 'P18'
    name = 'learned_qois'
    weight = 0.3
    mins = {'n': 1, 'num': 30, 'nobs': 30, 'dim': 1, 'k': 1}

    def gen(self, rng, tier):
        return {'n': pick_n(rng, tier), 'num': rng.choice([30, 47, 60]), 'nobs': rng.choice([30, 41]), 'dim': rng.randint(1, 3), 'k': rng.randint(1, 3),
                'nq': rng.randint(1, 2), 'how': rng.choice(['global', 'block', 'local']), 'ohow': rng.choice(['global', 'block', 'local', 'none']),
                'save': rng.choice([None, None, 'luq', 'disc']), 'given': rng.choice(['', '', 't', 'tp', 'to', 'tpo']), 'local': rng.random() < 0.4, 'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        import sys
        import types
        if 'luq' not in sys.modules:
            sys.modules['luq'] = types.ModuleType('luq')
            sys.modules['luq.luq'] = types.ModuleType('luq.luq')
            sys.modules['luq.luq'].LUQ = StubLUQ
        n, num, nobs, dim, K = p['n'], p['num'], p['nobs'], p['dim'], p['k']
        rs = env.data(p['data_seed'])
        X, O = rs.rand(num, dim), 0.3 + 0.4 * rs.rand(nobs, dim)
        times = np.array([0.1, 0.7, 1.3])
        S, T = time_series(X, times), time_series(O, times)
        lab, olab = luq_labels(S, K), luq_labels(T, K)
        if min(np.bincount(lab, minlength=K)) < 6 or min(np.bincount(olab, minlength=K)) < 6:
            return env.hit('cluster_too_small')
        # all weight on one sample: its weighted covariance does not exist
        w = np.zeros(num)
        for i in range(K):
            a, b = S[lab == i][:, :p['nq']], T[olab == i][:, :p['nq']]
            w[lab == i] = kde(b.T)(a.T) / kde(a.T)(a.T)
            x = w[lab == i]
            if not (np.isfinite(x).all() and x.max() > 1e-6 and 1 - ((x / x.sum()) ** 2).sum() > 1e-4):
                return env.hit('degenerate_densities')
        rr, orr = ranges(rs, num, n, 'block'), ranges(rs, nobs, n, 'block')
        fs = env.new_fs()

        def put(s, v, rng_, how):
            if how == 'local':
                s._values_local = np.array(v[rng_[0]:rng_[1]])
            else:
                place(s, {'_values': v}, rng_, how)

        def program(R):
            sample = R.mod('bet.sample')
            cr = R.mod('bet.calculateP.calculateR')
            ul = R.mod('bet.sampling.useLUQ')
            cr.print = lambda *a, **k: None
            ps = sample.sample_set(dim)
            put(ps, X, rr[R.rank], p['how'])
            os_ = None
            if p['ohow'] != 'none':
                os_ = sample.sample_set(dim)
                put(os_, O, orr[R.rank], p['ohow'])
            given = p.get('given', '')
            u = ul.useLUQ(ps, time_series, np.array(times) if 't' not in given else 0 * times, os_)
            if given:                       # series computed elsewhere, given by hand
                if 'p' not in given:
                    u.times = np.array(times)
                    u.get_predictions()
                    u.times = 0 * times
                if 'o' not in given:
                    u.set_observed_time_series(np.array(T))
                kw = {'t': ('times', times), 'p': ('predicted_time_series', S), 'o': ('obs_time_series', T)}
                u.initialize(**{kw[k][0]: np.array(kw[k][1]) for k in given})
            elif os_ is None:
                u.get_predictions()
                u.set_observed_time_series(np.array(T))
                u.initialize()
            else:
                u.setup()
            u.clean_data(tol=0.1)
            u.dynamics(k=K)
            u.learn_qois_and_transform(num_qoi=p['nq'])
            if p['save'] == 'luq':
                u.save('luqfile')
                u = R.mod('bet.util').load_object('luqfile')
            d1, d2 = u.make_disc()
            if p['save'] == 'disc':
                d1.save('discfile')
                d1 = R.mod('bet.util').load_object('discfile', localize=p['local'])
            o, b = d1.get_output_sample_set(), d1.get_output_observed_set()
            res = {'times': np.array(u.learn.times), 'in': np.array(d1.get_input_sample_set().get_values()), 'reg': np.array(o.get_region()), 'oreg': np.array(b.get_region()),
                   'dim': (o.get_dim(), b.get_dim()), 'd2': d2 is None, 'loc': None if o.get_region_local() is None else np.array(o.get_region_local()),
                   'in2': None if d2 is None else np.array(d2.get_input_sample_set().get_values()), 'num': (o.check_num(), b.check_num())}
            m, cw = cr.invert_to_kde(d1)
            t = np.linspace(0, 1, 5)
            res['marg'], res['cw'], res['w'] = np.array([[f(t) for f in row] for row in m]), np.array(cw), np.array(d1.get_input_sample_set().get_weights())
            return res
        vals = env.job(n, program, fs=fs).require_clean('learned quantities of interest')
        t = np.linspace(0, 1, 5)
        marg = np.array([[kde(X[lab == i, j], weights=w[lab == i])(t) for i in range(K)] for j in range(dim)])
        for r in range(n):
            v, what = vals[r], 'rank %d of %d' % (r, n)
            env.equal(v['in'], X, 'inputs-disturbed', what)
            env.equal(v['reg'], lab, 'wrong-cluster-labels', what)
            env.equal(v['oreg'], olab, 'wrong-cluster-labels', what + ' (observed)')
            if v['loc'] is not None:
                env.equal(v['loc'], np.array_split(lab, n)[r], 'wrong-local-labels', what)
            env.check(v['dim'] == (p['nq'], p['nq']) and v['num'] == (num, nobs), 'wrong-size', lambda: '%s: %s %s' % (what, v['dim'], v['num']))
            env.check(v['d2'] == (p['ohow'] == 'none'), 'observed-discretization-missing', what)
            env.equal(v['times'], times, 'wrong-times', what)
            if v['in2'] is not None:
                env.equal(v['in2'], O, 'observed-inputs-disturbed', what)
            env.close(v['w'], w, 'wrong-weights', what, rtol=1e-7, atol=1e-9)
            env.close(v['cw'], np.bincount(olab, minlength=K) / float(nobs), 'wrong-cluster-weights', what)
            env.close(v['marg'], marg, 'wrong-marginal', what, rtol=1e-6, atol=1e-9)
        env.hit('luq_stub_runs')


# distributions fitted to the samples, with the parameters held fixed (all with finite support in the data or none)
RVS = {'norm': {}, 'expon': {}, 'uniform': {}, 'norm ': {'floc': 0.25}, 'uniform ': {'floc': -2}, 'gamma': {'floc': -1.0}, 'weibull_min': {'floc': -1.0},
       'lognorm': {'floc': -1.0}, 'beta': {'floc': -1.0, 'fscale': 4.0}, 'beta ': {'fa': 2, 'floc': -2, 'fscale': 5}}
PLAIN = ('norm', 'expon', 'uniform')


def rv_request(p):
    """(argument for BET, [(name, fixed parameters) per dimension])"""
    dim, form = p['dim'], p['rvform']
    each = [(k.strip(), dict(RVS[k])) for k in p['rv'][:dim]]
    if form == 'name':
        k = p['rv'][0] if p['rv'][0] in PLAIN else 'norm'
        return k, [(k, {})] * dim
    if form == 'pair':
        return list(each[0]), [each[0]] * dim
    return [(list if form == 'each' else tuple)(x) for x in each], each


@register
class DensityInversion(Scenario):
    prop = 'P18'
    name = 'density_inversion'
    mins = {'n': 1, 'num': 12, 'nobs': 12, 'dim': 1, 'odim': 1, 'clusters': 1}

    def gen(self, rng, tier):
        return {'n': pick_n(rng, tier), 'num': rng.choice([20, 31, 60]), 'nobs': rng.choice([15, 24, 40]), 'dim': rng.randint(1, 3),
                'odim': rng.randint(1, 2), 'clusters': rng.choice([1, 1, 2, 3]), 'maps': rng.random() < 0.3, 'gap': rng.choice([None, None, 0, 1, 2, 3]), 'unseen': rng.choice([None, None, None, 0, 1, 2]),
                'method': rng.choice(['invert', 'kde', 'reject', 'reject', 'gmm', 'mvg', 'rv']), 'rv': [rng.choice(sorted(RVS)) for _ in range(3)], 'rvform': rng.choice(['name', 'pair', 'each', 'each_tuple']),
                'bw': rng.choice([None, 0.4]), 'scale': rng.choice([1.0, 1.0, 1e4, 1e-4]), 'winit': rng.random() < 0.3, 'how': rng.choice(['global', 'block', 'local', 'uneven']),
                'ohow': rng.choice(['global', 'block', 'local']), 'noregion': rng.random() < 0.2, 'then': rng.choice(['none', 'resample', 'global']),
                'rng_mode': rng.choice(['distinct', 'distinct', 'identical']), 'rng_seed': rng.randrange(10 ** 6),
                'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        n, num, nobs, dim, odim = p['n'], p['num'], p['nobs'], p['dim'], p['odim']
        rs = env.data(p['data_seed'])
        noreg = p['noregion']
        K = 1 if noreg else p['clusters']
        gap = None if noreg else p.get('gap')           # a label that no sample carries
        lab = [i for i in range(K + (gap is not None)) if i != gap] if gap is None or gap < K else list(range(K))
        L = max(lab) + 1
        if p.get('gap') == K and not noreg and p['maps']:
            L = K + 1                                       # the maps know of one more cluster
        use_maps = p['maps'] and not noreg
        winit = p['winit'] and not noreg
        X = rs.rand(num, dim) * 2 - 0.5
        A = rs.randn(dim, odim)
        reg = np.arange(num) % K
        rs.shuffle(reg)
        oreg = np.arange(nobs) % K
        unseen = p.get('unseen')                        # a cluster without observations
        if unseen is not None and unseen < K and K > 1:
            oreg[oreg == unseen] = (unseen + 1) % K
        reg, oreg = np.array(lab)[reg], np.array(lab)[oreg]
        Y = X.dot(A) + 0.05 * rs.randn(num, odim) + reg[:, None]
        O = X.mean(0).dot(A) + 0.2 * rs.randn(nobs, odim) + oreg[:, None]
        Y, O = Y * p.get('scale', 1.0), O * p.get('scale', 1.0)     # units of the outputs: densities far from one
        wi = rs.rand(num) + 0.5
        maps = [Y[reg == i] * 1.0 for i in range(L)]
        omaps = [O[oreg == i] * 1.0 for i in range(L)]
        rr = ranges(rs, num, n, 'uneven' if p['how'] == 'uneven' else 'block')
        orr = ranges(rs, nobs, n, 'block')

        # reference
        wref = np.zeros(num)
        R_ = []
        for i in range(L):
            m = reg == i
            if not m.any() or not (oreg == i).any():
                R_.append(None)
                continue
            kw = {'bw_method': p['bw']}
            pk = kde((maps[i] if use_maps else Y[m]).T, weights=wi[m], **kw) if winit else kde((maps[i] if use_maps else Y[m]).T, **kw)
            ok = kde((omaps[i] if use_maps else O[oreg == i]).T, **kw)
            v = maps[i] if use_maps else Y[m]
            R_.append(ok(v.T) / pk(v.T))
            wref[m] = R_[i]
        # all weight on one sample: its weighted covariance does not exist
        if not all(np.isfinite(x).all() and x.max() > 1e-6 and 1 - ((x / x.sum()) ** 2).sum() > 1e-4 for x in R_ if x is not None):
            return env.hit('degenerate_densities')

        def mc(x, w):
            mu = (x * w[:, None]).sum(0) / w.sum()
            return mu, ((x - mu).T * w).dot(x - mu) / w.sum()
        cw = np.array([np.mean(oreg == i) for i in range(L)])
        if p['method'] == 'gmm':
            gauss = [mc(X[reg == i], R_[i]) if R_[i] is not None else (None, None) for i in range(L)]
        elif p['method'] == 'mvg':
            gauss = [mc(X, wref * cw[reg])]
        else:
            gauss = []
        # few samples carry the weight: a covariance without an inverse
        regular = all(b is None or np.linalg.eigvalsh(b)[0] > 1e-6 * np.linalg.eigvalsh(b)[-1] for _, b in gauss)

        def put(s, arrays, rng_, how):
            if how == 'local':
                for f, v in arrays.items():
                    setattr(s, f + '_local', np.array(v[rng_[0]:rng_[1]]))
            else:
                place(s, arrays, rng_, how)

        pts = rs.rand(5, dim) * 1.8 - 0.4

        def program(R):
            sample = R.mod('bet.sample')
            cr = R.mod('bet.calculateP.calculateR')
            inp, out, obs = sample.sample_set(dim), sample.sample_set(odim), sample.sample_set(odim)
            put(inp, {'_values': X}, rr[R.rank], p['how'])
            oa, ba = {'_values': Y}, {'_values': O}
            if not noreg:
                oa['_region'], ba['_region'] = reg, oreg
            put(out, oa, rr[R.rank], p['how'])
            put(obs, ba, orr[R.rank], p['ohow'])
            if use_maps:
                out.set_cluster_maps([np.array(m) for m in maps])
                obs.set_cluster_maps([np.array(m) for m in omaps])
            if winit:
                out.set_weights_init(np.array(wi))
            d = sample.discretization(inp, out, output_observed_set=obs)
            res = {}
            cr.print = lambda *a, **k: None
            if True:
                if p['method'] == 'invert':
                    res['rs'], res['r'], res['ptr'] = cr.invert(d, p['bw'])
                elif p['method'] == 'kde':
                    marg, cw = cr.invert_to_kde(d, p['bw'])
                    t = np.linspace(-1, 2, 7)
                    res['marg'] = np.array([[np.zeros(7) if m is None else m(t) for m in row] for row in marg])
                    res['cw'] = np.array(cw)
                elif p['method'] == 'reject':
                    s = cr.invert_rejection_sampling(d, p['bw'])
                    res['new'], res['newl'] = np.array(s.get_values()), np.array(s.get_values_local())
                    res['pr'], res['dom'] = np.array(s.get_probabilities()), np.array(s.get_domain())
                elif p['method'] in ('gmm', 'mvg'):
                    m, c, cw = (cr.invert_to_gmm if p['method'] == 'gmm' else cr.invert_to_multivariate_gaussian)(d, p['bw'])
                    res['mean'], res['cov'], res['cw'] = m, c, np.array(cw)
                else:
                    q = cr.invert_to_random_variable(d, rv_request(p)[0], num_reweighted=2000, bw_method=p['bw'])
                    res['rv'] = [(a[0], dict(a[1])) for a in q]
                    res['pdf'] = np.array(inp.pdf(np.array(pts)))
                    res['mar'] = np.array([inp.marginal_pdf(np.array(pts[:, j]), j) for j in range(dim)])
            if p['method'] in ('kde', 'gmm', 'mvg') and regular:
                res['pdf'] = np.array(inp.pdf(np.array(pts)))
                res['mar'] = np.array([inp.marginal_pdf(np.array(pts[:, j]), j) for j in range(dim)])
            res['w'] = np.array(inp.get_weights())
            if p['then'] == 'global':
                inp.local_to_global()
                res['w2'] = np.array(inp.get_weights())
            elif p['then'] == 'resample' and p['method'] in ('kde', 'gmm', 'mvg', 'rv') and regular:
                t = R.mod('bet.sampling.basicSampling').sample_from_updated(d, 17)
                res['re'] = np.array(t.get_values())
            res['in'], res['out'], res['obs'] = (np.array(s.get_values()) for s in (inp, out, obs))
            res['type'] = inp.get_prob_type()
            return res
        vals = env.job(n, program, p['rng_seed'], p['rng_mode']).require_clean(p['method'])
        tol = dict(rtol=1e-7, atol=1e-9)
        for r in range(n):
            v = vals[r]
            what = '%s rank %d of %d' % (p['method'], r, n)
            env.equal(v['in'], X, 'inputs-disturbed', what)
            env.equal(v['out'], Y, 'outputs-disturbed', what)
            env.equal(v['obs'], O, 'observations-disturbed', what)
            env.close(v['w'], wref, 'wrong-weights', what, **tol)
            if 'w2' in v:
                env.close(v['w2'], wref, 'weights-lost', what, **tol)
            if p['method'] == 'invert':
                for i in range(L):
                    if R_[i] is None:
                        env.check(v['r'][i] is None and v['rs'][i] is None and len(v['ptr'][i]) == np.sum(reg == i), 'wrong-ratio', what)
                        continue
                    env.close(v['r'][i], R_[i], 'wrong-ratio', what, **tol)
                    env.close(v['rs'][i], R_[i].mean(), 'wrong-diagnostic', what, **tol)
                    env.equal(v['ptr'][i], np.where(reg == i)[0], 'wrong-pointer', what)
            elif p['method'] == 'kde':
                t = np.linspace(-1, 2, 7)
                want = np.array([[kde(X[reg == i, j], weights=R_[i], bw_method=p['bw'])(t) if R_[i] is not None else np.zeros(7) for i in range(L)] for j in range(dim)])
                env.close(v['marg'], want, 'wrong-marginal', what, rtol=1e-6, atol=1e-9)
                env.close(v['cw'], cw, 'wrong-cluster-weights', what)
            elif p['method'] == 'reject':
                env.equal(v['new'], vals[0]['new'], 'accepted-samples-differ-between-ranks', what)
                env.equal(v['newl'], np.array_split(v['new'], n)[r], 'wrong-local-part', what)
                m = len(v['new'])
                env.close(v['pr'], np.ones(m) / m, 'wrong-probability', what)
                env.close(v['dom'], np.column_stack([v['new'].min(0), v['new'].max(0)]), 'wrong-domain', what)
                rows = {tuple(x): k for k, x in enumerate(X)}
                idx = [rows.get(tuple(x), -1) for x in v['new']]
                env.check(min(idx) >= 0 and len(set(idx)) == m, 'accepted-sample-not-from-the-set', what)
                for i in lab:
                    if R_[i] is None:
                        env.check(not np.any(reg[idx] == i), 'sample-of-an-unobserved-cluster-accepted', what)
                        continue
                    best = np.where(reg == i)[0][np.argmax(R_[i])]
                    env.check(best in idx, 'most-likely-sample-rejected', what)
            elif p['method'] in ('gmm', 'mvg'):
                want = gauss
                env.close(v['cw'], cw if p['method'] == 'gmm' else np.ones(1), 'wrong-cluster-weights', what)
                env.check(len(v['mean']) == len(v['cov']) == len(want), 'wrong-mean', what)
                for got, cov, (a, b) in zip(v['mean'], v['cov'], want):
                    if a is None:
                        env.check(got is None and cov is None, 'wrong-mean', what)
                        continue
                    env.close(np.array(got), a, 'wrong-mean', what, **tol)
                    env.close(np.array(cov), b, 'wrong-covariance', what, **tol)
            else:
                tw = wref * cw[reg]
                k = 2000 * tw / tw.sum()
                if np.min(np.abs(k - np.floor(k) - 0.5)) < 1e-6:
                    return env.hit('rounding_tie')
                y = np.repeat(X, np.round(k).astype(int), axis=0)
                import scipy.stats as stats
                mar = []
                for j, (name, fixed) in enumerate(rv_request(p)[1]):
                    fit = getattr(stats, name).fit(y[:, j], **fixed)
                    mar.append(getattr(stats, name).pdf(pts[:, j], *fit))
                    got = v['rv'][j]
                    env.check(got[0] == name, 'wrong-fit', '%s: %s' % (what, got))
                    if name == 'norm' and not fixed:
                        env.close(np.array([got[1]['loc'], got[1]['scale']]), np.array([y[:, j].mean(), y[:, j].std()]), 'wrong-fit', what, **tol)
                    env.close(v['mar'][j], mar[j], 'wrong-fit', '%s: %s' % (what, got), rtol=1e-6, atol=1e-8)
                env.close(v['pdf'], np.prod(mar, axis=0), 'wrong-density', what, rtol=1e-6, atol=1e-8)
            if p['method'] == 'kde':
                wm = np.array([sum(cw[i] * kde(X[reg == i, j], weights=R_[i], bw_method=p['bw'])(pts[:, j]) for i in lab if R_[i] is not None) for j in range(dim)])
                env.close(v['mar'], wm, 'wrong-density', what, rtol=1e-6, atol=1e-9)
                if K == 1:
                    env.close(v['pdf'], np.prod(wm, axis=0), 'wrong-density', what, rtol=1e-6, atol=1e-9)
            elif gauss and regular:
                import scipy.stats as stats
                parts = [(c, a, b) for c, (a, b) in zip(cw if p['method'] == 'gmm' else [1.0], want) if a is not None]
                env.close(v['pdf'], sum(c * stats.multivariate_normal.pdf(pts, a, b) for c, a, b in parts), 'wrong-density', what, rtol=1e-5, atol=1e-9)
                env.close(v['mar'], np.array([sum(c * stats.norm.pdf(pts[:, j], a[j], b[j, j] ** 0.5) for c, a, b in parts) for j in range(dim)]), 'wrong-density', what, rtol=1e-6, atol=1e-9)
            if 're' in v:
                env.check(v['re'].shape == (17, dim), 'wrong-resample-count', what)
                env.equal(v['re'], vals[0]['re'], 'not-replicated', what)


@register
class RejectionRates(Scenario):
    """Over many calls, every sample is accepted as often as its ratio to the largest of its cluster says."""
    prop = 'P18'
    name = 'rejection_rates'
    weight = 0.15
    mins = {'n': 1, 'num': 12, 'nobs': 12, 'dim': 1, 'clusters': 1, 'reps': 10}

    def gen(self, rng, tier):
        return {'n': pick_n(rng, tier, hi=5), 'num': rng.choice([20, 45]), 'nobs': rng.choice([15, 24]), 'dim': rng.randint(1, 2), 'clusters': rng.choice([1, 2, 3]), 'reps': 40,
                'how': rng.choice(['global', 'block']), 'rng_mode': rng.choice(['distinct', 'identical']), 'rng_seed': rng.randrange(10 ** 6), 'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        n, num, dim, K, reps = p['n'], p['num'], p['dim'], p['clusters'], p['reps']
        rs = env.data(p['data_seed'])
        X = rs.rand(num, dim)
        reg, oreg = rs.permutation(np.arange(num) % K), np.arange(p['nobs']) % K
        Y = X.sum(1)[:, None] + 0.02 * rs.randn(num, 1) + reg[:, None]
        O = X.sum(1).mean() + 0.4 * rs.randn(p['nobs'], 1) + oreg[:, None]
        rr, orr = ranges(rs, num, n, 'block'), ranges(rs, p['nobs'], n, 'block')

        def program(R):
            sample, cr = R.mod('bet.sample'), R.mod('bet.calculateP.calculateR')
            inp, out, obs = sample.sample_set(dim), sample.sample_set(1), sample.sample_set(1)
            place(inp, {'_values': X}, rr[R.rank], p['how'])
            place(out, {'_values': Y, '_region': reg}, rr[R.rank], p['how'])
            place(obs, {'_values': O, '_region': oreg}, orr[R.rank], p['how'])
            d = sample.discretization(inp, out, output_observed_set=obs)
            return [np.array(cr.invert_rejection_sampling(d).get_values()) for _ in range(reps)]
        vals = env.job(n, program, p['rng_seed'], p['rng_mode']).require_clean('rejection sampling')
        prob = np.zeros(num)
        for i in range(K):
            m = reg == i
            r = kde(O[oreg == i].T)(Y[m].T) / kde(Y[m].T)(Y[m].T)
            if not (np.isfinite(r).all() and r.max() > 1e-6):
                return env.hit('degenerate_densities')
            prob[m] = r / r.max()
        rows = {tuple(x): k for k, x in enumerate(X)}
        count = np.zeros(num)
        for k in range(reps):
            for r in range(1, n):
                env.equal(vals[r][k], vals[0][k], 'accepted-samples-differ-between-ranks', 'call %d rank %d of %d' % (k, r, n))
            for x in vals[0][k]:
                env.check(tuple(x) in rows, 'accepted-sample-not-from-the-set', 'call %d' % k)
                count[rows[tuple(x)]] += 1
        for i in range(K):
            m = reg == i
            dev, var = count[m] - reps * prob[m], reps * prob[m] * (1 - prob[m])
            for name, w in (('accepted', np.ones(m.sum())), ('likely ones accepted', prob[m] - prob[m].mean())):
                s, sd = (w * dev).sum(), np.sqrt((w * w * var).sum())
                env.check(abs(s) <= 7 * sd + 3 * np.abs(w).max(), 'wrong-acceptance-rate', lambda: '%s in cluster %d: off by %.1f, standard error %.1f' % (name, i, s, sd))
        env.hit('rejection_rates')
