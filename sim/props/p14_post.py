"""P14: marginals, selections and plots of a distributed result are those of the whole result."""
import os

import numpy as np

from .. import ref
from ..env import Scenario, pick_n, register
from .p05_inverse import ranges


def put(s, arrays, rng_, how):
    if how == 'global':
        for f, v in arrays.items():
            setattr(s, f, np.array(v))
        return
    for f, v in arrays.items():
        setattr(s, f + '_local', np.array(v[rng_[0]:rng_[1]]))
    if how != 'local':
        s.local_to_global()


def smooth1(marg, bins, sigma):
    """Direct (not FFT) zero-padded circular convolution with the periodic kernel."""
    nx = len(bins) - 1
    dx = bins[1] - bins[0]
    aug = int(np.ceil(3 * sigma / dx))
    n = nx + 2 * aug
    xk = np.linspace(-nx * dx / 2, nx * dx / 2, nx)
    k = np.zeros(n)
    k[aug:aug + nx] = np.exp(-(xk / sigma) ** 2)
    a = np.zeros(n)
    a[aug:aug + nx] = marg
    k = np.roll(k, n // 2)
    out = np.array([sum(k[(i - j) % n] * a[j] for j in range(n)) for i in range(n)])[aug:aug + nx]
    return out / out.sum() if out.sum() > 1e-6 * a.sum() else np.full(nx, np.nan)


@register
class Marginals(Scenario):
    prop = 'P14'
    name = 'marginals'
    weight = 3
    mins = {'n': 1, 'num': 1, 'dim': 1, 'nb': 1}

    def gen(self, rng, tier):
        dim = rng.randint(1, 4)
        return {'n': pick_n(rng, tier), 'num': rng.choice([1, 2, 3, 7, 20, 61]), 'enum': rng.choice([1, 5, 33]), 'dim': dim,
                'nb': rng.randint(1, 9), 'nbins': [rng.randint(1, 7) for _ in range(4)], 'vector': rng.random() < 0.5,
                'obj': rng.choice(['set', 'set', 'disc', 'disc_emu']), 'how': rng.choice(['global', 'block', 'uneven', 'local', 'stale_global']),
                'two': rng.random() < 0.5, 'outside': rng.random() < 0.4, 'zeros': rng.random() < 0.3, 'smooth': rng.random() < 0.3, 'sigma': rng.choice([0.3, 0.3, 1, 'each', 'each', 'list']),
                'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        n, dim = p['n'], p['dim']
        num = p['enum'] if p['obj'] == 'disc_emu' else p['num']
        rs = env.data(p['data_seed'])
        lo = rs.uniform(-2, 2, dim)
        dom = np.column_stack([lo, lo + rs.uniform(0.3, 3, dim)])
        X = dom[:, 0] + rs.rand(num, dim) * (dom[:, 1] - dom[:, 0])
        if p['outside']:
            X = X + 0.2 * rs.randn(num, dim)
        P = rs.rand(num)
        if p['zeros']:
            P[rs.rand(num) < 0.5] = 0.0
        P = P / max(P.sum(), 1e-9)
        rr = ranges(rs, num, n, 'uneven' if p['how'] == 'uneven' else 'block')
        nb = [p['nbins'][i] for i in range(dim)] if p['vector'] else p['nb']
        per = nb if p['vector'] else [p['nb']] * dim
        bins = [np.linspace(dom[i, 0], dom[i, 1], per[i] + 1) for i in range(dim)]
        two = p['two'] and dim > 1
        other = rs.rand(p['num'], dim)

        kind = p.get('sigma', 0.3)
        sigma = [float(w * np.exp(rs.uniform(-3, -0.5))) for w in dom[:, 1] - dom[:, 0]] if kind in ('each', 'list') else [kind] * dim
        sig_arg = lambda: list(sigma) if kind == 'list' else np.array(sigma) if kind == 'each' else kind

        def program(R):
            sample, pp = R.mod('bet.sample'), R.mod('bet.postProcess.plotP')
            s = sample.sample_set(dim)
            s.set_domain(np.array(dom))
            put(s, {'_values': X, '_probabilities': P}, rr[R.rank], 'block' if p['how'] == 'stale_global' else p['how'])
            if p['how'] == 'stale_global':      # the local result is newer (computed without globalizing)
                s._probabilities = np.array(P[::-1])
            o = s
            if p['obj'] != 'set':
                if p['obj'] == 'disc':
                    inp = s
                else:
                    inp = sample.sample_set(dim)
                    inp.set_values(np.array(other))
                    inp.set_domain(np.array(dom))
                    inp.set_probabilities(np.ones(len(other)))
                out = sample.sample_set(1)
                o = sample.discretization(inp, out)
                if p['obj'] == 'disc_emu':
                    o.set_emulated_input_sample_set(s)
            b, m = (pp.calculate_2D_marginal_probs if two else pp.calculate_1D_marginal_probs)(o, nbins=list(nb) if p['vector'] else nb)
            sm = None
            if p['smooth']:
                if two:
                    sm = pp.smooth_marginals_2D(m, b, sigma=sig_arg())
                else:
                    sm = pp.smooth_marginals_1D(m, b, sigma=sig_arg())
            return [np.array(x) for x in b], {str(k): np.array(v) for k, v in m.items()}, sm, np.array(s._values_local), np.array(s._probabilities_local)
        vals = env.job(n, program, 0).require_clean('marginals')
        want = {}
        if two:
            for i in range(dim):
                for j in range(i + 1, dim):
                    want[str((i, j))] = np.histogramdd(X[:, [i, j]], bins=[bins[i], bins[j]], weights=P)[0]
        else:
            for i in range(dim):
                want[str(i)] = np.histogram(X[:, i], bins=bins[i], weights=P)[0]
        for r, (b, m, sm, vl, pl) in enumerate(vals):
            what = 'rank %d of %d' % (r, n)
            env.check(len(b) == dim and sorted(m) == sorted(want), 'wrong-marginals', what)
            for i in range(dim):
                env.close(b[i], bins[i], 'wrong-bins', what)
            for k in want:
                env.close(m[k], want[k], 'wrong-marginal-' + ('2d' if two else '1d'), what + ' ' + k)
            env.equal(vl, X[rr[r][0]:rr[r][1]], 'samples-disturbed', what)
            env.equal(pl, P[rr[r][0]:rr[r][1]], 'probabilities-disturbed', what)
            if sm is not None and not two:
                for i in range(dim):
                    if padding(bins[i], sigma[i]) > 400:
                        continue
                    if np.isfinite(smooth1(want[str(i)], bins[i], sigma[i])).all() and kernel_ok(bins[i], sigma[i]):
                        env.close(sm[i], smooth1(want[str(i)], bins[i], sigma[i]), 'wrong-smoothing', what, rtol=1e-7, atol=1e-9)
            elif sm is not None:
                for i in range(dim):
                    for j in range(i + 1, dim):
                        w = want[str((i, j))]
                        if w.sum() > 0 and kernel_ok(bins[i], sigma[i]) and kernel_ok(bins[j], sigma[j]) and max(padding(bins[i], sigma[i]), padding(bins[j], sigma[j])) < 100:     # separable kernel: smooth along each axis
                            t = np.array([smooth_axis(w[:, c], bins[i], sigma[i]) for c in range(w.shape[1])]).T
                            t = np.array([smooth_axis(t[c], bins[j], sigma[j]) for c in range(t.shape[0])])
                            if t.sum() < 1e-6 * w.sum():
                                continue
                            env.close(sm[(i, j)], t / t.sum(), 'wrong-smoothing', what, rtol=1e-7, atol=1e-9)


def padding(bins, sigma):
    return int(np.ceil(3 * sigma / (bins[1] - bins[0])))


def kernel_ok(bins, sigma):
    nx, dx = len(bins) - 1, bins[1] - bins[0]
    return np.exp(-(np.linspace(-nx * dx / 2, nx * dx / 2, nx) / sigma) ** 2).max() > 1e-3


def smooth_axis(v, bins, sigma):
    """smooth1 without the normalization."""
    nx = len(bins) - 1
    dx = bins[1] - bins[0]
    aug = padding(bins, sigma)
    n = nx + 2 * aug
    xk = np.linspace(-nx * dx / 2, nx * dx / 2, nx)
    k = np.zeros(n)
    k[aug:aug + nx] = np.exp(-(xk / sigma) ** 2)
    a = np.zeros(n)
    a[aug:aug + nx] = v
    k = np.roll(k, n // 2)
    return np.array([sum(k[(i - j) % n] * a[j] for j in range(n)) for i in range(n)])[aug:aug + nx]


@register
class Selections(Scenario):
    """Most and least likely samples of a result that was computed on distributed data."""
    prop = 'P14'
    name = 'selections'
    weight = 2
    mins = {'n': 1, 'num': 1, 'dim': 1, 'odim': 1}

    def gen(self, rng, tier):
        return {'n': pick_n(rng, tier), 'num': rng.choice([1, 2, 3, 8, 20, 50]), 'dim': rng.randint(1, 3), 'odim': rng.randint(1, 2),
                'obj': rng.choice(['set', 'disc']), 'vol': rng.choice(['none', 'given', 'given']), 'how': rng.choice(['global', 'block', 'uneven']),
                'what': rng.choice(['sort', 'high', 'low', 'high', 'low', 'prob']), 'sort': rng.random() < 0.7, 'pct': rng.choice([0.0, 0.1, 0.5, 0.9, 0.999, 1.0]),
                'zeros': rng.random() < 0.5, 'novol': rng.random() < 0.3, 'even': rng.random() < 0.3, 'tiny': rng.random() < 0.25, 'beside': rng.choice([0, 0, 0, -3e-7, 3e-7]), 'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        n, num, dim, odim = p['n'], p['num'], p['dim'], p['odim']
        rs = env.data(p['data_seed'])
        X, Y = rs.rand(num, dim), rs.rand(num, odim)
        P = rs.rand(num) + 0.01
        if p['zeros']:
            P[rs.rand(num) < 0.4] = 0.0
        if P.sum() == 0:
            P[0] = 1.0
        if p.get('even'):
            P[P > 0] = 1.0                      # equal probabilities, percentiles that are multiples of them
        if p.get('tiny'):
            few = (P > 0) & (rs.rand(num) < 0.4)
            P[few] *= 10.0 ** rs.uniform(-250, -9, few.sum())        # improbable is not impossible
        P = P / P.sum()
        V = (rs.rand(num) + 0.1) if p['vol'] == 'given' else None
        if V is not None and p.get('novol'):
            V[(P == 0) & (rs.rand(num) < 0.6)] = 0.0            # cells that no emulated point hit
        rho = P if V is None else ref.density(P, V)
        rr = ranges(rs, num, n, 'uneven' if p['how'] == 'uneven' else 'block')
        nnz = int((P > 0).sum())
        order = np.argsort(rho)[::-1][:nnz]
        sort = p['sort'] or p['what'] == 'sort'
        if not sort:
            order = np.arange(num)
        if p['what'] == 'low':
            order = order[::-1]
        pct = p['pct']
        if p.get('even'):
            pct = float(np.round(pct * nnz)) / nnz
            if V is None and sort:
                V = np.random.RandomState(p['data_seed']).rand(num) + 0.1       # some order among equals
                rho = ref.density(P, V)
                order = np.argsort(rho)[::-1][:nnz]
                order = order[::-1] if p['what'] == 'low' else order
        cum = np.cumsum(P[order])
        if p.get('beside') and p['what'] != 'sort' and len(cum):
            pct = float(cum[min(int(pct * len(cum)), len(cum) - 1)]) + p['beside']     # just below or above a sum that occurs
        if p['what'] != 'sort':
            near = np.abs(cum - pct) < 1e-13 * (1.0 if pct > 1e-3 else pct)
            if (np.abs(cum - pct)[~near] < 1e-9).any():
                return env.hit('percentile_next_to_a_step')
            order = order[:int(((cum <= pct) | near).sum())]
            env.hit('percentile_on_a_step' if near.any() else 'percentile_off_steps')

        def program(R):
            sample, pt = R.mod('bet.sample'), R.mod('bet.postProcess.postTools')
            s = sample.sample_set(dim)
            a = {'_values': X, '_probabilities': P}
            if V is not None:
                a['_volumes'] = V
            put(s, a, rr[R.rank], p['how'])
            o = s
            if p['obj'] == 'disc':
                t = sample.sample_set(odim)
                put(t, {'_values': Y}, rr[R.rank], p['how'])
                o = sample.discretization(s, t)
            if p['what'] == 'sort':
                res, idx = pt.sort_by_rho(o)
                k = len(idx)
            elif p['what'] == 'high':
                k, res, idx = pt.sample_highest_prob(pct, o, p['sort'])
            elif p['what'] == 'low':
                k, res, idx = pt.sample_lowest_prob(pct, o, p['sort'])
            else:
                k, res, idx = pt.sample_prob(pct, o, p['sort'])
            i = res if p['obj'] == 'set' else res.get_input_sample_set()
            g = lambda a: None if a is None else np.array(a)
            return (int(k), np.array(idx), g(i.get_values()), g(i.get_probabilities()), g(i.get_volumes()),
                    None if p['obj'] == 'set' else g(res.get_output_sample_set().get_values()), np.array(s.get_values()), np.array(s.get_probabilities()))
        vals = env.job(n, program, 0).require_clean(p['what'])
        for r, (k, idx, x, pr, v, y, X2, P2) in enumerate(vals):
            what = '%s rank %d of %d' % (p['what'], r, n)
            env.equal(idx, order, 'wrong-selection', what)
            env.check(k == len(order), 'wrong-count', what)
            env.equal(x, X[order], 'wrong-samples', what)
            env.equal(pr, P[order], 'wrong-probabilities', what)
            env.equal(v, None if V is None else V[order], 'wrong-volumes', what)
            if p['obj'] == 'disc':
                env.equal(y, Y[order], 'wrong-outputs', what)
            env.equal(X2, X, 'samples-disturbed', what)
            env.equal(P2, P, 'probabilities-disturbed', what)


@register
class Plots(Scenario):
    """Plot files: written by one process only, complete on disk when the call returns on any process."""
    prop = 'P14'
    name = 'plots'
    weight = 0.04
    mins = {'n': 1, 'num': 1, 'dim': 1}

    def gen(self, rng, tier):
        return {'n': pick_n(rng, tier, hi=4, lo=2), 'num': rng.choice([3, 11]), 'kind': rng.choice(['1d', '2d', 'contour']), 'dim': rng.choice([2, 2, 3]),
                'how': rng.choice(['global', 'block']), 'ref': rng.random() < 0.5, 'data_seed': rng.randrange(10 ** 6), 'bufsize': rng.choice([512, 8192])}

    def run(self, env, p):
        n, num, dim = p['n'], p['num'], p['dim']
        rs = env.data(p['data_seed'])
        X, P = rs.rand(num, dim), rs.rand(num)
        rr = ranges(rs, num, n, 'block')
        fs = env.new_fs(p['bufsize'])
        names = {'1d': ['pl_1D_%d.png' % i for i in range(dim)], '2d': ['pl_2D_%d_%d.png' % (i, j) for i in range(dim) for j in range(i + 1, dim)],
                 'contour': ['pl_2D_contours_%d_%d.png' % (i, j) for i in range(dim) for j in range(i + 1, dim)]}[p['kind']]

        def program(R):
            sample, pp = R.mod('bet.sample'), R.mod('bet.postProcess.plotP')
            s = sample.sample_set(dim)
            s.set_domain(np.tile([0.0, 1.0], (dim, 1)))
            if p['ref']:
                s.set_reference_value(np.full(dim, 0.4))
            put(s, {'_values': X, '_probabilities': P}, rr[R.rank], p['how'])
            b, m = (pp.calculate_1D_marginal_probs if p['kind'] == '1d' else pp.calculate_2D_marginal_probs)(s, nbins=4)
            f = {'1d': pp.plot_1D_marginal_probs, '2d': pp.plot_2D_marginal_probs, 'contour': pp.plot_2D_marginal_contours}[p['kind']]
            f(m, b, s, filename='pl', interactive=False)
            ok = []
            for x in names:
                data = b''
                if os.path.exists(x):
                    with open(x, 'rb') as fh:
                        data = fh.read()
                ok.append(data[:4] == b'\x89PNG' and data.rstrip()[-8:-4] == b'IEND')
            return ok
        w = env.job(n, program, 0, fs=fs)
        vals = w.require_clean('plot ' + p['kind'])
        for r, ok in enumerate(vals):
            env.check(all(ok), 'plot-incomplete', 'rank %d of %d: %s' % (r, n, dict(zip(names, ok))))
        for x in names:
            writers = {e[1] for e in w.events if e[0] == 'fs' and e[2] == 'write' and e[3] == x}
            env.check(len(writers) == 1, 'several-processes-write-one-plot', '%s: %s' % (x, writers))
