"""P21: from cluster points through the distributed model run to gradients, and on to the choice of QoIs."""
import numpy as np

from .. import build
from ..env import Scenario, pick_n, register

KERNELS = {
    'C4Matern': (lambda s: (1 + s + s ** 2 / 3) * np.exp(-s), lambda s: -(1 + s) * np.exp(-s) / 3),
    'Gaussian': (lambda s: np.exp(-s ** 2), lambda s: -2 * np.exp(-s ** 2)),
    'Multiquadric': (lambda s: np.sqrt(1 + s ** 2), lambda s: 1 / np.sqrt(1 + s ** 2)),
    'InverseMultiquadric': (lambda s: 1 / np.sqrt(1 + s ** 2), lambda s: -(1 + s ** 2) ** -1.5),
}


def clean(y):
    y = np.array(y, dtype=float)
    y[np.isnan(y)] = 0.0
    big = np.finfo(float).max
    return np.where(np.isinf(y), np.sign(y) * big, y)


def rbf_gradient(X, Y, c, k, kernel, ep):
    """Gradient at X[c] of the interpolant through its k nearest samples, and the condition number."""
    phi, dphi = KERNELS[kernel]
    r = np.sqrt(((X - X[c]) ** 2).sum(1))
    near = np.argsort(r, kind='stable')[:k]
    D = np.sqrt(((X[near][:, None, :] - X[near][None, :, :]) ** 2).sum(2))
    A = phi(ep * D)
    w = np.linalg.solve(A, Y[near])
    g = (dphi(ep * r[near]) * ep ** 2)[:, None] * (X[c] - X[near])
    gap = np.sort(r)[k] - np.sort(r)[k - 1] if k < len(r) else 1.0
    return w.T.dot(g), np.linalg.cond(A), np.abs(w).max() * np.abs(g).max() * k, gap


@register
class Gradients(Scenario):
    prop = 'P21'
    name = 'gradients'
    mins = {'n': 1, 'nc': 1, 'dim': 1, 'odim': 1}

    def gen(self, rng, tier):
        return {'n': pick_n(rng, tier), 'nc': rng.choice([1, 2, 3, 5, 9]), 'dim': rng.choice([1, 2, 3, 4] * 6 + [7, 10]), 'odim': rng.randint(1, 4),
                'method': rng.choice(['ffd', 'ffd', 'cfd', 'cfd', 'rbf', 'rbf']), 'ball': rng.choice(['linf', 'l1', 'l2', 'l3']),
                'kernel': rng.choice([None] + sorted(KERNELS)), 'ep': rng.choice([None, 0.7, 1.0, 2.5]), 'k': rng.choice([None, None, 0, 1, 3]),
                'close': rng.choice([0, 0, 1, 4]), 'default': rng.random() < 0.5, 'domain': rng.random() < 0.7, 'edge': rng.random() < 0.4, 'scalar_radius': rng.random() < 0.4,
                'normalize': rng.random() < 0.5, 'how': rng.choice(['global', 'block']), 'model': rng.choice(['linear', 'linear', 'bend', 'flat']),
                'nan': rng.choice([0, 0, 0, 1, 3]), 'eval': rng.choice(['sampler', 'sampler', 'save', 'direct']), 'choose': rng.random() < 0.5, 'odom': rng.random() < 0.3,
                'rng_seed': rng.randrange(10 ** 6), 'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        n, nc, dim, odim = p['n'], p['nc'], p['dim'], p['odim']
        rs = env.data(p['data_seed'])
        dom = build.domain(rs, dim)
        wid = dom[:, 1] - dom[:, 0]
        C = dom[:, 0] + wid * (0.05 + 0.9 * rs.rand(nc, dim))
        if p['edge']:
            C[0] = dom[:, 0]
        rad = wid * (0.1 + 0.1 * rs.rand(dim)) if p['method'] == 'rbf' else wid * (0.01 + 0.05 * rs.rand(dim))
        if p['scalar_radius']:
            rad = np.full(dim, min(rad) if p['method'] == 'rbf' and p['domain'] else rad[0])     # a ball far larger than the domain is never filled
        W = rs.randn(dim, odim) / wid[:, None]
        if p['model'] == 'flat':
            W[:, 0] = 0.0
        b = rs.randn(odim)
        k = dim + 2 if p['k'] is None else dim + 1 + p['k']
        close = dim + 1 + p['close']
        k = min(k, close + 1)
        kern = p['kernel'] or 'Gaussian'
        ep = p['ep'] or 1.0
        norm = {'linf': np.inf, 'l1': 1, 'l2': 2, 'l3': 3}[p['ball']]
        nan = p['method'] != 'rbf' and p['nan'] > 0

        def f(x):
            y = x.dot(W) + b
            if p['model'] == 'bend':
                y = y + 0.3 * np.sin(((x - dom[:, 0]) / wid).sum(1))[:, None]
            if nan:
                u = np.floor(((x - dom[:, 0]) / wid) * 1e6).sum(1) % (5 + p['nan'])
                y[u == 0, 0] = np.nan
                y[u == 1, odim - 1] = np.inf
                y[u == 2, 0] = -np.inf
            return y
        odom = build.domain(np.random.RandomState(p['data_seed']), odim)
        fs = env.new_fs()

        def program(R):
            sample = R.mod('bet.sample')
            gr = R.mod('bet.sensitivity.gradients')
            bs = R.mod('bet.sampling.basicSampling')
            s = sample.sample_set(dim)
            if p['domain']:
                s.set_domain(np.array(dom))
            s.set_values(np.array(C))
            if p['how'] == 'block':
                s.global_to_local()
            r = float(rad[0]) if p['scalar_radius'] and p['method'] == 'rbf' else np.array(rad)
            if p['method'] == 'ffd':
                cl = gr.pick_ffd_points(s, r)
            elif p['method'] == 'cfd':
                cl = gr.pick_cfd_points(s, r)
            elif p['ball'] == 'linf':
                cl = gr.sample_linf_ball(s, close, r)
            elif p['ball'] == 'l1':
                cl = gr.sample_l1_ball(s, close, r)
            else:
                cl = gr.sample_lp_ball(s, close, r, norm)
            res = {'pts': np.array(cl.get_values()), 'src': np.array(s.get_values()),
                   'cdom': None if cl.get_domain() is None else np.array(cl.get_domain())}
            if p['eval'] == 'direct':
                o = sample.sample_set(odim)
                o.set_values(f(np.array(cl.get_values())))
                d = sample.discretization(cl, o)
            else:
                sm = bs.sampler(lambda x: f(np.array(x)))
                d = sm.compute_qoi_and_create_discretization(cl, savefile='clusters' if p['eval'] == 'save' else None, globalize=True)
                if p['eval'] == 'save':
                    d = R.mod('bet.util').load_object('clusters')
            if p.get('odom'):
                d.get_output_sample_set().set_domain(np.array(odom))
            res['in'], res['out'] = np.array(d.get_input_sample_set().get_values()), np.array(d.get_output_sample_set().get_values())
            if p['method'] == 'ffd':
                g = gr.calculate_gradients_ffd(d, normalize=p['normalize'])
            elif p['method'] == 'cfd':
                g = gr.calculate_gradients_cfd(d, normalize=p['normalize'])
            else:
                # names arrive from files and command lines, not only as literals of the program
                name = None if p['kernel'] is None else ''.join(list(p['kernel']))
                g = gr.calculate_gradients_rbf(d, num_centers=None if p['close'] == 0 and p.get('default') else nc, num_neighbors=None if p['k'] is None and p.get('default') else k, RBF=name, ep=p['ep'], normalize=p['normalize'])
            gi, go = g.get_input_sample_set(), g.get_output_sample_set()
            res.update({'J': np.array(gi.get_jacobians()), 'gin': np.array(gi.get_values()), 'gout': np.array(go.get_values()),
                        'in2': np.array(d.get_input_sample_set().get_values()), 'out2': np.array(d.get_output_sample_set().get_values()),
                        'godom': None if go.get_domain() is None else np.array(go.get_domain()),
                        'gdom': None if gi.get_domain() is None else np.array(gi.get_domain())})
            if p['choose'] and odim >= dim and dim > 1 and not nan and p['model'] != 'flat':
                q = R.mod('bet.sensitivity.chooseQoIs')
                res['best'] = np.array(q.chooseOptQoIs(gi, num_optsets_return=1))
            return res
        vals = env.job(n, program, p['rng_seed'], fs=fs).require_clean('gradients by ' + p['method'])
        what = '%s with %d ranks' % (p['method'], n)
        X = vals[0]['pts']
        per = {'ffd': dim, 'cfd': 2 * dim, 'rbf': close}[p['method']]
        env.check(X.shape == (nc * (per + 1), dim), 'wrong-point-count', lambda: '%s: %s' % (what, X.shape))
        env.equal(X[:nc], C, 'centers-not-first', what)
        K = X[nc:].reshape(nc, per, dim) - C[:, None, :]
        if p['method'] == 'ffd':
            env.close(K, np.tile(np.diag(rad), (nc, 1, 1)), 'wrong-stencil', what, rtol=1e-6, atol=1e-9)
        elif p['method'] == 'cfd':
            env.close(K, np.tile(np.vstack([np.diag(rad), -np.diag(rad)]), (nc, 1, 1)), 'wrong-stencil', what, rtol=1e-6, atol=1e-9)
        else:
            U = np.abs(K / rad)
            size = U.max(2) if np.isinf(norm) else (U ** norm).sum(2) ** (1.0 / norm)
            env.check(np.all(size <= 1 + 1e-9), 'outside-ball', what)
            if p['domain']:
                env.check(np.all((X >= dom[:, 0] - 1e-12) & (X <= dom[:, 1] + 1e-12)), 'outside-domain', what)
            env.check(len(np.unique(X, axis=0)) == len(X), 'points-repeated', what)
        Y = clean(f(X))
        with np.errstate(all='ignore'):
            J, tol = self.reference(p, X, Y, nc, dim, odim, rad, per, k, kern, ep)
        exact = tol < 1e-3
        for r in range(n):
            v, w = vals[r], '%s, rank %d' % (what, r)
            env.equal(v['pts'], X, 'points-differ-between-ranks', w)
            env.equal(v['src'], C, 'centers-disturbed', w)
            env.equal(v['in'], X, 'inputs-disturbed', w)
            env.close(v['out'], f(X), 'outputs-not-paired', w, rtol=1e-12, atol=1e-12)
            env.equal(v['in2'], v['in'], 'source-inputs-changed', w)
            env.check(np.array_equal(v['out2'], v['out'], equal_nan=True), 'source-outputs-changed', w)
            env.equal(v['gin'], C, 'wrong-center-inputs', w)
            env.close(v['gout'], Y[:nc], 'wrong-center-outputs', w, rtol=1e-12, atol=1e-12)
            env.check(v['J'].shape == (nc, odim, dim), 'wrong-gradient-shape', w)
            env.check((v['gdom'] is None) == (not p['domain']), 'domain-lost', w)
            env.equal(v['godom'], odom if p.get('odom') else None, 'output-domain-lost', w)
            if p['domain']:
                env.equal(v['gdom'], dom, 'domain-changed', w)
                env.equal(v['cdom'], dom, 'domain-changed', w)
            if exact:
                # rows with infinite outputs overflow; what remains of them is not compared
                ok = np.isfinite(J).all(2)
                if ok.any():
                    env.close(v['J'][ok], J[ok], 'wrong-gradient', w, rtol=max(1e-7, tol), atol=max(1e-8, tol) * (1 + np.abs(J[ok]).max()))
            env.check(np.array_equal(v['J'], vals[0]['J'], equal_nan=True), 'gradients-differ-between-ranks', w)
            if 'best' in v:
                env.equal(v['best'], vals[0]['best'], 'choice-differs-between-ranks', w)
        if exact and p['model'] != 'bend' and p['method'] != 'rbf' and not nan:
            G = W.T[None].repeat(nc, 0)
            if p['normalize']:
                s = np.abs(G).sum(2)[:, :, None]
                # a flat map's difference quotients are rounding noise, which normalization blows up
                keep = s[:, :, 0] > 0
                G = G / np.where(s == 0, 1, s)
            else:
                keep = np.ones((nc, odim), bool)
            env.close(vals[0]['J'][keep], G[keep], 'linear-map-gradient-wrong', what, rtol=1e-5, atol=1e-7)
            env.hit('linear_map_exact')
        if p['method'] == 'rbf' and exact:
            env.hit('rbf_reference_used')
        if nan:
            env.hit('model_failures_cleaned')
        if nc < n:
            env.hit('more_ranks_than_centers')

    @staticmethod
    def reference(p, X, Y, nc, dim, odim, rad, per, k, kern, ep):
        J = np.zeros((nc, odim, dim))
        tol = 1e-9
        for c in range(nc):
            B = nc + c * per
            for i in range(dim):
                if p['method'] == 'ffd':
                    J[c, :, i] = (Y[B + i] - Y[c]) / rad[i]
                elif p['method'] == 'cfd':
                    J[c, :, i] = (Y[B + i] - Y[B + dim + i]) * (0.5 / rad[i])
            if p['method'] == 'rbf':
                J[c], cond, size, gap = rbf_gradient(X, Y, c, k, kern, ep)
                s = np.abs(J[c]).sum(1).min() if p['normalize'] else 1.0
                tol = max(tol, cond * 1e-14 * max(size, 1.0) / min(1.0, max(s, 1e-30)))
                if gap < 1e-9:
                    tol = 1.0
            elif p['normalize']:
                # quotients that cancel to rounding noise have no meaningful direction
                s = np.abs(J[c]).sum(1)
                fin = np.isfinite(s)
                noise = 1e-14 * (1 + np.abs(np.where(np.abs(Y) > 1e300, 0, Y)).max()) / rad.min()
                if np.any(fin & (s > 0) & (s < 1e6 * noise)):
                    tol = 1.0
        J[np.abs(J).max(2) > 1e150] = np.nan
        if p['normalize']:
            s = np.abs(J).sum(2)[:, :, None]
            J = J / np.where(s == 0, 1, s)
        return J, tol


@register
class Ball(Scenario):
    """Random clusters: the requested number of points, spread evenly over the part of the ball inside the domain."""
    prop = 'P21'
    name = 'ball'
    weight = 0.25
    mins = {'n': 1, 'nc': 1, 'dim': 1, 'close': 1}

    def gen(self, rng, tier):
        return {'n': pick_n(rng, tier), 'nc': rng.randint(1, 3), 'dim': rng.randint(1, 3), 'ball': rng.choice(['linf', 'l1', 'l2', 'l3']), 'close': rng.choice([1, 5, 200, 500, 500]),
                'domain': rng.random() < 0.7, 'scalar_radius': rng.random() < 0.4, 'how': rng.choice(['global', 'block']), 'cut': rng.random() < 0.6, 'twice': rng.random() < 0.4,
                'rng_mode': rng.choice(['distinct', 'identical']), 'rng_seed': rng.randrange(10 ** 6), 'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        n, nc, dim, close = p['n'], p['nc'], p['dim'], p['close']
        rs = env.data(p['data_seed'])
        dom = build.domain(rs, dim)
        wid = dom[:, 1] - dom[:, 0]
        C = dom[:, 0] + wid * rs.rand(nc, dim)
        if p['cut']:
            C[0] = dom[:, 0] + wid * rs.choice([0.0, 0.05, 1.0], dim)
        rad = wid * (0.1 + 0.2 * rs.rand(dim))
        if p['scalar_radius']:
            rad = np.full(dim, rad.min())
        norm = {'linf': np.inf, 'l1': 1, 'l2': 2, 'l3': 3}[p['ball']]

        def program(R):
            sample, gr = R.mod('bet.sample'), R.mod('bet.sensitivity.gradients')
            s = sample.sample_set(dim)
            if p['domain']:
                s.set_domain(np.array(dom))
            s.set_values(np.array(C))
            if p['how'] == 'block':
                s.global_to_local()
            r = float(rad[0]) if p['scalar_radius'] else np.array(rad)
            out = []
            for _ in range(2 if p['twice'] else 1):
                if p['ball'] == 'linf':
                    t = gr.sample_linf_ball(s, close, r)
                elif p['ball'] == 'l1':
                    t = gr.sample_l1_ball(s, close, r)
                else:
                    t = gr.sample_lp_ball(s, close, r, norm)
                out.append((np.array(t.get_values()), t.check_num()))
            env.equal(s.get_values(), C, 'centers-disturbed', 'rank %d' % R.rank)
            return out
        vals = env.job(n, program, p['rng_seed'], p['rng_mode']).require_clean('ball')
        what = '%s ball, %d points around %d centers, %d ranks' % (p['ball'], close, nc, n)
        for k in range(len(vals[0])):
            X = vals[0][k][0]
            for v in vals:
                env.check(v[k][1] == nc * (1 + close), 'wrong-count', what)
            env.replicated([v[k][0] for v in vals], 'not-replicated', what)
            env.check(X.shape == (nc * (1 + close), dim), 'wrong-count', what)
            env.equal(X[:nc], C, 'wrong-centers', what)
            env.check(len(np.unique(X[nc:], axis=0)) == nc * close, 'points-repeated', what)
            for c in range(nc):
                K = X[nc + c * close:nc + (c + 1) * close]
                if p['domain']:
                    env.check(np.all((K >= dom[:, 0]) & (K <= dom[:, 1])), 'outside-domain', what)
                Z = (K - C[c]) / rad
                env.check(np.all(np.linalg.norm(Z, norm, axis=1) <= 1 + 1e-9), 'outside-ball', what)
                if close >= 200:
                    W = 2 * rs.rand(60000, dim) - 1
                    W = W[np.linalg.norm(W, norm, axis=1) <= 1]
                    if p['domain']:
                        Y = C[c] + rad * W
                        W = W[np.all((Y >= dom[:, 0]) & (Y <= dom[:, 1]), axis=1)]
                    if len(W) < 200:
                        continue
                    for a, b in [(Z[:, j], W[:, j]) for j in range(dim)] + [(np.linalg.norm(Z, norm, axis=1), np.linalg.norm(W, norm, axis=1))]:
                        x = np.sort(a)
                        F = np.searchsorted(np.sort(b), x, side='right') / len(b)
                        D = max((np.arange(1, close + 1) / close - F).max(), (F - np.arange(close) / close).max())
                        env.check(D < 3.5 / np.sqrt(close) + 3.5 / np.sqrt(len(b)), 'wrong-distribution', lambda: '%s: distance %.3f to the even spread' % (what, D))
                    env.hit('spread_checked')
        if p['twice']:
            env.check(not np.intersect1d(vals[0][0][0][nc:], vals[0][1][0][nc:]).size, 'draws-repeated', what)
