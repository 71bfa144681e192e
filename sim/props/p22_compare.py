"""P22: densities of probability measures and the distances between them."""
import math

import numpy as np

from .. import build, ref
from ..env import Scenario, pick_n, register, split


def wkde(x, data, w):
    """Gaussian kernel density estimate with Scott's bandwidth for weighted data."""
    w = np.asarray(w, float) / np.sum(w)
    m = (w * data).sum()
    var = (w * (data - m) ** 2).sum() / (1 - (w ** 2).sum())
    h = np.sqrt(var) * (1.0 / (w ** 2).sum()) ** (-0.2)
    z = (np.asarray(x)[:, None] - data[None, :]) / h
    return (np.exp(-0.5 * z ** 2) * w).sum(1) / (h * np.sqrt(2 * np.pi))


def normal(x, m, s):
    return np.exp(-0.5 * ((x - m) / s) ** 2) / (s * np.sqrt(2 * np.pi))


class Measure(object):
    """A reference measure: how to build it through the public interface, and its densities."""

    def __init__(self, kind, rs, dim, num, layout, dom, far):
        self.kind, self.dim, self.layout, self.dom = kind, dim, layout, dom
        self.mode = 'init' if kind in ('rv_init', 'gmm_init') else 'updated'
        lo, wd = dom[:, 0], dom[:, 1] - dom[:, 0]
        self.X = lo + wd * rs.rand(num, dim)
        if kind == 'voronoi':
            self.P = rs.rand(num) + 0.01
            self.P[rs.rand(num) < 0.2] = 0.0
            self.P[:3] += 0.2
            self.P /= self.P.sum()
            self.V = rs.rand(num) + 0.05
            if layout.get('novol'):
                self.V[(self.P == 0) & (rs.rand(num) < 0.6)] = 0.0      # cells that no emulated point hit
            self.V /= self.V.sum()
        self.parameters(rs, 0.3)

    def parameters(self, rs, at):
        lo, wd, dim = self.dom[:, 0], self.dom[:, 1] - self.dom[:, 0], self.dim
        K = self.layout.get('clusters', 2)
        self.m = lo + wd * (at + (1 - 2 * at) * rs.rand(K, dim))
        self.s = wd * (0.15 + 0.15 * rs.rand(K, dim))
        self.w = rs.dirichlet(np.ones(K) * 3)
        self.c = []                                 # covariances of the components
        for j in range(K):
            A = np.eye(dim) + (rs.rand(dim, dim) - 0.5 if self.layout.get('correlated') else 0.0)
            C = A.dot(A.T)
            C /= np.sqrt(np.outer(np.diag(C), np.diag(C)))
            self.c.append(C * np.outer(self.s[j], self.s[j]))
        self.kx = lo + wd * rs.rand(K, 12, dim)
        self.empty = [j == self.layout.get('empty') and K > 1 for j in range(K)]        # a cluster without samples
        self.rv = []
        for d in range(dim):
            f = (['norm', 'uniform', 'norm'] if not self.layout.get('families') else [['beta', 'gamma', 'norm'], ['gamma', 'beta', 'uniform']][self.layout['families'] % 2])[d]
            par = {'norm': {'loc': self.m[0, d], 'scale': self.s[0, d]}, 'uniform': {'loc': lo[d], 'scale': wd[d]},
                   'beta': {'a': 2.5 + rs.rand(), 'b': 3.0 + rs.rand(), 'loc': lo[d] - 0.1 * wd[d], 'scale': 1.2 * wd[d]},
                   'gamma': {'a': 2.5 + rs.rand(), 'loc': lo[d] - 0.1 * wd[d], 'scale': 0.2 * wd[d]}}[f]
            self.rv.append([f, par])

    def domain(self):
        if not self.layout['domain']:
            return None
        d = np.array(self.dom)
        if self.layout['domain'] in ('above', 'everywhere'):
            d[:, 1] = np.inf
        if self.layout['domain'] in ('below', 'everywhere'):
            d[:, 0] = -np.inf
        return d

    def build(self, R):
        sample = R.mod('bet.sample')
        s = sample.sample_set(self.dim)
        if self.dom is not None and self.layout['domain']:
            s.set_domain(self.domain())
        if self.layout['how'] == 'local_only':
            s.set_values_local(np.array(split(self.X, R.size, R.rank)))
            if self.kind == 'voronoi':
                s.set_probabilities_local(np.array(split(self.P, R.size, R.rank)))
                if self.layout['volumes']:
                    s.set_volumes_local(np.array(split(self.V, R.size, R.rank)))
        else:
            s.set_values(np.array(self.X))
            if self.kind == 'voronoi':
                s.set_probabilities(np.array(self.P))
                if self.layout['volumes']:
                    s.set_volumes(np.array(self.V))
            if self.layout['how'] == 'block':
                s.global_to_local()
        k = self.kind
        if k == 'voronoi':
            s.set_prob_type('voronoi')
        elif k in ('rv', 'rv_init'):
            rv = [[a, dict(b)] for a, b in self.rv]
            if k == 'rv':
                s.set_prob_type('rv')
                s.set_prob_parameters(rv)
            else:
                s.set_prob_type_init('rv')
                s.set_prob_parameters_init(rv)
        elif k in ('gmm', 'gmm_init'):
            par = ([None if e else np.array(m) for e, m in zip(self.empty, self.m)], [None if e else np.array(c) for e, c in zip(self.empty, self.c)], np.array(self.w))
            if k == 'gmm':
                s.set_prob_type('gmm')
                s.set_prob_parameters(par)
            else:
                s.set_prob_type_init('gmm')
                s.set_prob_parameters_init(par)
        else:
            from scipy.stats import gaussian_kde
            s.set_prob_type('kde')
            s.set_prob_parameters(([[None if e else gaussian_kde(x[:, d]) for e, x in zip(self.empty, self.kx)] for d in range(self.dim)], [float(w) for w in self.w]))
        return s

    def changed(self, seed):
        """The same samples with another measure on them."""
        import copy
        rs, m = np.random.RandomState(seed), copy.copy(self)
        if self.kind == 'voronoi':
            m.P = np.where(self.P > 0, rs.rand(len(self.P)) + 0.05, 0.0)
            m.P /= m.P.sum()
        m.parameters(rs, 0.2)
        return m

    def change(self, s, R):
        """Give the sample set s this measure."""
        if self.kind == 'voronoi':
            s.set_probabilities(np.array(self.P))
            if s.get_probabilities_local() is not None:
                s.global_to_local()
        else:
            t = self.build(R)
            if self.mode == 'init':
                s.set_prob_parameters_init(t.get_prob_parameters_init())
            else:
                s.set_prob_parameters(t.get_prob_parameters())

    def pdf(self, x):
        if self.kind == 'voronoi':
            v = self.V if self.layout['volumes'] else np.full(len(self.X), 1.0 / len(self.X))
            return ref.density(self.P, v)[ref.nearest(self.X, x)]
        if self.kind.startswith('gmm'):
            out = np.zeros(len(x))
            for j in range(len(self.w)):
                if not self.empty[j]:
                    z = np.linalg.solve(np.linalg.cholesky(self.c[j]), (x - self.m[j]).T)
                    out += self.w[j] * np.exp(-0.5 * (z ** 2).sum(0)) / np.sqrt((2 * np.pi) ** self.dim * np.linalg.det(self.c[j]))
            return out
        return np.prod([self.marg(x[:, d], d) for d in range(self.dim)], axis=0)

    def marg(self, x, d):
        if self.kind == 'voronoi':
            return wkde(x, self.X[:, d], self.P)
        if self.kind.startswith('gmm'):
            return sum(self.w[j] * normal(x, self.m[j, d], self.s[j, d]) for j in range(len(self.w)) if not self.empty[j])
        if self.kind.startswith('rv'):
            a, b = self.rv[d]
            if a == 'norm':
                return normal(x, b['loc'], b['scale'])
            if a == 'uniform':
                return np.where((x >= b['loc']) & (x <= b['loc'] + b['scale']), 1.0 / b['scale'], 0.0)
            z = (np.asarray(x) - b['loc']) / b['scale']
            if a == 'gamma':
                t = np.maximum(z, 0.0)
                return t ** (b['a'] - 1) * np.exp(-t) / math.gamma(b['a']) / b['scale']
            t = np.clip(z, 0.0, 1.0)
            return t ** (b['a'] - 1) * (1 - t) ** (b['b'] - 1) * math.gamma(b['a'] + b['b']) / math.gamma(b['a']) / math.gamma(b['b']) / b['scale']
        return sum(self.w[j] * wkde(x, self.kx[j, :, d], np.ones(12)) for j in range(len(self.w)) if not self.empty[j])


def entropy(p, q):
    p, q = p / p.sum(), q / q.sum()
    with np.errstate(all='ignore'):
        t = np.where(p > 0, np.where(q > 0, p * np.log(p / q), np.inf), 0.0)
    return t.sum()


def functional(name, p, q, f, mink=2):
    d = np.abs(p - q)
    if name in ('tv', '1', 'total variation'):
        return 0.5 * f * d.sum()
    if name == 'mink':
        return f * (d ** mink).sum() ** (1.0 / mink)
    if name == 'norm':
        return f * np.sqrt((d ** 2).sum())
    if name in ('2', 'euclidean'):
        return np.sqrt(f) * np.sqrt((d ** 2).sum())
    h = 0.5 * f * ((np.sqrt(p) - np.sqrt(q)) ** 2).sum()
    if name == 'sqhell':
        return h
    if name in ('hell', 'hellinger'):
        return np.sqrt(h)
    if name == 'kl':
        return entropy(p, q)
    return (p * d).max()


def square(p, q):
    return (p - q) ** 2


def biggest(p, q):
    return np.max(p * np.abs(p - q))        # not symmetric


FUN = ['tv', 'tv', '1', 'total variation', 'mink', 'norm', '2', 'euclidean', 'sqhell', 'hell', 'hell', 'hellinger', 'kl', 'callable']


@register
class Compare(Scenario):
    prop = 'P22'
    name = 'compare'
    mins = {'n': 1, 'dim': 1, 'num1': 4, 'num2': 4, 'points': 2}

    def gen(self, rng, tier):
        kinds = ['voronoi', 'voronoi', 'rv', 'rv_init', 'gmm', 'gmm_init', 'kde']
        ops = []
        for _ in range(rng.randint(1, 6)):
            k = rng.choice(['points', 'points', 'distance', 'distance', 'distance', 'marginal', 'marginal', 'swap', 'quad', 'change'])
            ops.append({'op': k, 'src': rng.choice(['array', 'set', 'local_set', 'int', 'int']), 'factor': rng.choice([0.0, 0.1, 0.5]),
                        'fun': rng.choice(FUN), 'normalize': rng.random() < 0.4, 'd': rng.randrange(3), 'interval': rng.random() < 0.3,
                        'np': rng.choice([2, 17, 60]), 'seed': rng.randrange(10 ** 6)})
        lay = lambda: {'how': rng.choice(['global', 'block', 'block', 'local_only']), 'domain': rng.choice([False, False, True, True, True, 'above', 'below', 'everywhere']),
                       'volumes': rng.random() < 0.7, 'novol': rng.random() < 0.2, 'clusters': rng.randint(1, 3), 'correlated': rng.random() < 0.5, 'empty': rng.choice([None, None, 0, 1]),
                       'families': rng.choice([0, 0, 1, 2])}
        return {'n': pick_n(rng, tier, hi=5), 'dim': rng.randint(1, 3), 'num1': rng.choice([4, 7, 20]), 'num2': rng.choice([4, 9, 20]),
                'k1': rng.choice(kinds), 'k2': rng.choice(kinds), 'lay1': lay(), 'lay2': lay(), 'points': rng.choice([2, 5, 40, 200]), 'ops': ops,
                'disc': rng.choice([False, False, False, True, 'out']), 'far': rng.random() < 0.3, 'rng_seed': rng.randrange(10 ** 6), 'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        n, dim = p['n'], p['dim']
        rs = env.data(p['data_seed'])
        dom1 = build.domain(rs, dim)
        w = (dom1[:, 1] - dom1[:, 0])[:, None]
        dom2 = dom1 + w * (rs.rand(dim, 1) - 0.5) * (1.0 if p['far'] else 0.2)
        A = Measure(p['k1'], rs, dim, p['num1'], p['lay1'], dom1, p['far'])
        B = Measure(p['k2'], rs, dim, p['num2'], p['lay2'], dom2, p['far'])
        box = np.array([np.minimum(A.X.min(0), B.X.min(0)), np.maximum(A.X.max(0), B.X.max(0))])

        def jump(d):
            # a uniform density jumps where the compared range may end
            return any(m.kind.startswith('rv') and m.rv[d][0] == 'uniform' for m in (A, B))

        def span(M, q):
            """The range over which marginals are compared."""
            d = q['d'] % dim
            if q['interval']:
                return box[0, d], box[1, d], 0.0
            lo, hi = -np.inf, np.inf
            if M[0].layout['domain'] and M[1].layout['domain']:
                e = np.array([M[0].domain()[d], M[1].domain()[d]])
                lo, hi = e.min(), e.max()
            if not np.isfinite(hi - lo):
                lo, hi = box[0, d], box[1, d]
            return lo, hi, q['factor'] * (hi - lo)

        def nothing(M, q):
            # no density at the points of comparison
            lo, hi, ext = span(M, q)
            x = np.linspace(lo - ext, hi + ext, q['np'])
            return min(m.marg(x, q['d'] % dim).sum() for m in M) < 1e-12
        # the measures compared at each step
        now, M = [], [A, B]
        for q in p['ops']:
            if q['op'] == 'swap':
                M = M[::-1]
            elif q['op'] == 'change':
                M = [m.changed(q['seed']) if k == q['d'] % 2 else m for k, m in enumerate(M)]
            now.append(M)

        def program(R):
            sample = R.mod('bet.sample')
            cm = R.mod('bet.postProcess.compareP')
            sets = [A.build(R), B.build(R)]

            def wrap(s):
                if not p['disc']:
                    return s
                o = sample.sample_set(1)
                return sample.discretization(o, s) if p['disc'] == 'out' else sample.discretization(s, o)
            mode = [A.mode == 'init', B.mode == 'init']
            c = cm.compare(wrap(sets[0]), wrap(sets[1]), inputs=p['disc'] != 'out', set1_init=mode[0], set2_init=mode[1])
            out = []
            for M, q in zip(now, p['ops']):
                rs2 = np.random.RandomState(q['seed'])
                fun = biggest if q['fun'] == 'callable' else q['fun']
                d = q['d'] % dim
                kw = {'p': 3} if fun == 'mink' else {}
                if q['op'] == 'points' or (q['op'] == 'distance' and c.compare_vals is None):
                    Z = box[0] + (box[1] - box[0]) * (1.4 * rs2.rand(p['points'], dim) - 0.2)
                    if q['src'] == 'int':
                        c.set_compare_set(p['points'], q['factor'])
                    elif q['src'] == 'array':
                        c.set_compare_set(np.array(Z))
                    else:
                        s = sample.sample_set(dim)
                        if q['src'] == 'set':
                            s.set_values(np.array(Z))
                        else:
                            if q['seed'] % 2:
                                s.set_values(Z + 1.0)               # placed anew on every process since
                            s.set_values_local(np.array(split(Z, R.size, R.rank)))
                        c.set_compare_set(s)
                    out.append(('points', np.array(c.compare_vals)))
                if q['op'] == 'distance' and min(m.pdf(c.compare_vals).sum() for m in M) == 0:
                    out.append(('distance', np.array(c.compare_vals), 0.0))   # no comparison point in the support
                elif q['op'] == 'distance':
                    out.append(('distance', np.array(c.compare_vals), float(c.distance(fun, normalize=q['normalize'], **kw))))
                elif q['op'] == 'swap':
                    sets.reverse()
                    mode.reverse()
                    c = cm.compare(wrap(sets[0]), wrap(sets[1]), p['disc'] != 'out', mode[0], mode[1])
                    out.append(('swap',))
                elif q['op'] == 'change':
                    M[q['d'] % 2].change(sets[q['d'] % 2], R)
                elif q['op'] in ('marginal', 'quad') and (jump(d) or nothing(M, q)):
                    out.append(('skip', 0.0))
                elif q['op'] == 'marginal':
                    iv = [float(box[0, d]), float(box[1, d])] if q['interval'] else None
                    if fun in ('mink', 'norm'):
                        fun = 'tv'
                    out.append(('marginal', float(c.distance_marginal(d, iv, q['np'], q['factor'], q['normalize'], fun))))
                elif q['op'] == 'quad':
                    iv = [float(box[0, d]), float(box[1, d])] if q['interval'] else None
                    out.append(('quad', float(c.distance_marginal_quad(d, iv, q['factor'], [square, 'tv', '2', 'hell', 'sqhell'][q['seed'] % 5]))))
            for s in sets:
                out.append(('final', np.array(s.get_values()), s.get_probabilities()))
            return out
        vals = env.job(n, program, p['rng_seed']).require_clean('comparing measures')
        for r in range(1, n):
            for a, b in zip(vals[r], vals[0]):
                for x, y in zip(a[1:], b[1:]):
                    if x is None or y is None:
                        env.check(x is y, 'not-replicated', 'rank %d: %s' % (r, a[0]))
                    else:
                        env.close(x, y, 'not-replicated', 'rank %d of %d: %s' % (r, n, a[0]), rtol=1e-12)
        it = iter(vals[0])
        pts = None
        for k, (M, q) in enumerate(zip(now, p['ops'])):
            what = 'step %d (%s) of %s' % (k, q['op'], [o['op'] for o in p['ops']])
            d = q['d'] % dim
            fun, mk = q['fun'], 3
            if q['op'] == 'points' or (q['op'] == 'distance' and pts is None):
                rs2 = np.random.RandomState(q['seed'])
                Z = box[0] + (box[1] - box[0]) * (1.4 * rs2.rand(p['points'], dim) - 0.2)
                got = next(it)
                env.check(got[0] == 'points' and got[1].shape == (p['points'], dim), 'wrong-points', what)
                pts = got[1]
                if q['src'] == 'int':
                    ext = q['factor'] * (box[1] - box[0])
                    env.check(np.all((pts >= box[0] - ext - 1e-12) & (pts <= box[1] + ext + 1e-12)), 'points-outside-box', what)
                    if p['points'] >= 200:
                        # 200 uniform points leave the outer 15% at no end of an axis empty (chance below 1e-13)
                        u = (pts - box[0] + ext) / (box[1] - box[0] + 2 * ext)
                        env.check(np.all(u.min(0) < 0.15) and np.all(u.max(0) > 0.85), 'points-do-not-fill-box',
                                  lambda: '%s: relative range %s %s' % (what, u.min(0), u.max(0)))
                    env.check(len(np.unique(pts, axis=0)) == len(pts), 'points-repeated', what)
                else:
                    env.equal(pts, Z, 'wrong-points', what)
            if q['op'] == 'distance':
                got = next(it)
                env.equal(got[1], pts, 'wrong-points', what)
                a, b = M[0].pdf(pts), M[1].pdf(pts)
                f = 1.0 / len(pts)
                if a.sum() == 0 or b.sum() == 0:
                    continue
                if q['normalize']:
                    a, b, f = a / a.sum(), b / b.sum(), 1.0
                want = functional(fun, a, b, f, mk)
                env.close(got[2], want, 'wrong-distance', '%s %s normalize=%s' % (what, fun, q['normalize']), rtol=1e-6, atol=1e-8)
                if q['normalize'] and fun in ('tv', 'hell', 'sqhell', '1'):
                    env.check(-1e-12 <= got[2] <= 1 + 1e-9, 'distance-out-of-range', what)
            elif q['op'] == 'swap':
                next(it)
                pts = None
            elif q['op'] in ('marginal', 'quad'):
                got = next(it)
                if jump(d) or nothing(M, q):
                    continue
                lo, hi, ext = span(M, q)
                if M[0].layout['domain'] and M[1].layout['domain']:
                    env.hit('domain_bounded' if np.isfinite(M[0].domain()).all() and np.isfinite(M[1].domain()).all() else 'domain_unbounded')
                if q['op'] == 'marginal':
                    x = np.linspace(lo - ext, hi + ext, q['np'])
                    a, b = M[0].marg(x, d), M[1].marg(x, d)
                    f = (x[-1] - x[0]) / len(x)
                    if q['normalize']:
                        a, b, f = a / a.sum(), b / b.sum(), 1.0
                    name = 'tv' if fun in ('mink', 'norm') else fun
                    want = functional(name, a, b, f)
                    env.close(got[1], want, 'wrong-marginal-distance', '%s %s of marginal %d' % (what, name, d), rtol=1e-6, atol=1e-8)
                else:
                    if any(m.kind in ('voronoi', 'kde') or m.kind.startswith('rv') and m.rv[d][0] != 'norm' for m in M):
                        continue
                    x = np.linspace(lo - ext, hi + ext, 4001)
                    x = 0.5 * (x[1:] + x[:-1])
                    name = ['square', 'tv', '2', 'hell', 'sqhell'][q['seed'] % 5]
                    want = functional('2' if name == 'square' else name, M[0].marg(x, d), M[1].marg(x, d), (hi - lo + 2 * ext) / len(x))
                    if name == 'square':
                        want = want ** 2
                    env.check(abs(got[1] - want) <= 0.02 + 0.03 * want, 'wrong-quadrature-distance',
                              lambda: '%s %s of marginal %d: %g, expected about %g' % (what, name, d, got[1], want))
                    env.hit('quadrature_checked')
        for m in M:
            got = next(it)
            env.equal(got[1], m.X, 'values-disturbed', 'after comparing')
            if m.kind == 'voronoi' and got[2] is not None:
                env.close(got[2], m.P, 'probabilities-disturbed', 'after comparing', rtol=1e-12)


@register
class VoronoiDensity(Scenario):
    """Density and marginal queries interleaved with updates of the measure."""
    prop = 'P22'
    name = 'voronoi_density'
    mins = {'n': 1, 'num': 4, 'dim': 1}

    def gen(self, rng, tier):
        ops = [{'op': rng.choice(['pdf', 'pdf', 'marg', 'marg', 'dens', 'new_prob', 'new_prob', 'new_vol', 'new_values', 'own']),
                'via': rng.choice(['local', 'global']), 'shape': rng.choice(['flat', 'column', 'full']), 'd': rng.randrange(3),
                'seed': rng.randrange(10 ** 6)} for _ in range(rng.randint(2, 9))]
        return {'n': pick_n(rng, tier, hi=6), 'num': rng.choice([4, 7, 15]), 'dim': rng.randint(1, 3), 'ops': ops,
                'layout': {'how': rng.choice(['global', 'block', 'local_only']), 'domain': rng.random() < 0.5, 'volumes': rng.random() < 0.6, 'novol': rng.random() < 0.3},
                'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        n, dim, num = p['n'], p['dim'], p['num']
        rs = env.data(p['data_seed'])
        dom = build.domain(rs, dim)
        A = Measure('voronoi', rs, dim, num, p['layout'], dom, False)

        def fresh(seed):
            r = np.random.RandomState(seed)
            P = r.rand(num) + 0.05
            V = r.rand(num) + 0.05
            X = dom[:, 0] + (dom[:, 1] - dom[:, 0]) * r.rand(num, dim)
            Z = dom[:, 0] + (dom[:, 1] - dom[:, 0]) * r.rand(6, dim)
            return P / P.sum(), V / V.sum(), X, Z

        def program(R):
            s = A.build(R)
            out = []
            for q in p['ops']:
                P, V, X, Z = fresh(q['seed'])
                d = q['d'] % dim
                if q['op'] == 'pdf':
                    z = Z[:, 0] if dim == 1 and q['shape'] == 'flat' else Z
                    out.append(np.array(s.pdf(np.array(z))))
                elif q['op'] == 'marg':
                    z = {'flat': Z[:, d], 'column': Z[:, d:d + 1], 'full': Z}[q['shape']]
                    out.append(np.array(s.marginal_pdf(np.array(z), d)))
                elif q['op'] == 'dens':
                    if s._volumes is None and s._volumes_local is None:
                        out.append(None)
                    elif q['via'] == 'local':
                        if s.get_values_local() is None:
                            s.global_to_local()
                        s.set_densities_local()
                        out.append(np.array(s.get_densities_local()))
                    else:
                        if s.get_values_local() is not None:
                            s.local_to_global()
                        s.set_densities()
                        out.append(np.array(s.get_densities()))
                elif q['op'] == 'own':          # densities given by the user
                    if q['via'] == 'local':
                        s.set_densities_local(np.array(split(7 * V, R.size, R.rank)))
                        out.append(np.array(s.get_densities_local()))
                    else:
                        s.set_densities(7 * V)
                        out.append(np.array(s.get_densities()))
                elif q['via'] == 'local':
                    if s.get_values_local() is None:
                        s.global_to_local()
                    if q['op'] == 'new_prob':
                        s.set_probabilities_local(np.array(split(P, R.size, R.rank)))
                    elif q['op'] == 'new_vol':
                        s.set_volumes_local(np.array(split(V, R.size, R.rank)))
                    else:
                        s.set_values_local(np.array(split(X, R.size, R.rank)))
                        s.local_to_global()
                else:
                    if s.get_values_local() is not None:
                        s.local_to_global()
                    if q['op'] == 'new_prob':
                        s.set_probabilities(np.array(P))
                    elif q['op'] == 'new_vol':
                        s.set_volumes(np.array(V))
                    else:
                        s.set_values(np.array(X))
                    if s.get_values_local() is not None:
                        s.global_to_local()
            return out
        vals = env.job(n, program, 0).require_clean('density of a Voronoi measure')
        want = []
        P, V, X = A.P, (A.V if p['layout']['volumes'] else np.full(num, 1.0 / num)), A.X
        for q in p['ops']:
            P2, V2, X2, Z = fresh(q['seed'])
            d = q['d'] % dim
            if q['op'] == 'pdf':
                want.append(ref.density(P, V)[ref.nearest(X, Z)])
            elif q['op'] == 'marg':
                want.append(wkde(Z[:, d], X[:, d], P))
            elif q['op'] == 'dens':
                box = np.prod(dom[:, 1] - dom[:, 0]) if p['layout']['domain'] else 1.0
                want.append(('dens', q['via'], ref.density(P, V * box)))
            elif q['op'] == 'own':
                want.append(('own', q['via'], 7 * V2))
            elif q['op'] == 'new_prob':
                P = P2
            elif q['op'] == 'new_vol':
                V = V2
            else:
                X = X2
        for r in range(n):
            for k, (a, b) in enumerate(zip(vals[r], want)):
                if isinstance(b, tuple):
                    b = None if a is None else split(b[2], n, r) if b[1] == 'local' else b[2]
                env.close(a, b, 'wrong-density', 'query %d of %s, rank %d of %d' % (k, [q['op'] for q in p['ops']], r, n), rtol=1e-8)
