"""P07: cell volumes and radii; P08: simple-function approximations of the output distribution."""
import numpy as np

from .. import build, ref
from ..core import Violation
from ..env import Scenario, pick_n, register, split
from .p05_inverse import make_prob_set, place, pn, prob_spec, ranges


class Recorder:
    """Counts the points a rank asks the cell lookup about (the emulated points)."""

    def __init__(self, sample):
        self.calls = []
        me = self
        for cls in (sample.voronoi_sample_set, sample.rectangle_sample_set, sample.ball_sample_set):
            real = cls.query

            def q(self_, x, k=1, real=real):
                me.calls.append(np.array(x))
                return real(self_, x, k) if k != 1 else real(self_, x)
            cls.query = q

    def points(self, dim):
        pts = [c for c in self.calls if c.ndim == 2 and c.shape[1] == dim]
        return np.vstack(pts) if pts else np.zeros((0, dim))


@register
class MonteCarloVolumes(Scenario):
    """Random emulation split over the ranks: every point is used exactly once."""
    prop = 'P07'
    name = 'mc_volumes'
    weight = 2
    mins = {'n': 1, 'num': 1, 'npts': 1, 'dim': 1}

    def gen(self, rng, tier):
        return {'n': pick_n(rng, tier), 'num': rng.choice([1, 2, 3, 6, 11, 20]), 'dim': rng.randint(1, 3),
                'npts': rng.choice([1, 3, 10, 97, 100, 256, 1001, 2500]), 'how': rng.choice(['global', 'block']),
                'method': rng.choice(['volume', 'volume', 'radii', 'radii_volume']), 'normalize': rng.random() < 0.6,
                'pnorm': rng.choice([1.0, 2.0, 2.0, 'inf']), 'kind': rng.choice(['voronoi', 'voronoi', 'rect', 'ball', 'cart']),
                'rng_mode': rng.choice(['distinct', 'distinct', 'identical']), 'rng_seed': rng.randrange(10 ** 6),
                'floatn': rng.random() < 0.3, 'twice': rng.random() < 0.3, 'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        n, dim = p['n'], p['dim']
        rs = env.data(p['data_seed'])
        dom = build.domain(rs, dim)
        w = dom[:, 1] - dom[:, 0]
        kind = p['kind'] if p['method'] == 'volume' else 'voronoi'
        q = {'pkind': kind, 'pcells': p['num'], 'pnorm_out': p['pnorm'], 'pzero': False}
        spec = prob_spec(rs, q, dim, dom.T)
        if kind == 'voronoi':
            spec['values'] = dom[:, 0] + w * rs.rand(p['num'], dim)
        num = ref.num_cells(spec)

        def program(R):
            sample = R.mod('bet.sample')
            s = make_prob_set(sample, spec, dim)
            s.set_domain(np.array(dom))
            if p['how'] == 'block':
                s.global_to_local()
            rec = Recorder(sample)
            npts = float(p['npts']) if p['floatn'] else p['npts']
            out = []
            for _ in range(2 if p['twice'] else 1):
                rec.calls = []
                if p['method'] == 'volume':
                    s.estimate_volume(n_mc_points=npts)
                elif p['method'] == 'radii':
                    s.estimate_radii(n_mc_points=npts, normalize=p['normalize'])
                else:
                    s.estimate_radii_and_volume(n_mc_points=npts, normalize=p['normalize'])
                rad = s._normalized_radii if p['normalize'] else s._radii
                radl = s._normalized_radii_local if p['normalize'] else s._radii_local
                out.append({'vol': _c(s.get_volumes()), 'voll': _c(s.get_volumes_local()), 'rad': _c(rad), 'radl': _c(radl),
                            'pts': rec.points(dim), 'values': np.array(s.get_values()), 'probs': _c(s.get_probabilities())})
            return out
        vals = env.job(n, program, p['rng_seed'], p['rng_mode']).require_clean(p['method'])
        V = spec['values'] if kind == 'voronoi' else None
        for k in range(len(vals[0])):
            pts = np.vstack([vals[r][k]['pts'] for r in range(n)])
            exact = len(pts) == p['npts']
            if exact:
                env.hit('exact_reference_used')
                ptr = ref.in_cells(spec, pts)
                env.check(np.all((pts >= dom[:, 0] - 1e-12) & (pts <= dom[:, 1] + 1e-12)), 'point-outside-domain',
                          'an emulated point lies outside the domain')
                if p['rng_mode'] == 'distinct' and len(pts) > 1:
                    env.check(len(np.unique(pts, axis=0)) == len(pts), 'points-repeated',
                              'emulated points repeat across processes with independent random streams')
            for r in range(n):
                d = vals[r][k]
                what = '%s call %d rank %d of %d' % (p['method'], k, r, n)
                if p['method'] != 'radii':
                    v = d['vol']
                    env.check(v is not None and v.shape == (num,), 'volume-shape', what)
                    env.close(v.sum(), 1.0, 'volumes-do-not-sum-to-one', what)
                    env.check(np.allclose(v * p['npts'], np.round(v * p['npts']), atol=1e-6), 'volume-not-a-count', what)
                    if exact:
                        env.close(v, ref.counts(ptr, num) / p['npts'], 'wrong-volume', what)
                    env.close(d['voll'], split(v, n, r), 'wrong-local-volume', what)
                    env.close(v, vals[0][k]['vol'], 'not-replicated', what, rtol=1e-12)
                    if p['npts'] >= 1000 and p['rng_mode'] == 'distinct' and kind == 'voronoi':
                        b = ref.binom_close(v, ref.mc_cells(V, dom, spec['p'], 4000), p['npts'], 4000)
                        env.check(b is None, 'volume-off', lambda: '%s: cell %d has volume %g' % (what, b, v[b]))
                else:
                    env.check(d['vol'] is None, 'unexpected-volumes', what)
                if p['method'] != 'volume':
                    if exact:
                        s = np.where(p['normalize'], w, 1.0)
                        dist = ref.lnorm((pts - V[ptr]) / s, spec['p'])
                        want = np.zeros(num)
                        np.maximum.at(want, ptr, dist)
                        env.close(d['rad'], want, 'wrong-radius', what)
                    env.close(d['radl'], split(d['rad'], n, r), 'wrong-local-radius', what)
                    env.close(d['rad'], vals[0][k]['rad'], 'not-replicated', what, rtol=1e-12)
                if V is not None:
                    env.equal(d['values'], V, 'values-disturbed', what)
                env.equal(d['probs'], spec['prob'], 'probabilities-disturbed', what)


def _c(a):
    return None if a is None else np.array(a)


@register
class DerivedVolumes(Scenario):
    """Volumes from an emulated set, by the Monte Carlo assumption, and exact ones."""
    prop = 'P07'
    name = 'derived_volumes'
    weight = 2
    mins = {'n': 1, 'num': 1, 'enum': 1, 'dim': 1}

    def gen(self, rng, tier):
        m = rng.choice(['emulated', 'emulated', 'mc', 'exact1', 'exact2', 'lebesgue', 'ball', 'disc_emulated'])
        return {'n': pick_n(rng, tier), 'method': m, 'num': rng.choice([2, 3, 5, 8, 13, 24]) if m == 'exact2' else rng.choice([1, 2, 3, 5, 8, 13, 24]),
                'dim': {'exact1': 1, 'exact2': 2}.get(m, rng.randint(1, 3)), 'enum': rng.choice([1, 5, 20, 131, 400]),
                'how': rng.choice(['global', 'block']), 'ehow': rng.choice(['global', 'block', 'uneven']),
                'globalize': rng.random() < 0.5, 'pnorm': rng.choice([1.0, 2.0, 'inf']), 'side': rng.choice([1.0, 1.0, 0.6, None]),
                'which': rng.choice(['in', 'out']), 'data_seed': rng.randrange(10 ** 6)}

    def valid(self, p):
        return p['dim'] == {'exact1': 1, 'exact2': 2}.get(p['method'], p['dim'])

    def run(self, env, p):
        n, dim, num = p['n'], p['dim'], p['num']
        rs = env.data(p['data_seed'])
        dom = build.domain(rs, dim)
        w = dom[:, 1] - dom[:, 0]
        if p['method'] == 'exact2' and p['side'] is None:
            num = 3 * num + 40           # enough samples for the usual strip of mirrored ones
        X = dom[:, 0] + w * rs.rand(num, dim)
        E = dom[:, 0] + w * rs.rand(p['enum'], dim)
        er = ranges(rs, p['enum'], n, p['ehow'])
        po = 2.0 if p['method'] in ('exact1', 'exact2') else pn(p['pnorm'])
        spec = None
        if p['method'] in ('lebesgue', 'ball'):
            q = {'pkind': 'ball' if p['method'] == 'ball' else ['rect', 'cart'][num % 2], 'pcells': num,
                 'pnorm_out': p['pnorm'] if p['pnorm'] != 'inf' else 2.0, 'pzero': False}
            spec = prob_spec(rs, q, dim, dom.T)

        def program(R):
            sample = R.mod('bet.sample')
            if spec is not None:
                s = make_prob_set(sample, spec, dim)
            else:
                s = sample.sample_set(dim)
                s.set_p_norm(po)
                s.set_values(np.array(X))
            s.set_domain(np.array(dom))
            if p['how'] == 'block':
                s.global_to_local()
            emu = sample.sample_set(dim)
            place(emu, {'_values': E}, er[R.rank], p['ehow'])
            if p['method'] == 'emulated':
                s.estimate_volume_emulated(emu)
            elif p['method'] == 'disc_emulated':
                o = sample.sample_set(dim)
                o.set_values(np.array(X))
                if p['which'] == 'in':
                    d = sample.discretization(s, o)
                    d.set_emulated_input_sample_set(emu)
                    d.estimate_input_volume_emulated()
                else:
                    d = sample.discretization(o, s)
                    d.set_emulated_output_sample_set(emu)
                    d.estimate_output_volume_emulated()
            elif p['method'] == 'mc':
                if not p['globalize']:
                    s.global_to_local()
                s.estimate_volume_mc(globalize=p['globalize'])
                if not p['globalize']:
                    s.local_to_global()
            elif p['method'] == 'exact1':
                s.exact_volume_1D()
            elif p['method'] == 'exact2':
                if p['side'] is None:
                    s.exact_volume_2D()
                else:
                    s.exact_volume_2D(side_ratio=p['side']) if p['side'] != 1.0 else s.exact_volume_2D(1.0)
            elif p['method'] == 'lebesgue':
                s.exact_volume_lebesgue()
            else:
                s.exact_volume()
            if p['method'] in ('lebesgue', 'ball') and p['how'] == 'block':
                s.global_to_local()
            return _c(s.get_volumes()), _c(s.get_volumes_local()), np.array(s.get_values())
        if p['method'] in ('emulated', 'disc_emulated'):
            want = ref.counts(ref.nearest(X, E, po), num) / p['enum']
        elif p['method'] == 'mc':
            want = np.full(num, 1.0 / num)
        elif p['method'] == 'exact1':
            want = ref.volumes_1d(X[:, 0], dom[0])
        elif p['method'] == 'exact2':
            # reflecting enough points reproduces the clipped cells; otherwise skip the plan
            want = ref.volumes_2d(X, dom)
            if p['side'] is None and not np.allclose(want, reflected(X, dom, 0.25), atol=1e-7):
                return env.hit('too_few_for_strip')
            if p['side'] not in (1.0, None) and not np.allclose(want, reflected(X, dom, p['side']), atol=1e-9):
                want = reflected(X, dom, p['side'])
                env.hit('partial_reflection')
        elif p['method'] == 'lebesgue':
            v = np.prod((spec['hi'] - spec['lo']) / w, axis=1)
            want = np.concatenate((v, [1 - v.sum()]))
        else:
            from math import gamma
            q = spec['p']
            v = (2 * spec['r']) ** dim * gamma(1 + 1.0 / q) ** dim / gamma(1 + dim / q) / np.prod(w)
            want = np.concatenate((v, [1 - v.sum()]))
        vals = env.job(n, program).require_clean(p['method'])
        rt = 1e-7 * (w.max() / w.min() if p['method'] == 'exact2' else 1.0)      # flat domains cost Qhull its accuracy
        for r in range(n):
            v, vl, x = vals[r]
            what = '%s rank %d of %d' % (p['method'], r, n)
            env.close(v, want, 'wrong-volume', what, rtol=rt, atol=rt / 100)
            if not (p['method'] in ('lebesgue', 'ball') and p['how'] == 'global'):
                env.close(vl, split(want, n, r), 'wrong-local-volume', what, rtol=rt, atol=rt / 100)
            env.close(v, vals[0][0], 'not-replicated', what, rtol=1e-12)
            if spec is None:
                env.equal(x, X, 'values-disturbed', what)


def reflected(X, dom, side):
    """Cell areas when only the points within `side` of each edge are mirrored across it."""
    from scipy.spatial import ConvexHull, Voronoi
    pts = [X]
    for d in range(2):
        wd = dom[d, 1] - dom[d, 0]
        m = X[X[:, d] < dom[d, 0] + side * wd].copy()
        m[:, d] = 2 * dom[d, 0] - m[:, d]
        pts.append(m)
        m = X[X[:, d] > dom[d, 1] - side * wd].copy()
        m[:, d] = 2 * dom[d, 1] - m[:, d]
        pts.append(m)
    V = Voronoi(np.vstack(pts))
    out = np.zeros(len(X))
    for i in range(len(X)):
        reg = V.regions[V.point_region[i]]
        if -1 not in reg:
            out[i] = ConvexHull(V.vertices[reg]).volume
    return out / np.prod(dom[:, 1] - dom[:, 0])


@register
class LocalVolumes(Scenario):
    """estimate_local_volume: each rank emulates around its own cells only."""
    prop = 'P07'
    name = 'local_volumes'
    weight = 0.12
    mins = {'n': 1, 'num': 2, 'dim': 1}

    def gen(self, rng, tier):
        return {'n': pick_n(rng, tier, hi=5), 'num': rng.choice([2, 3, 5, 8]), 'dim': rng.randint(1, 2),
                'pnorm': rng.choice([2.0, 2.0, 'inf', 1.0]), 'how': rng.choice(['global', 'block']), 'crowd': rng.random() < 0.3,
                'enough': rng.choice([50, 60, 300, 300, 500]), 'most': rng.choice([1000, 1000, 1001]),
                'rng_seed': rng.randrange(10 ** 6), 'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        n, dim, num = p['n'], p['dim'], p['num']
        rs = env.data(p['data_seed'])
        dom = build.domain(rs, dim)
        # equal sides: local volumes are those of the cells of the normalized samples, and the radii that bound the search are those
        # of the cells of the samples as they are; the two agree when the sides do
        side = dom[0, 1] - dom[0, 0]
        dom[:, 0] = side * rs.uniform(-3, 2, dim)
        dom[:, 1] = dom[:, 0] + side
        X = dom[:, 0] + (dom[:, 1] - dom[:, 0]) * rs.rand(num, dim)
        if p['crowd'] and num > 2:
            # the cell of sample 1 is a sliver between its neighbours, too thin to be hit
            step = 1e-9 * side * np.array([1.0, 0.37])[:dim]      # in a direction without ties in any norm
            X[0], X[2] = X[1] - step, X[1] + step
        unit = np.repeat([[0.0, 1.0]], dim, 0)
        U = (X - dom[:, 0]) / (dom[:, 1] - dom[:, 0])
        po = pn(p['pnorm'])

        def program(R):
            sample = R.mod('bet.sample')
            s = sample.sample_set(dim)
            s.set_p_norm(po)
            s.set_values(np.array(X))
            s.set_domain(np.array(dom))
            if p['how'] == 'block':
                s.global_to_local()
            s.estimate_local_volume(num_emulate_local=p.get('enough', 300), max_num_emulate=p.get('most', 1000))
            return _c(s.get_volumes()), _c(s.get_volumes_local()), np.array(s.get_values())
        vals = env.job(n, program, p['rng_seed']).require_clean('estimate_local_volume')
        want = ref.mc_cells(U, unit, po, 20000)
        for r in range(n):
            v, vl, x = vals[r]
            what = 'rank %d of %d' % (r, n)
            env.close(v.sum(), 1.0, 'volumes-do-not-sum-to-one', what)
            env.close(v, vals[0][0], 'not-replicated', what, rtol=1e-12)
            env.close(vl, split(v, n, r), 'wrong-local-volume', what)
            env.equal(x, X, 'values-disturbed', what)
            bad = np.abs(v - want) > 0.35 * want + 0.03
            env.check(not bad.any(), 'volume-off', lambda: '%s: estimated %s, about %s expected' % (what, v, want))


@register
class SimpleFunctions(Scenario):
    """The output distribution is the same on every rank and uses every emulated point once."""
    prop = 'P08'
    name = 'simple_functions'
    mins = {'n': 1, 'num': 2, 'M': 1, 'nem': 1, 'odim': 1, 'dim': 1}

    def gen(self, rng, tier):
        return {'n': pick_n(rng, tier), 'num': rng.choice([2, 3, 8, 15, 31]), 'odim': rng.randint(1, 3), 'dim': rng.randint(1, 2),
                'fun': rng.choice(['uu_size', 'uu_size', 'uu_scaled', 'uu_domain', 'nn', 'nn', 'un', 'un', 'reg_size', 'reg_scaled',
                                   'reg_domain', 'data', 'user', 'user']),
                'M': rng.choice([1, 2, 5, 11, 20, 45, 80]), 'nem': rng.choice([1, 4, 30, 101, 500, 2001]),
                'arg': rng.choice(['disc', 'disc', 'set', 'array']), 'how': rng.choice(['global', 'block']),
                'refval': rng.random() < 0.4, 'scalar': rng.random() < 0.3, 'floatn': rng.random() < 0.4,
                'form': rng.choice(['array', 'list', 'tuple']), 'qform': rng.choice(['array', 'array', 'list', 'tuple']), 'cscalar': rng.random() < 0.3,
                'sscale': rng.choice(['number', 'list', 'array']), 'integer': rng.random() < 0.2, 'units': rng.random() < 0.2,
                'cells': rng.randint(1, 3), 'rng_mode': rng.choice(['distinct', 'distinct', 'identical']),
                'rng_seed': rng.randrange(10 ** 6), 'then': rng.choice(['none', 'prob', 'emulated']),
                'user_arg': rng.choice(['set', 'array', 'disc']), 'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        n, num, odim, dim, M = p['n'], p['num'], p['odim'], p['dim'], p['M']
        rs = env.data(p['data_seed'])
        dom = build.domain(rs, dim)
        X = dom[:, 0] + (dom[:, 1] - dom[:, 0]) * rs.rand(num, dim)
        Y = rs.randn(num, odim) * (1 + np.arange(odim)) + 2.0
        vol = rs.rand(num) + 0.05
        Q = Y[num // 2] + 0.01
        size = 0.6 + rs.rand(odim)
        std = 0.3 + rs.rand(odim)
        if p['integer']:
            size, std = np.array([1 + d % 2 for d in range(odim)]), np.array([1 + d % 2 for d in range(odim)])
        elif p.get('units') and not p['scalar']:
            u = 10.0 ** rs.uniform(-5, 5, odim)          # every output has its own unit
            Y, Q, size, std = Y * u, Q * u, size * u, std * u
        # lists and tuples of a bare array carry no dimension, except for rectangle sizes
        lists = p['form'] != 'array' and (p['arg'] != 'array' or odim == 1 or p['fun'] in ('uu_size', 'reg_size'))
        form = {'array': np.array, 'list': list, 'tuple': tuple}[p['form'] if lists else 'array']
        item = int if p['integer'] else float
        # a bare number with a bare array only works for one output (the array carries no dimension)
        if (p['scalar'] and p['arg'] != 'array') or odim == 1:
            size_arg, std_arg = item(size[0]), item(std[0])
            size, std = np.full(odim, size[0]), np.full(odim, std[0])
        else:
            size_arg, std_arg = form([item(x) for x in size]), form([item(x) for x in std])
        rect = np.vstack([Q - size, Q + 1.5 * size])
        scale = 0.3 if p['sscale'] == 'number' else np.array([0.3 + 0.1 * d for d in range(odim)])
        scale_arg = list(scale) if p['sscale'] == 'list' else scale
        U = Q + size * (rs.rand(M, odim) - 0.5)
        Z = Q + size * (rs.rand(p['nem'], odim) - 0.5)
        cells = [p['cells'] + (d % 2) for d in range(odim)]
        cells_arg = cells
        if p['cscalar']:
            cells, cells_arg = [p['cells']] * odim, p['cells']
        E = dom[:, 0] + (dom[:, 1] - dom[:, 0]) * rs.rand(40, dim)
        nem = float(p['nem']) if p['floatn'] else p['nem']

        def program(R):
            sample = R.mod('bet.sample')
            sf = R.mod('bet.calculateP.simpleFunP')
            cp = R.mod('bet.calculateP.calculateP')
            inp, out = sample.sample_set(dim), sample.sample_set(odim)
            inp.set_values(np.array(X))
            inp.set_volumes(np.array(vol))
            out.set_values(np.array(Y))
            if p['refval']:
                out.set_reference_value(np.array(Q))
            if p['how'] == 'block':
                inp.global_to_local()
                out.global_to_local()
            d = sample.discretization(inp, out)
            arg = {'disc': d, 'set': out, 'array': np.array(Y)}[p['arg']]
            rec = Recorder(sample)
            qr = None
            if not (p['refval'] and p['arg'] != 'array'):
                qr = {'array': np.array, 'list': list, 'tuple': tuple}[p['qform'] if p['arg'] != 'array' or odim == 1 else 'array'](Q)
            f = p['fun']
            if f == 'uu_size':
                s = sf.uniform_partition_uniform_distribution_rectangle_size(arg, qr, size_arg, M, nem)
            elif f == 'uu_scaled':
                s = sf.uniform_partition_uniform_distribution_rectangle_scaled(arg, qr, scale_arg, M, nem)
            elif f == 'uu_domain':
                s = sf.uniform_partition_uniform_distribution_rectangle_domain(arg, np.array(rect), M, nem)
            elif f == 'nn':
                s = sf.normal_partition_normal_distribution(arg, qr, std_arg, M, nem)
            elif f == 'un':
                s = sf.uniform_partition_normal_distribution(arg, qr, std_arg, M, nem)
            elif f == 'reg_size':
                s = sf.regular_partition_uniform_distribution_rectangle_size(arg, qr, size_arg, cells_arg)
            elif f == 'reg_scaled':
                s = sf.regular_partition_uniform_distribution_rectangle_scaled(arg, qr, scale_arg, cells_arg)
            elif f == 'reg_domain':
                s = sf.regular_partition_uniform_distribution_rectangle_domain(arg, np.array(rect), cells_arg)
            elif f == 'data':
                s = sf.uniform_partition_uniform_distribution_data_samples(arg)
            else:
                def mk(A):
                    if p['user_arg'] == 'array':
                        return np.array(A)
                    t = sample.sample_set(odim)
                    t.set_values(np.array(A))
                    if p['user_arg'] == 'set':
                        return t
                    i = sample.sample_set(1)
                    i.set_values(np.array(A[:, :1]))
                    return sample.discretization(i, t)
                s = sf.user_partition_user_distribution(arg, mk(U), mk(Z))
            res = {'values': np.array(s.get_values()), 'prob': np.array(s.get_probabilities()), 'pts': rec.points(odim)}
            if f.startswith('reg'):
                res['lo'], res['hi'] = np.array(s._left), np.array(s._right)
                res['vol'] = np.array(s.get_volumes())
            if p['arg'] == 'disc':
                res['attached'] = d.get_output_probability_set() is s
                # pts also saw the output samples when the pointer was set
                if p['then'] == 'prob':
                    cp.prob(d)
                    res['P'] = np.array(inp.get_probabilities())
                elif p['then'] == 'emulated':
                    e = sample.sample_set(dim)
                    e.set_values(np.array(E))
                    d.set_emulated_input_sample_set(e)
                    cp.prob_on_emulated_samples(d)
                    res['P'] = np.array(e.get_probabilities())
            else:
                res['attached'] = None
            return res
        vals = env.job(n, program, p['rng_seed'], p['rng_mode']).require_clean(p['fun'])
        f = p['fun']
        B = vals[0]['values']
        P0 = vals[0]['prob']
        for r in range(n):
            what = '%s rank %d of %d' % (f, r, n)
            env.equal(vals[r]['values'], B, 'bins-differ-between-ranks', what)
            env.close(vals[r]['prob'], P0, 'probabilities-differ-between-ranks', what, rtol=1e-12)
            env.check(vals[r]['attached'] in (None, True), 'not-attached', what)
        env.check(np.all(P0 >= 0), 'negative-probability', f)
        env.close(P0.sum(), 1.0, 'probabilities-do-not-sum-to-one', f)
        spec = {'kind': 'voronoi', 'values': B, 'p': 2.0, 'prob': P0}
        if f in ('uu_size', 'uu_scaled', 'uu_domain', 'nn', 'un'):
            if f == 'uu_scaled':
                half, ctr = 0.5 * scale * (Y.max(0) - Y.min(0)), Q
            elif f == 'uu_domain':
                half, ctr = 0.5 * (rect[1] - rect[0]), rect.mean(0)
            else:
                half, ctr = 0.5 * size, Q
            env.check(B.shape == (M, odim), 'bin-count', f)
            if f.startswith('uu'):
                env.check(np.all(np.abs(B - ctr) <= 1.5 * half * (1 + 1e-9)), 'bin-outside', f)
            elif f == 'un':
                env.check(np.all(np.abs(B - Q) <= 2 * std * (1 + 1e-9)), 'bin-outside', f)
            else:
                env.check(np.all(np.abs(B - Q) <= 8 * std), 'bin-outside', f)
            if M > 1 and odim > 0:
                env.check(len(np.unique(B, axis=0)) == M, 'bins-repeat', f)
            # emulated points, as recorded at the cell lookup (the output samples are looked up too)
            pts = np.vstack([vals[r]['pts'] for r in range(n)])
            if p['arg'] == 'disc':
                known = {tuple(y) for y in Y}
                pts = np.array([x for x in pts if tuple(x) not in known]).reshape(-1, odim)
            if len(pts) == p['nem']:
                env.hit('exact_reference_used')
                cnt = ref.counts(ref.nearest(B, pts), M)
                if f.startswith('uu'):
                    env.check(np.all(np.abs(pts - ctr) <= half * (1 + 1e-9)), 'emulated-point-outside', f)
                if f == 'nn':
                    dens = np.prod(np.exp(-0.5 * ((pts - Q) / std) ** 2) / (std * np.sqrt(2 * np.pi)), axis=1)
                    v = ref.transfer(ref.nearest(B, pts), 1.0 / dens, M)
                    want = cnt * v / (cnt * v).sum()
                else:
                    want = cnt / p['nem']
                env.close(P0, want, 'wrong-probability', '%s with %d ranks' % (f, n), rtol=1e-7)
                if p['rng_mode'] == 'distinct':
                    env.check(len(np.unique(pts, axis=0)) == len(pts), 'points-repeated', f)
                if p['nem'] >= 500 and p['rng_mode'] == 'distinct':
                    if f.startswith('uu'):
                        sd, mu = half / np.sqrt(3), ctr
                    else:
                        sd, mu = std, Q
                    z = np.abs(pts.mean(0) - mu) / (sd / np.sqrt(len(pts)))
                    s2 = np.abs(pts.std(0) / sd - 1) * np.sqrt(2 * len(pts))
                    env.check(np.all(z < 7) and np.all(s2 < 9), 'emulated-distribution-off', '%s z=%s' % (f, z))
            if f != 'nn' and p['nem'] >= 500 and p['rng_mode'] == 'distinct':
                r9 = np.random.RandomState(4)
                if f.startswith('uu'):
                    R9 = ctr + half * (2 * r9.rand(6000, odim) - 1)
                else:
                    R9 = Q + std * r9.randn(6000, odim)
                b = ref.binom_close(P0, ref.counts(ref.nearest(B, R9), M) / 6000.0, p['nem'], 6000)
                env.check(b is None, 'probability-off', lambda: '%s: bin %s has probability %g' % (f, b, P0[b]))
            if f != 'nn':
                env.check(np.allclose(P0 * p['nem'], np.round(P0 * p['nem']), atol=1e-6), 'probability-not-a-count', f)
        elif f.startswith('reg'):
            if f == 'reg_scaled':
                half, ctr = 0.5 * scale * (Y.max(0) - Y.min(0)), Q
            elif f == 'reg_domain':
                half, ctr = 0.5 * (rect[1] - rect[0]), rect.mean(0)
            else:
                half, ctr = 0.5 * size, Q
            m = int(np.prod(cells))
            env.check(P0.shape == (m + 1,), 'bin-count', f)
            env.close(P0, np.concatenate((np.full(m, 1.0 / m), [0.0])), 'wrong-probability', f)
            lo, hi = vals[0]['lo'][:-1], vals[0]['hi'][:-1]
            env.close(lo.min(0), ctr - half, 'wrong-box', f)
            env.close(hi.max(0), ctr + half, 'wrong-box', f)
            for d in range(odim):
                env.close(hi[:, d] - lo[:, d], np.full(m, 2 * half[d] / cells[d]), 'wrong-cell-width', f)
            env.check(len(np.unique(np.round(lo / half, 9), axis=0)) == m, 'cells-overlap', f)
            spec = {'kind': 'rect', 'lo': lo, 'hi': hi, 'prob': P0}
        elif f == 'data':
            env.equal(B, Y, 'bins-differ-from-data', f)
            env.close(P0, np.full(num, 1.0 / num), 'wrong-probability', f)
        else:
            env.equal(B, U, 'bins-differ-from-partition', f)
            env.close(P0, ref.counts(ref.nearest(U, Z), M) / p['nem'], 'wrong-probability', '%s with %d ranks' % (f, n))
        if p['arg'] == 'disc' and p['then'] != 'none':
            cell = ref.in_cells(spec, Y)
            if p['then'] == 'prob':
                want = ref.inverse_prob(cell, vol, spec['prob'])
            else:
                want = ref.emulated_prob(cell[ref.nearest(X, E)], spec['prob'])
            for r in range(n):
                env.close(vals[r]['P'], want, 'wrong-inverse-after', '%s then %s, rank %d of %d' % (f, p['then'], r, n))

