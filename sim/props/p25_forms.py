"""P25: the form in which data are handed over does not matter, and what is handed over is not changed."""
import copy

import numpy as np

from .. import build
from ..env import Scenario, pick_n, register
from .p05_inverse import ranges

TABLE = ['plain', 'fortran', 'strided', 'list', 'transposed', 'reversed']
VECTOR = ['plain', 'strided', 'reversed']


def dress(v, form, dim=None):
    """The same numbers in another form. Tables have one row per sample."""
    v = np.array(v)
    if form == 'fortran':
        return np.asfortranarray(v)
    if form == 'strided':
        w = np.full((2 * len(v) + 1,) + v.shape[1:], -7, v.dtype)
        w[1::2] = v
        return w[1::2]
    if form == 'reversed':
        return np.array(v[::-1])[::-1]
    if form == 'list' and len(v):
        return v.tolist()
    if form == 'transposed' and v.ndim == 2 and len(v) != v.shape[1] and len(v):
        return np.ascontiguousarray(v.T)
    if form == 'flat' and v.ndim == 2 and v.shape[1] == 1:
        return v[:, 0].copy()
    return v


def alike(x, y):
    if isinstance(x, np.ndarray):
        return isinstance(y, np.ndarray) and x.shape == y.shape and x.dtype == y.dtype and np.array_equal(x, y)
    if isinstance(x, dict):
        return isinstance(y, dict) and sorted(x) == sorted(y) and all(alike(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)):
        return type(x) is type(y) and len(x) == len(y) and all(alike(a, b) for a, b in zip(x, y))
    return x == y


class Hand:
    """Hands data to the code under test and looks at them again later."""

    def __init__(self, forms, ro):
        self.forms, self.ro, self.given = forms, ro, []

    def __call__(self, slot, v):
        x = dress(v, self.forms.get(slot, 'plain'))
        if isinstance(x, np.ndarray):
            keep = x.copy()
            if self.ro:
                x.flags.writeable = False
        else:
            keep = [list(r) if isinstance(r, list) else r for r in x]
        self.given.append((slot, x, keep))
        return x

    def obj(self, slot, x):
        self.given.append((slot, x, copy.deepcopy(x)))
        return x

    def changed(self):
        for slot, x, keep in self.given:
            if not alike(x, keep):
                return slot
        return None


OPS = ['volumes', 'emulated', 'exact', 'inverse', 'inverse', 'on_emulated', 'transfer', 'model_error', 'surrogate', 'marginals', 'select', 'clip', 'merge', 'slice', 'density', 'pdf', 'normalize', 'qois', 'stencil',
       'cluster', 'evaluate', 'saved', 'append', 'distribution', 'compare', 'cells', 'draw', 'fit', 'indices']


@register
class Forms(Scenario):
    prop = 'P25'
    name = 'forms'
    mins = {'n': 1, 'num': 12, 'dim': 1, 'odim': 1, 'enum': 3}

    def gen(self, rng, tier):
        slots = {s: rng.choice(TABLE + ['flat']) for s in ('X', 'Y', 'E', 'S', 'obs', 'more')}
        slots.update({s: rng.choice(VECTOR) for s in ('P', 'V', 'reg', 'ref', 'size', 'cells', 'prob', 'w', 'radii')})
        slots.update({'size': rng.choice(VECTOR + ['list']), 'cells': rng.choice(VECTOR + ['list']), 'ee': rng.choice(['plain', 'fortran', 'strided', 'reversed']), 'points': rng.choice(['plain', 'fortran', 'strided', 'reversed']), 'J': rng.choice(['plain', 'fortran', 'strided', 'reversed']), 'dom': rng.choice(['plain', 'fortran', 'strided', 'reversed'])})
        return {'n': pick_n(rng, tier, hi=5), 'num': rng.choice([12, 17, 30]), 'dim': rng.randint(1, 3), 'odim': rng.randint(1, 2), 'enum': rng.choice([5, 20, 60]),
                'ops': [rng.choice(OPS) for _ in range(rng.randint(1, 3))], 'forms': slots, 'ints': rng.random() < 0.3, 'ro': rng.random() < 0.5, 'how': rng.choice(['global', 'block', 'local']),
                'rng_seed': rng.randrange(10 ** 6), 'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        n, num, dim = p['n'], p['num'], p['dim']
        odim = min(p['odim'], dim)
        rs = env.data(p['data_seed'])
        dom = build.domain(rs, dim)
        if p['ints']:
            lo = rs.randint(-40, 20, dim)
            dom = np.column_stack([lo, lo + rs.randint(50, 300, dim)])
        w = dom[:, 1] - dom[:, 0]
        whole = (lambda a: np.round(a).astype(int)) if p['ints'] else (lambda a: a)
        X = whole(dom[:, 0] + w * rs.rand(num, dim))
        A = rs.randint(-4, 5, (dim, odim)) + np.eye(dim, odim, dtype=int) * 9
        Y = X.dot(A) if p['ints'] else X.dot(A / w.max())
        D = {'dom': dom, 'X': X, 'Y': Y, 'E': whole(dom[:, 0] + w * rs.rand(p['enum'], dim)), 'S': whole(dom[:, 0] + w * np.column_stack([rs.permutation(9) + 0.5 * rs.rand(9) for _ in range(dim)]) / 9.5), 'P': rs.rand(num) + 0.01, 'V': rs.rand(num) + 0.1,
             'reg': rs.randint(0, 2, num), 'ee': whole(0.1 * (Y.max() - Y.min()) * rs.randn(num, odim)), 'J': whole(5 * rs.randn(num, odim, dim)), 'ref': X[0], 'more': whole(dom[:, 0] + w * rs.rand(4, dim)),
             'obs': whole(Y[:10] * 0.8 + 0.3 * Y.std(0) * rs.randn(10, odim)), 'size': whole(0.8 * (Y.max(0) - Y.min(0)) + 1), 'cells': rs.randint(1, 4, odim), 'points': dom[:, 0] + w * rs.rand(6, dim),
             'Q4': whole(5 * rs.randn(5, 4, dim)), 'radii': 0.02 * w, 'w': rs.rand(num) + 0.2}
        D['P'] = D['P'] / D['P'].sum()
        rr = ranges(rs, num, n, 'block')
        lay = p['how'] if p['forms'].get('Y') != 'transposed' or p['how'] != 'local' else 'block'

        def program(R, forms, ro, ints):
            hand = Hand(forms, ro)
            G = (lambda slot, v=None: hand(slot, D[slot] if v is None else v)) if ints else (lambda slot, v=None: hand(slot, np.array(D[slot] if v is None else v, float)))
            keep_int = lambda slot, v=None: hand(slot, D[slot] if v is None else v)
            sample = R.mod('bet.sample')
            cp, sf = R.mod('bet.calculateP.calculateP'), R.mod('bet.calculateP.simpleFunP')
            put = lambda a: None if a is None else np.array(a, float)

            def inputs(extra=()):
                s = sample.sample_set(dim)
                s.set_domain(G('dom'))
                if lay == 'local':
                    a, b = rr[R.rank]
                    s.set_values_local(dress(D['X'][a:b], 'plain'))
                    s.local_to_global()
                else:
                    s.set_values(G('X'))
                if 'V' in extra:
                    s.set_volumes(G('V'))
                if 'P' in extra:
                    s.set_probabilities(G('P'))
                if 'J' in extra:
                    s.set_jacobians(G('J'))
                if 'reg' in extra:
                    s.set_region(keep_int('reg'))
                if 'ref' in extra:
                    s.set_reference_value(G('ref'))
                if lay != 'global':
                    s.global_to_local()
                return s

            def outputs(extra=()):
                s = sample.sample_set(odim)
                s.set_values(G('Y'))
                if 'ee' in extra:
                    s.set_error_estimates(G('ee'))
                if 'reg' in extra:
                    s.set_region(keep_int('reg'))
                s.set_reference_value(G('ref', D['Y'][1]))
                if lay != 'global':
                    s.global_to_local()
                return s

            def other(slot):
                s = sample.sample_set(dim)
                s.set_domain(G('dom'))
                s.set_values(G(slot))
                return s

            def solved(extra=(), oextra=()):
                d = sample.discretization(inputs(extra), outputs(oextra))
                sf.regular_partition_uniform_distribution_rectangle_size(d, rect_size=G('size'), cells_per_dimension=keep_int('cells'))
                if 'V' not in extra:
                    d.get_input_sample_set().estimate_volume_mc()
                cp.prob(d)
                return d
            out = []
            for op in p['ops']:
                if op == 'volumes':
                    s = inputs()
                    s.estimate_volume(300)
                    out.append(put(s.get_volumes()))
                elif op == 'emulated':
                    s = inputs()
                    s.estimate_volume_emulated(other('E'))
                    out.append(put(s.get_volumes()))
                elif op == 'exact':
                    s = inputs()
                    if dim == 1:
                        s.exact_volume_1D()
                    elif dim == 2:
                        s.exact_volume_2D(1.0)
                    else:
                        s.estimate_radii(200)
                    out += [put(s.get_volumes()), put(s._radii)]
                elif op == 'inverse':
                    d = solved(('V',))
                    out.append(put(d.get_input_sample_set().get_probabilities()))
                elif op == 'on_emulated':
                    d = solved()
                    d.set_emulated_input_sample_set(other('E'))
                    cp.prob_with_emulated_volumes(d)
                    out.append(put(d.get_input_sample_set().get_probabilities()))
                    cp.prob_on_emulated_samples(d)
                    out.append(put(d.get_emulated_input_sample_set().get_probabilities()))
                elif op == 'transfer':
                    out.append(put(cp.prob_from_sample_set_with_emulated_volumes(inputs(('P',)), other('S'), other('E'))))
                elif op == 'model_error':
                    m = R.mod('bet.calculateP.calculateError').model_error(solved(('V',), ('ee',)))
                    s = other('S')
                    s.set_region(keep_int('reg', D['reg'][:9]))
                    out += [put(m.calculate_for_contour_events()), put(m.calculate_for_sample_set_region(s, int(D['reg'][0]), emulated_set=other('E')))]
                elif op == 'surrogate':
                    d = R.mod('bet.surrogates').piecewise_polynomial_surrogate(solved(('J',), ('ee',))).generate_for_input_set(other('E'), order=1)
                    d.local_to_global()
                    out += [put(d.get_output_sample_set().get_values()), put(d.get_output_sample_set().get_error_estimates())]
                elif op == 'marginals':
                    pp = R.mod('bet.postProcess.plotP')
                    b, m = pp.calculate_1D_marginal_probs(inputs(('P',)), keep_int('cells', np.arange(2, 2 + dim)))
                    out += [put(m[i]) for i in range(dim)]
                    m = pp.smooth_marginals_1D(hand.obj('marginals', m), hand.obj('bins', b), sigma=G('radii', 0.3 * w))
                    out += [put(m[i]) for i in range(dim)]
                    if dim > 1:
                        b, m = pp.calculate_2D_marginal_probs(inputs(('P',)), keep_int('cells', np.arange(2, 2 + dim)))
                        out += [put(x) for _, x in sorted(m.items())]
                        m = pp.smooth_marginals_2D(hand.obj('marginals', m), hand.obj('bins', b), sigma=G('radii', 0.3 * w))
                        out += [put(x) for _, x in sorted(m.items())]
                elif op == 'select':
                    pt = R.mod('bet.postProcess.postTools')
                    k, s, i = pt.sample_highest_prob(0.6123, inputs(('P', 'V')))
                    out += [put(k), put(s.get_values()), put(i)]
                elif op == 'clip':
                    s = inputs(('P', 'V')).clip(7)
                    out += [put(s.get_values()), put(s.get_volumes())]
                elif op == 'merge':
                    t = other('more')
                    s = inputs().merge(t)
                    out.append(put(s.get_values()))
                elif op == 'slice':
                    d = sample.discretization(inputs(('P',)), outputs())
                    e = d.choose_inputs_outputs(inputs=[dim - 1], outputs=[0])
                    out += [put(e.get_input_sample_set().get_values()), put(e.get_output_sample_set().get_values())]
                elif op == 'density':
                    o = sample.sample_set(odim)
                    o.set_values(G('obs'))
                    d = sample.discretization(inputs(), outputs(), output_observed_set=o)
                    cr = R.mod('bet.calculateP.calculateR')
                    cr.print = lambda *a, **k: None
                    m, c, cw = cr.invert_to_multivariate_gaussian(d)
                    out += [put(d.get_input_sample_set().get_weights()), put(m), put(c)]
                elif op == 'pdf':
                    s = inputs(('P', 'V'))
                    s.set_prob_type('voronoi')
                    out += [put(s.pdf(G('points', D['points']))), put(s.marginal_pdf(np.array(D['points'][:, 0]), 0))]
                elif op == 'normalize':
                    s = inputs(('ref',))
                    s.normalize_domain()
                    out.append(put(s.get_values()))
                    s.undo_normalize_domain()
                    out += [put(s.get_values()), put(s.get_domain()), put(s.get_reference_value())]
                elif op == 'qois':
                    c = sample.sample_set(dim)
                    c.set_jacobians(G('J', D['Q4']))
                    cq = R.mod('bet.sensitivity.chooseQoIs')
                    out += [put(cq.calculate_avg_measure(c, [0, 1, 2, 3][:dim])[0]), put(cq.calculate_avg_skewness(c, [0, 1, 2, 3][:dim])[0])]
                elif op in ('stencil', 'cluster'):
                    gr = R.mod('bet.sensitivity.gradients')
                    c = other('S')
                    if op == 'stencil':
                        s = gr.pick_cfd_points(c, hand('radii', D['radii']))
                    else:
                        s = gr.sample_lp_ball(c, 2 * dim + 3, float(w.min() / 4), p_num=2)
                    o = sample.sample_set(odim)
                    o.set_values(hand('Y', s.get_values().dot(A)))
                    d = sample.discretization(s, o)
                    g = gr.calculate_gradients_cfd(d) if op == 'stencil' else gr.calculate_gradients_rbf(d, 2 * dim + 3)
                    out += [put(s.get_values()), put(g.get_input_sample_set().get_jacobians())]
                elif op == 'evaluate':
                    b = R.mod('bet.sampling.basicSampling')
                    d = b.sampler(lambda x: np.atleast_2d(x).dot(A) + 1).compute_qoi_and_create_discretization(inputs(('ref',)))
                    out += [put(d.get_output_sample_set().get_values()), put(d.get_output_sample_set().get_reference_value())]
                elif op == 'saved':
                    u = R.mod('bet.util')
                    s = inputs(('P', 'V', 'J', 'reg', 'ref'))
                    s.save('form')
                    t = u.load_object('form')
                    out += [put(t.get_values()), put(t.get_probabilities()), put(t.get_volumes()), put(t.get_jacobians()), put(t.get_region()), put(t.get_domain()), put(t.get_reference_value())]
                elif op == 'append':
                    s = sample.sample_set(dim)
                    s.set_values(G('X'))
                    s.append_values(G('more'))
                    out += [put(s.get_values()), put(s.query(np.array(D['points']))[1]), put(s.check_num())]
                elif op == 'distribution':
                    o = outputs()
                    for f, kw in ((sf.uniform_partition_uniform_distribution_rectangle_size, {'rect_size': G('size')}), (sf.uniform_partition_normal_distribution, {'std': hand('size', D['size'] / 9.0)})):
                        t = f(o, M=4, num_d_emulate=200, **kw)
                        out += [put(t.get_values()), put(t.get_probabilities())]
                elif op == 'compare':
                    s, t = inputs(('P', 'V')), inputs(('P',))
                    s.set_prob_type('voronoi')
                    t.set_prob_type('voronoi')
                    c = R.mod('bet.postProcess.compareP').compare(s, t)
                    c.set_compare_set(hand('J', D['points']))
                    out += [put(c.distance('tv')), put(c.distance('2'))]
                elif op == 'cells':
                    s = sample.rectangle_sample_set(dim)
                    lo = D['S'][:3]
                    s.setup(G('J', lo + whole(0.3 * w + 1)), G('J', lo))
                    s.set_domain(G('dom', np.column_stack([dom[:, 0], dom[:, 1] + 2 * w])))
                    s.exact_volume_lebesgue()
                    t = sample.ball_sample_set(dim)
                    t.setup(G('J', lo), hand('radii', 0.2 * w.min() * np.arange(1, 4)))
                    out += [put(s.get_volumes()), put(s.query(np.array(D['points']))[1]), put(t.query(np.array(D['points']))[1])]
                elif op == 'draw':
                    b = R.mod('bet.sampling.basicSampling')
                    rv = hand.obj('rv', [['norm', {'loc': 1.0 + i, 'scale': 2.0}] if i % 2 else ['beta', {'a': 2.0, 'b': 3.0, 'loc': 1.0, 'scale': 2.0}] for i in range(dim)])
                    out.append(put(b.random_sample_set(rv, dim, 11).get_values()))
                    pair = hand.obj('rv', ['uniform', {'loc': -1.0, 'scale': 5.0}])
                    out.append(put(b.random_sample_set(pair, inputs(), 7).get_values()))
                    out.append(put(b.regular_sample_set(G('dom'), num_samples_per_dim=keep_int('cells', np.arange(2, 2 + dim))).get_values()))
                    out += [put(t.get_domain()) for t in [b.lhs_sample_set(G('dom'), 5, 'center')]]
                    out.append(put(b.random_sample_set('r', G('dom'), 6).get_values()))
                elif op == 'fit':
                    o = sample.sample_set(odim)
                    o.set_values(G('obs'))
                    d = sample.discretization(inputs(), outputs(), output_observed_set=o)
                    cr = R.mod('bet.calculateP.calculateR')
                    cr.print = lambda *a, **k: None
                    rv = hand.obj('rv', ['norm', {'floc': 2.0}] if p['rng_seed'] % 2 else [['norm', {'fscale': 3.0}], ['uniform', {}], ['norm', {}]][:dim])
                    cr.invert_to_random_variable(d, rv, num_reweighted=200)
                    for name, par in d.get_input_sample_set().get_prob_parameters():
                        out.append(put([par[k] for k in sorted(par)]))
                elif op == 'indices':
                    d = solved(('V',))
                    idx, tops = hand.obj('indices', [0, dim - 1]), hand.obj('outputs', [odim - 1])
                    e = d.choose_inputs_outputs(inputs=idx, outputs=tops)
                    out += [put(e.get_input_sample_set().get_values()), put(e.get_output_sample_set().get_values())]
                    c = sample.sample_set(dim)
                    c.set_jacobians(G('J', D['Q4']))
                    cq = R.mod('bet.sensitivity.chooseQoIs')
                    sets = hand.obj('sets', [list(range(dim)), list(range(4 - dim, 4))])
                    out += [put(x) for x in sorted(cq.chooseOptQoIs(c, hand.obj('indices', [0, 1, 2, 3]), num_optsets_return=2)[:, 0])]
                    out += [put(cq.calculate_avg_condnum(c, q)[0]) for q in sets]
            return out, hand.changed()
        fs = env.new_fs()
        a = env.job(n, lambda R: program(R, {}, False, False), p['rng_seed'], fs=fs).require_clean('plain arrays')
        forms = dict(p['forms'])
        if 'cells' in p['ops']:
            forms['radii'] = 'plain' if forms['radii'] == 'list' else forms['radii']
        b = env.job(n, lambda R: program(R, forms, p['ro'], True), p['rng_seed'], fs=fs).require_clean('other forms of the same data')
        for r in range(n):
            for what, (res, changed) in (('plain', a[r]), ('other forms', b[r])):
                env.check(changed is None, 'caller-data-changed', lambda: '%s in %s, %s, rank %d of %d' % (changed, p['ops'], what, r, n))
            env.check(len(a[r][0]) == len(b[r][0]), 'form-matters', 'number of results')
            for k, (x, y) in enumerate(zip(a[r][0], b[r][0])):
                env.close(y, x, 'form-matters', 'result %d of %s, rank %d of %d' % (k, p['ops'], r, n), rtol=1e-9, atol=1e-11)
        for op in p['ops']:
            env.hit('op:' + op)


@register
class Helpers(Scenario):
    """The helpers of bet.util that bring data into shape give the same numbers whatever the form."""
    prop = 'P25'
    name = 'helpers'
    weight = 0.25
    mins = {'n': 1, 'num': 1, 'dim': 1}

    def gen(self, rng, tier):
        return {'n': pick_n(rng, tier, hi=3), 'num': rng.choice([1, 2, 3, 5, 9]), 'dim': rng.randint(1, 4), 'axes': [rng.randint(1, 3) for _ in range(rng.randint(1, 5))],
                'call': rng.choice(['vector', 'vector_2d', 'domain', 'data', 'data_dim', 'mesh', 'clean']), 'form': rng.choice(['plain', 'list', 'tuple', 'scalar', 'strided', 'fortran', 'ints', 'flat', 'other_way']),
                'ro': rng.random() < 0.5, 'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        n, num, dim, call, form = p['n'], p['num'], p['dim'], p['call'], p['form']
        rs = env.data(p['data_seed'])
        vec = rs.randint(-9, 10, num).astype(float) if form == 'ints' else rs.randn(num) * 10.0 ** rs.randint(-8, 9)
        tab = rs.randint(-9, 10, (num, dim)).astype(float) if form == 'ints' else rs.randn(num, dim)
        dom = build.domain(rs, dim)
        axes = [np.sort(rs.randn(k)) for k in p['axes']]

        def shape(v):
            if form == 'list':
                return v.tolist()
            if form == 'tuple':
                return tuple(v.tolist())
            if form == 'ints':
                return v.astype(int)
            if form == 'scalar' and v.size == 1:
                return float(v.ravel()[0])
            if form == 'flat' and 1 in v.shape:
                return v.ravel().copy()
            if form == 'other_way' and v.ndim == 2 and v.shape[0] != v.shape[1]:
                return np.ascontiguousarray(v.T)
            return dress(v, form)

        def program(R):
            U = R.mod('bet.util')
            hard = np.array(tab)
            hard.ravel()[rs_bad::3] = [np.nan, np.inf, -np.inf][rs_bad]
            if call in ('vector', 'vector_2d'):
                x = shape(vec)
                fn, want = (U.fix_dimensions_vector, vec) if call == 'vector' else (U.fix_dimensions_vector_2darray, vec[:, None])
            elif call == 'domain':
                x = shape(dom)
                if isinstance(x, np.ndarray) and x.dtype != float or isinstance(x, (list, tuple)):
                    x = np.array(dom) if dim > 1 else dom[0].tolist()      # lists hold the bounds of one coordinate
                fn, want = U.fix_dimensions_domain, dom
            elif call == 'data':
                x = vec if form == 'flat' else shape(tab)
                if form == 'other_way':
                    x = np.array(tab)                                      # which way round cannot be told without the dimension
                if form == 'flat':
                    fn, want = U.fix_dimensions_data, vec[:, None]
                else:
                    fn, want = U.fix_dimensions_data, tab
            elif call == 'data_dim':
                x = shape(tab)
                fn, want = (lambda v: U.fix_dimensions_data(v, dim)), tab
            elif call == 'clean':
                x, fn = dress(hard, form), U.clean_data
                want = np.where(np.isnan(hard), 0.0, np.where(np.isinf(hard), np.sign(hard) * np.finfo(float).max, hard)).reshape(np.shape(x))
            else:
                x = [shape(a) if form != 'scalar' else np.array(a) for a in axes]
                x = tuple(x) if p['ro'] else x
                fn = U.meshgrid_ndim
                ax = [a.astype(int).astype(float) for a in axes] if form == 'ints' else axes
                want = np.vstack([a.ravel() for a in np.meshgrid(*ax, indexing='ij')]).T
            keep = copy.deepcopy(x)
            if isinstance(x, np.ndarray) and p['ro']:
                x.flags.writeable = False
            y = fn(x)
            return np.array(y, float), np.array(want), isinstance(y, np.ndarray) and y.shape == want.shape, (x.tobytes() == keep.tobytes() if isinstance(x, np.ndarray) else repr(x) == repr(keep))
        rs_bad = p['data_seed'] % 3
        for r, (y, want, ok, same) in enumerate(env.job(n, program).require_clean(call)):
            what = '%s given as %s, rank %d' % (call, form, r)
            env.check(ok, 'wrong-shape', lambda: '%s: %s instead of %s' % (what, y.shape, want.shape))
            env.equal(y, want, 'wrong-numbers', what)
            env.check(same, 'argument-changed', what)
        env.hit('helper:' + call)
