"""P15: clipping, merging, copying, slicing and normalizing distributed sample sets keeps samples whole and in step."""
import numpy as np

from .. import build, ref
from ..env import Scenario, pick_n, register
from .p05_inverse import ranges
from .p14_post import put

SKIP = ('_kdtree_values',)


def block(a, rr, r):
    return a[rr[r][0]:rr[r][1]]


def even(num, n):
    idx = np.array_split(np.arange(num), n)
    return [(int(i[0]), int(i[-1]) + 1) if len(i) else (0, 0) for i in idx]


@register
class Clip(Scenario):
    prop = 'P15'
    name = 'clip'
    mins = {'n': 1, 'num': 1, 'dim': 1, 'odim': 1, 'cnum': 1}

    def gen(self, rng, tier):
        num = rng.choice([1, 2, 3, 5, 9, 16])
        return {'n': pick_n(rng, tier), 'num': num, 'cnum': rng.choice([1, max(1, num // 2), max(1, num - 1), num, num + 3]), 'dim': rng.randint(1, 3), 'odim': rng.randint(1, 2),
                'fields': sorted(set(['_values'] + [f for f in build.ALL_FIELDS if f not in SKIP and rng.random() < 0.4])),
                'how': rng.choice(['global', 'block', 'uneven', 'local']), 'obj': rng.choice(['set', 'disc']), 'query': rng.random() < 0.5,
                'sets': [s for s in ('prob', 'emu_in', 'emu_out', 'obs') if rng.random() < 0.5], 'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        n, num, dim, odim = p['n'], p['num'], p['dim'], p['odim']
        rs = env.data(p['data_seed'])
        A = {f: build.field(rs, f, num, dim, odim) for f in p['fields']}
        Y = rs.rand(num, odim)
        other = {k: rs.rand(4, dim if k == 'emu_in' else odim) for k in p['sets']}
        rr = ranges(rs, num, n, 'uneven' if p['how'] == 'uneven' else 'block')
        probe = rs.rand(5, dim)
        m = min(p['cnum'], num)

        def program(R):
            sample = R.mod('bet.sample')
            s, t = sample.sample_set(dim), sample.sample_set(odim)
            put(s, A, rr[R.rank], p['how'])
            put(t, {'_values': Y}, rr[R.rank], p['how'])
            if p['query'] and p['how'] != 'local':
                s.query(np.array(probe))       # the clipped set must not answer for the old samples
            kw = {}
            for k, v in other.items():
                o = sample.sample_set(v.shape[1])
                o.set_values(np.array(v))
                kw[{'prob': 'output_probability_set', 'emu_in': 'emulated_input_sample_set', 'emu_out': 'emulated_output_sample_set',
                    'obs': 'output_observed_set'}[k]] = o
            if p['obj'] == 'set':
                c, keep = s.clip(p['cnum']), None
                cy = t.clip(p['cnum'])
            else:
                d = sample.discretization(s, t, **kw)
                e = d.clip(p['cnum'])
                c, cy = e.get_input_sample_set(), e.get_output_sample_set()
                keep = {'prob': e.get_output_probability_set(), 'emu_in': e.get_emulated_input_sample_set(), 'emu_out': e.get_emulated_output_sample_set(),
                        'obs': e.get_output_observed_set()}
                keep = {k: None if v is None else np.array(v.get_values()) for k, v in keep.items()}
            c.set_p_norm(2.0)
            g = lambda o, f: None if getattr(o, f) is None else np.array(getattr(o, f))
            res = {'g': {f: g(c, f) for f in p['fields']}, 'l': {f: g(c, f + '_local') for f in p['fields']}, 'y': g(cy, '_values'), 'yl': g(cy, '_values_local'),
                   'q': np.array(c.query(np.array(probe))[1]), 'num': c.check_num(), 'keep': keep}
            if c._values_local is not None:
                c.local_to_global()
            res['g2'] = {f: g(c, f) for f in p['fields']}
            s.check_num()
            res['src'] = {f: g(s, f) for f in p['fields']}
            res['srcl'] = {f: g(s, f + '_local') for f in p['fields']}
            return res
        vals = env.job(n, program).require_clean('clip')
        er = even(m, n)
        for r, v in enumerate(vals):
            what = 'clip %d of %d, rank %d of %d' % (p['cnum'], num, r, n)
            env.check(v['num'] == m, 'wrong-number', what)
            for f in p['fields']:
                env.equal(v['g'][f], A[f][:m], 'wrong-samples', what + f)
                env.equal(v['g2'][f], A[f][:m], 'wrong-samples-after-globalizing', what + f)
                if p['how'] != 'global':
                    env.equal(v['l'][f], block(A[f][:m], er, r), 'wrong-local-part', what + f)
                    env.equal(v['srcl'][f], block(A[f], rr, r), 'source-disturbed', what + f)
                if p['how'] != 'local':
                    env.equal(v['src'][f], A[f], 'source-disturbed', what + f)
            env.equal(v['y'], Y[:m], 'outputs-out-of-step', what)
            if p['how'] != 'global':
                env.equal(v['yl'], block(Y[:m], er, r), 'outputs-out-of-step', what)
            env.equal(v['q'], ref.nearest(A['_values'][:m], probe), 'stale-lookup', what)
            if v['keep'] is not None:
                for k in v['keep']:
                    env.equal(v['keep'][k], other.get(k), 'sets-lost', what + k)


@register
class Merge(Scenario):
    prop = 'P15'
    name = 'merge'
    mins = {'n': 1, 'na': 1, 'nb': 1, 'dim': 1, 'odim': 1}

    def gen(self, rng, tier):
        return {'n': pick_n(rng, tier), 'na': rng.choice([1, 2, 5, 11]), 'nb': rng.choice([1, 3, 8]), 'ea': rng.choice([1, 6]), 'eb': rng.choice([2, 7]), 'dim': rng.randint(1, 3),
                'odim': rng.randint(1, 2), 'ha': rng.choice(['global', 'block', 'local', 'uneven']), 'hb': rng.choice(['global', 'block', 'local', 'uneven']),
                'obj': rng.choice(['set', 'disc', 'disc']), 'emu': rng.choice(['none', 'both', 'both', 'a', 'b', 'mixed']), 'p_norm': rng.choice([2.0, 2.0, 1.0, np.inf]), 'pb': rng.choice([None, None, 1.0, 3.0]), 'po': rng.choice([2.0, 1.0, np.inf]), 'he': rng.choice(['global', 'block', 'uneven']), 'dom': rng.choice(['none', 'a', 'b', 'both']), 'after': rng.random() < 0.5,
                'sets': [s for s in ('prob', 'obs') if rng.random() < 0.5], 'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        n, dim, odim = p['n'], p['dim'], p['odim']
        rs = env.data(p['data_seed'])
        f = lambda X: np.column_stack([np.cos((k + 1) * X).sum(1) for k in range(odim)])
        X = [rs.rand(p['na'], dim), rs.rand(p['nb'], dim)]
        Ei = [rs.rand(p['ea'], dim), rs.rand(p['eb'], dim)]
        Eo = [f(e) for e in Ei]
        PR, OB = rs.rand(3, odim), rs.rand(2, odim)
        how = [p['ha'], p['hb']]
        rr = [ranges(rs, len(X[k]), n, 'uneven' if how[k] == 'uneven' else 'block') for k in (0, 1)]
        dom = build.domain(rs, dim)
        emu = {'none': ((), ()), 'both': ((0, 1), (0, 1)), 'a': ((0,), (0,)), 'b': ((1,), (1,)), 'mixed': ((0, 1), (1,))}[p['emu']]
        re = [ranges(rs, len(Ei[k]), n, 'uneven' if p.get('he') == 'uneven' else 'block') for k in (0, 1)]

        def program(R):
            sample = R.mod('bet.sample')
            ds = []
            for k in (0, 1):
                s, t = sample.sample_set(dim), sample.sample_set(odim)
                if p['dom'] == 'both' or p['dom'] == 'ab'[k]:
                    s.set_domain(np.array(dom))
                put(s, {'_values': X[k]}, rr[k][R.rank], how[k])
                put(t, {'_values': f(X[k])}, rr[k][R.rank], how[k])
                kw = {}
                s.set_p_norm(p.get('pb') or p.get('p_norm', 2.0) if k else p.get('p_norm', 2.0))
                t.set_p_norm(p.get('po', 2.0))
                for j, (key, v) in enumerate((('emulated_input_sample_set', Ei[k]), ('emulated_output_sample_set', Eo[k]))):
                    if k in emu[j]:
                        e = sample.sample_set(v.shape[1])
                        put(e, {'_values': v}, re[k][R.rank], p.get('he', 'global'))
                        kw[key] = e
                if k == 0:
                    for key, nm, v in (('output_probability_set', 'prob', PR), ('output_observed_set', 'obs', OB)):
                        if nm in p['sets']:
                            e = sample.sample_set(odim)
                            e.set_values(np.array(v))
                            kw[key] = e
                ds.append(sample.discretization(s, t, **kw))
            src = [(d.get_input_sample_set(), d.get_output_sample_set()) for d in ds]
            if p['obj'] == 'set':
                a, b = src[0][0].merge(src[1][0]), src[0][1].merge(src[1][1])
                ex = None
            else:
                m = ds[0].merge(ds[1])
                a, b = m.get_input_sample_set(), m.get_output_sample_set()
                gv = lambda s: None if s is None else np.array(s.get_values())
                ex = [gv(m.get_emulated_input_sample_set()), gv(m.get_emulated_output_sample_set()), gv(m.get_output_probability_set()), gv(m.get_output_observed_set())]
            g = lambda o: None if o is None else np.array(o)
            num = (a.check_num(), b.check_num())
            res = (g(a.get_values()), g(b.get_values()), g(a.get_values_local()), g(b.get_values_local()), ex, g(a.get_domain()),
                   num, (a.get_p_norm(), b.get_p_norm()))
            # what is done to the merged samples afterwards concerns only them
            parts = [a, b] + ([] if ex is None else [m.get_emulated_input_sample_set(), m.get_emulated_output_sample_set()])
            for s in parts:
                for v in () if s is None else (s._values, s._values_local, s._domain):
                    if v is not None and p.get('after'):
                        v += 7.0
            emus = [[d.get_emulated_input_sample_set(), d.get_emulated_output_sample_set()] for d in ds]
            return res + ([[g(s.get_values()) for s in q] for q in src], [[None if s is None or s.get_values() is None else np.array(s.get_values()) for s in q] for q in emus])
        vals = env.job(n, program).require_clean('merge')
        rows = lambda M: sorted(map(tuple, M))
        want = rows(np.vstack(X))
        for r, (a, b, al, bl, ex, d, num, pn, src, emus) in enumerate(vals):
            what = 'merge rank %d of %d' % (r, n)
            env.equal(a, vals[0][0], 'not-replicated', what)
            env.equal(list(pn), [p.get('p_norm', 2.0), p.get('po', 2.0)], 'other-norm', what)
            env.check(rows(a) == want, 'samples-lost-or-repeated', what)
            env.close(b, f(a), 'outputs-out-of-step', what)
            env.close(bl, f(al) if len(al) else bl, 'local-outputs-out-of-step', what)
            env.check(num == (len(want), len(want)), 'wrong-number', what)
            env.equal(d, None if p['dom'] == 'none' else dom, 'wrong-domain', what)
            for k in (0, 1):
                if how[k] != 'local':
                    env.equal(src[k][0], X[k], 'source-disturbed', what)
                    env.close(src[k][1], f(X[k]), 'source-disturbed', what)
                for j, E in enumerate((Ei, Eo)):
                    if emus[k][j] is not None:
                        env.equal(emus[k][j], E[k], 'source-disturbed', what + ' (emulated)')
            if ex is not None:
                for j, E in enumerate((Ei, Eo)):
                    if not emu[j]:
                        env.check(ex[j] is None, 'emulated-out-of-nowhere', what)
                    else:
                        env.check(ex[j] is not None and rows(ex[j]) == rows(np.vstack([E[k] for k in emu[j]])), 'emulated-lost-or-repeated', what)
                if emu[0] == emu[1] and emu[0]:
                    env.close(ex[1], f(ex[0]), 'emulated-outputs-out-of-step', what)
                env.equal(ex[2], PR if 'prob' in p['sets'] else None, 'sets-lost', what)
                env.equal(ex[3], OB if 'obs' in p['sets'] else None, 'sets-lost', what)
        env.equal(np.vstack([v[2] for v in vals]), vals[0][0], 'local-parts-differ-from-global', 'merge')


@register
class Slice(Scenario):
    """choose_inputs_outputs, copy and normalization."""
    prop = 'P15'
    name = 'slice_copy_normalize'
    mins = {'n': 1, 'num': 1, 'dim': 1, 'odim': 1}

    def gen(self, rng, tier):
        dim, odim = rng.randint(1, 4), rng.randint(1, 3)
        ins = sorted(rng.sample(range(dim), rng.randint(1, dim)), key=lambda _: rng.random())
        outs = sorted(rng.sample(range(odim), rng.randint(1, odim)), key=lambda _: rng.random())
        return {'n': pick_n(rng, tier), 'num': rng.choice([1, 2, 6, 13]), 'dim': dim, 'odim': odim, 'ins': ins, 'outs': outs, 'how': rng.choice(['global', 'block', 'uneven', 'local']),
                'jac': rng.random() < 0.6, 'ee': rng.random() < 0.5, 'refv': rng.random() < 0.5, 'bounds': rng.random() < 0.4, 'pn': rng.choice([1.0, 2.0]),
                'op': rng.choice(['slice', 'normalize', 'copy', 'normalize', 'copyd']), 'view': rng.random() < 0.6, 'data_seed': rng.randrange(10 ** 6)}

    def valid(self, p):
        return all(i < p['dim'] for i in p['ins']) and all(i < p['odim'] for i in p['outs']) and p['ins'] and p['outs']

    def run(self, env, p):
        n, num, dim, odim = p['n'], p['num'], p['dim'], p['odim']
        rs = env.data(p['data_seed'])
        dom, od = build.domain(rs, dim), build.domain(rs, odim)
        w = dom[:, 1] - dom[:, 0]
        A = {'_values': dom[:, 0] + w * rs.rand(num, dim)}
        B = {'_values': rs.rand(num, odim)}
        if p['jac']:
            A['_jacobians'] = rs.randn(num, odim, dim)
        if p['ee']:
            B['_error_estimates'] = rs.randn(num, odim)
        if p['bounds'] and p['op'] != 'slice':
            A['_left'], A['_right'] = rs.rand(num, dim), rs.rand(num, dim)
        rv = rs.rand(dim)
        ri, ro = rs.rand(dim), rs.rand(odim)
        rr = ranges(rs, num, n, 'uneven' if p['how'] == 'uneven' else 'block')

        def program(R):
            sample = R.mod('bet.sample')
            s, t = sample.sample_set(dim), sample.sample_set(odim)
            s.set_p_norm(p['pn'])
            s.set_domain(np.array(dom))
            t.set_domain(np.array(od))
            if p['refv']:
                s.set_reference_value(np.array(ri))
                t.set_reference_value(np.array(ro))
            put(s, A, rr[R.rank], p['how'])
            put(t, B, rr[R.rank], p['how'])
            if p['view'] and p['how'] in ('global', 'block'):
                s.global_to_local()      # local arrays are views of the global ones
                t.global_to_local()
            g = lambda o: None if o is None else np.array(o)
            look = lambda q: {f: g(getattr(q, f)) for f in ('_values', '_values_local', '_jacobians', '_jacobians_local', '_error_estimates', '_error_estimates_local',
                                                            '_left', '_left_local', '_right', '_right_local', '_domain', '_reference_value', '_p_norm')}
            if p['op'] == 'slice':
                d = sample.discretization(s, t).choose_inputs_outputs(list(p['ins']), list(p['outs']))
                return look(d.get_input_sample_set()), look(d.get_output_sample_set()), look(s), look(t)
            if p['op'] == 'normalize':
                keep = np.array(A['_values'])
                before = look(s)
                s.normalize_domain()
                mid = look(s)
                s.undo_normalize_domain()
                return before, mid, look(s), None
            before = look(s)
            if p['op'] == 'copyd':
                d = sample.discretization(s, t)
                c = d.copy().get_input_sample_set()
            else:
                c = s.copy()
            same = look(c)
            for f in ('_values', '_values_local', '_jacobians', '_jacobians_local', '_domain', '_reference_value'):
                if getattr(c, f) is not None:
                    getattr(c, f)[...] = -77.0
            return before, same, look(s), None
        vals = env.job(n, program).require_clean(p['op'])
        for r, (a, b, c, d) in enumerate(vals):
            what = '%s rank %d of %d' % (p['op'], r, n)
            if p['op'] == 'slice':
                I, O = p['ins'], p['outs']
                for f, sel in (('_values', I), ('_domain', None), ('_reference_value', None)):
                    pass
                for q, src, sel, M in ((a, c, I, A), (b, d, O, B)):
                    for f in ('_values', '_values_local', '_error_estimates', '_error_estimates_local'):
                        env.equal(q[f], None if src[f] is None else src[f][:, sel], 'wrong-slice', what + f)
                    env.equal(q['_domain'], src['_domain'][sel], 'wrong-slice', what + ' domain')
                    env.equal(q['_reference_value'], None if src['_reference_value'] is None else src['_reference_value'][sel], 'wrong-slice', what + ' reference')
                    env.check(q['_p_norm'] == src['_p_norm'], 'wrong-slice', what + ' norm')
                for f in ('_jacobians', '_jacobians_local'):
                    env.equal(a[f], None if c[f] is None else c[f][:, O][:, :, I], 'wrong-slice', what + f)
                self.intact(env, c, A, rr, r, p, what)
                self.intact(env, d, B, rr, r, p, what)
            elif p['op'] == 'normalize':
                for f in ('_values', '_left', '_right'):
                    for sfx in ('', '_local'):
                        x = a[f + sfx]
                        env.close(b[f + sfx], None if x is None else (x - dom[:, 0]) / w, 'wrong-normalization', what + f + sfx)
                for sfx in ('', '_local'):
                    x = a['_jacobians' + sfx]
                    env.close(b['_jacobians' + sfx], None if x is None else x * w, 'wrong-normalization', what + '_jacobians' + sfx)
                env.equal(b['_domain'], np.tile([0.0, 1.0], (dim, 1)), 'wrong-normalization', what)
                if p['refv']:
                    env.close(b['_reference_value'], (ri - dom[:, 0]) / w, 'wrong-normalization', what + ' reference')
                for f in a:
                    if isinstance(a[f], np.ndarray) and a[f].ndim:
                        env.close(c[f], a[f], 'normalization-not-undone', what + f, rtol=1e-9, atol=1e-9)
                self.intact(env, a, A, rr, r, p, what)
            else:
                for f in a:
                    env.equal(b[f], a[f], 'copy-differs', what + f)
                    env.equal(c[f], a[f], 'copy-shares-data', what + f)
                self.intact(env, a, A, rr, r, p, what)

    def intact(self, env, look, want, rr, r, p, what):
        for f, v in want.items():
            if p['how'] != 'local':
                env.equal(look[f], v, 'source-disturbed', what + f)
            if p['how'] != 'global':
                env.equal(look[f + '_local'], block(v, rr, r), 'source-disturbed', what + f)


EXTRA = ['_domain', '_bounding_box', '_reference_value', '_p_norm', '_label', '_labels', '_cluster_maps', '_weights', '_weights_init', '_prob_type', '_prob_parameters', '_prob_parameters_init']


def extra(rs, name, num, dim, k):
    """Contents of a field that is not one array per sample (k selects one of several forms)."""
    if name in ('_domain', '_bounding_box'):
        return rs.rand(dim, 2)
    if name == '_reference_value':
        return rs.rand(dim)
    if name == '_p_norm':
        return [1.0, 3.0, np.inf][k % 3]
    if name == '_label':
        return 'set' + str(k % 5)
    if name == '_labels':
        return ['x%d' % (i + k % 3) for i in range(dim)]
    if name == '_cluster_maps':
        return [np.sort(rs.choice(num, max(1, num // 2), replace=False)) for _ in range(1 + k % 3)]
    if name in ('_weights', '_weights_init'):
        return [rs.rand(num) for _ in range(1 + k % 2)] if k % 3 else rs.rand(num)
    if name == '_prob_type':
        return ['gmm', 'rv', 'kde', 'voronoi'][k % 4]
    form = k % 3
    if form == 0:
        return [['norm', {'loc': float(rs.rand()), 'scale': 1.0}] for _ in range(dim)]
    m = 1 + k % 2
    if form == 1:
        return [[rs.rand(dim) for _ in range(m)], [rs.rand(dim, dim) for _ in range(m)], list(rs.rand(m))]
    from scipy.stats import gaussian_kde
    return [[[gaussian_kde(rs.rand(8), weights=rs.rand(8)) for _ in range(m)] for _ in range(dim)], list(rs.rand(m))]


def touch(rs, v):
    """A value of the same kind that differs from v in one place (None when there is no such place)."""
    from scipy.stats import gaussian_kde
    if isinstance(v, np.ndarray):
        w = v.copy()
        if w.size == 0:
            return None
        i = tuple(rs.randint(0, s) for s in w.shape)
        w[i] = w[i] + 1 if np.isfinite(w[i]) else 0.5
        return w
    if isinstance(v, list):
        w = list(v)
        for i in rs.permutation(len(w)):
            t = touch(rs, w[i])
            if t is not None:
                w[i] = t
                return w
        return None
    if isinstance(v, dict):
        w = dict(v)
        w['loc'] = w['loc'] + 1
        return w
    if isinstance(v, str):
        return v + 'z'
    if isinstance(v, gaussian_kde):
        return gaussian_kde(touch(rs, v.dataset), weights=v.weights) if rs.rand() < 0.5 else gaussian_kde(v.dataset, weights=touch(rs, v.weights))
    if v == np.inf:
        return 2.5
    return v + 1


@register
class Equality(Scenario):
    """An object equals its copy, and no longer does after any change of its contents."""
    prop = 'P15'
    name = 'equality'
    mins = {'n': 1, 'num': 1, 'dim': 1}

    def gen(self, rng, tier):
        num = rng.choice([1, 2, 3, 5, 9])
        names = build.ALL_FIELDS + EXTRA
        fields = sorted(set(['_values'] + [f for f in names if rng.random() < 0.35]))
        return {'n': pick_n(rng, tier, hi=4), 'num': num, 'dim': rng.randint(1, 3), 'fields': fields, 'form': rng.randrange(60),
                'local': rng.random() < 0.5, 'obj': rng.choice(['set', 'disc']), 'kind': rng.choice(['sample_set', 'sample_set', 'rectangle_sample_set', 'ball_sample_set']),
                'sets': [s for s in ('prob', 'emu_in', 'emu_out', 'obs') if rng.random() < 0.4], 'ptrs': rng.random() < 0.5,
                'change': rng.choice(['touch', 'touch', 'drop', 'add', 'length', 'ptr', 'set', 'drop_set', 'add_set']), 'which': rng.randrange(10 ** 6), 'data_seed': rng.randrange(10 ** 6),
                'set_up': rng.random() < 0.3}

    def run(self, env, p):
        import copy
        n, num, dim = p['n'], p['num'], p['dim']
        names = build.ALL_FIELDS + EXTRA

        def val(rs, f, k):
            return build.field(rs, f, k, dim, 2) if f in build.ALL_FIELDS else extra(rs, f, k, dim, p['form'])

        def program(R):
            sample = R.mod('bet.sample')
            rs = np.random.RandomState(p['data_seed'])
            cls = getattr(sample, p['kind'])
            s = cls(dim)
            for f in p['fields']:
                setattr(s, f, val(rs, f, num))
            if p.get('set_up') and p['kind'] != 'sample_set':
                for f in build.ALL_FIELDS:
                    setattr(s, f, None)
                if p['kind'] == 'ball_sample_set':
                    s.setup(rs.rand(num, dim), 0.1 + rs.rand(num))
                else:
                    m = rs.rand(num, dim)
                    s.setup(m + 0.1 + rs.rand(num, dim), m)
            elif p.get('set_up'):
                s._values[rs.randint(num)] = np.nan      # a failed evaluation of a model
            if p['local']:
                s.global_to_local()
            obj = s
            if p['obj'] == 'disc':
                kw = {}
                def small(k):
                    t = sample.sample_set(k)
                    t.set_values(rs.rand(3, k))
                    return t
                for k in p['sets']:
                    kw[{'prob': 'output_probability_set', 'emu_in': 'emulated_input_sample_set', 'emu_out': 'emulated_output_sample_set', 'obs': 'output_observed_set'}[k]] = \
                        small(dim if k == 'emu_in' else 2)
                t = sample.sample_set(2)
                t.set_values(rs.rand(s.check_num(), 2))
                obj = sample.discretization(s, t, **kw)
                if p['ptrs']:
                    obj._io_ptr = rs.randint(0, 3, s.check_num())
                    obj._io_ptr_local = np.array_split(obj._io_ptr, R.size)[R.rank]
            other = obj.copy()
            res = [('copy', bool(obj == other), bool(other == obj), bool(obj != other), True)]
            # one change of the other object
            wr = np.random.RandomState(p['which'])
            tgt = other if p['obj'] == 'set' else other.get_input_sample_set()
            here = [f for f in sorted(set(p['fields'] + ['_right', '_left', '_radii', '_region'] if p.get('set_up') else p['fields'])) if getattr(tgt, f) is not None]
            c = p['change']
            what = None
            if c in ('ptr', 'set', 'drop_set', 'add_set') and p['obj'] == 'set':
                c = 'touch'
            if c == 'touch':
                f = here[wr.randint(len(here))]
                v = touch(wr, getattr(tgt, f))
                if v is not None:
                    setattr(tgt, f, v)
                    what = 'changed ' + f
            elif c == 'drop':
                f = here[wr.randint(len(here))]
                setattr(tgt, f, None)
                what = 'removed ' + f
            elif c == 'add':
                absent = [f for f in names if f not in here and getattr(tgt, f) is None and f != '_p_norm']
                f = absent[wr.randint(len(absent))]
                setattr(tgt, f, val(wr, f, num))
                what = 'added ' + f
            elif c == 'length':
                arrs = [f for f in here if isinstance(getattr(tgt, f), (np.ndarray, list))]
                f = arrs[wr.randint(len(arrs))]
                v = getattr(tgt, f)
                # one more of the same: repeated contents still are other contents
                setattr(tgt, f, np.concatenate([v, v[-1:]]) if isinstance(v, np.ndarray) else v + v[-1:])
                what = 'one more in ' + f
            elif c == 'ptr':
                if other._io_ptr is None:
                    other._io_ptr = wr.randint(0, 3, num)
                    what = 'added _io_ptr'
                elif wr.rand() < 0.3:
                    other._io_ptr = None
                    what = 'removed _io_ptr'
                else:
                    other._io_ptr = touch(wr, other._io_ptr)
                    what = 'changed _io_ptr'
            else:
                have = [x for x in other.sample_set_names if getattr(other, x) is not None and x != '_input_sample_set']
                none = [x for x in other.sample_set_names if getattr(other, x) is None]
                if c == 'set':
                    x = have[wr.randint(len(have))]
                    getattr(other, x)._values = touch(wr, getattr(other, x)._values)
                    what = 'changed values of ' + x
                elif c == 'drop_set':
                    x = have[wr.randint(len(have))]
                    setattr(other, x, None)
                    what = 'removed ' + x
                elif none:
                    x = none[wr.randint(len(none))]
                    t = sample.sample_set(2)
                    t.set_values(wr.rand(3, 2))
                    setattr(other, x, t)
                    what = 'added ' + x
            if what is not None:
                res.append((what, bool(obj == other), bool(other == obj), not bool(obj != other), False))
            return res
        vals = env.job(n, program).require_clean('comparing')
        for r, v in enumerate(vals):
            for what, ab, ba, nn, want in v:
                if want:
                    env.check(ab and ba and not nn, 'copy-not-equal', '%s rank %d of %d' % (what, r, n))
                else:
                    env.check(not (ab or ba or nn), 'change-not-seen', '%s rank %d of %d: %s' % (what, r, n, (ab, ba, nn)))


@register
class NormalizedUse(Scenario):
    """A set is used (lookups, boxes, volumes) before, while and after it is normalized."""
    prop = 'P15'
    name = 'normalized_use'
    weight = 0.4
    mins = {'n': 1, 'num': 1, 'dim': 1, 'pts': 1}

    def gen(self, rng, tier):
        return {'n': pick_n(rng, tier), 'num': rng.choice([1, 2, 6, 13]), 'dim': rng.randint(1, 3), 'kind': rng.choice(['voronoi', 'voronoi', 'rect']), 'pts': rng.choice([1, 6]), 'local': rng.random() < 0.5,
                'uses': [rng.sample(['query', 'box', 'vol'], rng.randint(0, 3)) for _ in range(3)], 'bounds': rng.random() < 0.4, 'idle': rng.random() < 0.3, 'nodomain': rng.random() < 0.1, 'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        n, num, dim = p['n'], p['num'], p['dim']
        rs = env.data(p['data_seed'])
        dom = build.domain(rs, dim)
        w = dom[:, 1] - dom[:, 0]
        X = dom[:, 0] + w * rs.rand(num, dim)
        lo = dom[:, 0] + w * np.sort(rs.rand(num, dim), 0) * 0.5
        hi = lo + w * 0.4 * rs.rand(num, dim)
        Z = dom[:, 0] + w * rs.rand(p['pts'], dim)

        def program(R):
            S = R.mod('bet.sample')
            if p['kind'] == 'rect':
                s = S.rectangle_sample_set(dim)
                s.setup(np.array(hi), np.array(lo))
            else:
                s = S.sample_set(dim)
                s.set_values(np.array(X))
            if not p['nodomain']:
                s.set_domain(np.array(dom))
            if p['bounds'] and p['kind'] == 'voronoi' and not p['nodomain']:
                s.update_bounds()
            if p['local']:
                s.global_to_local()
            out = []
            for k, uses in enumerate(p['uses']):
                if k:
                    (s.normalize_domain if k == 1 else s.undo_normalize_domain)()
                if p.get('idle') and k != 1:
                    s.undo_normalize_domain()      # not normalized: nothing to undo
                a, b = (dom[:, 0], w) if k == 1 and not p['nodomain'] else (0.0, 1.0)
                log = {}
                for u in uses:
                    if u == 'query':
                        log['query'] = np.array(s.query((Z - a) / b)[1]).ravel()
                    elif u == 'box' and p['kind'] == 'voronoi':
                        log['box'] = np.array(s.get_bounding_box()) * np.reshape(b, (-1, 1)) + np.reshape(a, (-1, 1))
                    elif u == 'vol' and not p['nodomain']:
                        if p['kind'] == 'rect':
                            s.exact_volume_lebesgue()
                        elif dim == 1:
                            s.exact_volume_1D()
                        else:
                            continue
                        log['vol'] = np.array(s.get_volumes())
                if s._width is not None:
                    m = np.isfinite(s._width)
                    log['width'] = np.where(m, s._width * b, 0.0)
                    log['edges'] = np.where(m, (s._right - s._left) * b, 0.0)
                out.append(log)
            return out
        vals = env.job(n, program).require_clean('normalized use')
        spec = {'kind': 'voronoi', 'values': X, 'p': 2.0} if p['kind'] == 'voronoi' else {'kind': 'rect', 'lo': lo, 'hi': hi}
        for r in range(n):
            for k, log in enumerate(vals[r]):
                what = '%s, rank %d of %d' % (['before', 'normalized', 'undone'][k], r, n)
                if 'query' in log:
                    # nearest is nearest in the space the values are in
                    near = k == 1 and p['kind'] == 'voronoi' and not p['nodomain']
                    env.equal(log['query'], ref.nearest((X - dom[:, 0]) / w, (Z - dom[:, 0]) / w) if near else ref.in_cells(spec, Z), 'wrong-lookup', what)
                if 'box' in log:
                    env.close(log['box'], np.column_stack([X.min(0), X.max(0)]), 'stale-bounding-box', what)
                if 'vol' in log:
                    if p['kind'] == 'rect':
                        v = np.prod((hi - lo) / w, 1)
                        v = np.append(v, 1.0 - v.sum())
                    else:
                        v = ref.volumes_1d(X[:, 0], dom[0])
                    env.close(log['vol'], v, 'wrong-volume', what)
                if 'width' in log:
                    env.close(log['width'], log['edges'], 'width-differs-from-bounds', what)
