"""P16: in any history of operations on one discretization every result follows from its current contents."""
import numpy as np

from .. import build, ref
from ..env import Scenario, pick_n, register, split
from .p05_inverse import gen_prob_set, make_prob_set, pn, prob_spec

READS = ['prob', 'prob', 'probl', 'emup', 'emupl', 'probev', 'transfer', 'query']
CHANGES = ['pset', 'pset', 'simple', 'reweight', 'emu', 'out', 'in', 'both', 'inval', 'outval', 'vol', 'mc', 'evol', 'clip', 'emuo', 'emuo', 'emuval', 'emuoval', 'outvol']
MOVES = ['g2l', 'l2g', 'ioptr', 'ioptrl', 'iiptr', 'iiptrl', 'gptrs', 'gptrs', 'ooptr', 'ooptrl', 'copy', 'saveload', 'saveload_local', 'reset_same']

SIMPLE = ['reg_scaled', 'reg_size', 'reg_domain', 'uu_scaled', 'uu_size', 'uu_domain', 'nn', 'un', 'data', 'user']


class State:
    """What the discretization holds, by value."""

    def __init__(self, p, rs):
        self.p, self.dim, self.odim = p, p['dim'], p['odim']
        self.pn = pn(p['pnorm'])
        self.dom = build.domain(rs, self.dim) + (p.get('off') or 0.0)
        self.A = rs.randn(self.dim, self.odim)
        self.pin = self.pemu = None
        self.new_in(rs, p['num'])
        self.new_out(rs)
        self.new_emu(rs, p['enum'])
        self.new_spec(rs, p)
        self.EO = self.ovol = None
        if p.get('emuo'):
            self.new_emuo(rs, p['emuo'])

    def pts(self, rs, k):
        return self.dom[:, 0] + (self.dom[:, 1] - self.dom[:, 0]) * rs.rand(k, self.dim)

    def new_in(self, rs, num):
        self.X = self.pts(rs, num)
        self.vol = rs.rand(num) + 0.01
        self.pin = None

    def new_out(self, rs):
        self.Y = self.X.dot(self.A) + 0.5 * rs.rand(len(self.X), self.odim)

    def new_emu(self, rs, k):
        self.E = self.pts(rs, k)
        self.pemu = None

    def new_emuo(self, rs, k):
        lo, hi = self.Y.min(0) - 0.2, self.Y.max(0) + 0.2
        self.EO = lo + (hi - lo) * rs.rand(k, self.odim)

    @property
    def far(self):
        return None if self.EO is None else ref.in_cells(self.spec, self.EO)

    def new_spec(self, rs, q):
        self.spec = prob_spec(rs, q, self.odim, self.Y)

    @property
    def cell(self):
        return ref.in_cells(self.spec, self.Y)

    @property
    def near(self):
        return ref.nearest(self.X, self.E, self.pn)


@register
class History(Scenario):
    prop = 'P16'
    name = 'history'
    mins = {'n': 1, 'num': 2, 'enum': 1, 'dim': 1, 'odim': 1, 'pcells': 1}

    def gen(self, rng, tier):
        odim = rng.randint(1, 2)
        ops = []
        for _ in range(rng.randint(3, 14 if tier == 'thorough' else 10)):
            k = rng.random()
            op = rng.choice(READS if k < 0.42 else CHANGES if k < 0.78 else MOVES)
            ops.append([op, rng.randrange(10 ** 6)])
        ops.append([rng.choice(['prob', 'probl', 'emup', 'emupl', 'probev']), rng.randrange(10 ** 6)])
        p = {'n': pick_n(rng, tier), 'num': rng.choice([2, 3, 6, 11, 20]), 'enum': rng.choice([1, 5, 17, 40]), 'dim': rng.randint(1, 2), 'odim': odim,
             'emuo': rng.choice([0, 1, 7, 20]), 'how': rng.choice(['global', 'block']), 'ehow': rng.choice(['global', 'block']), 'off': rng.choice([0.0, 0.0, 0.0, 1e6]), 'pnorm': rng.choice([1.0, 2.0, 2.0]), 'ops': ops,
             'data_seed': rng.randrange(10 ** 6)}
        p.update(gen_prob_set(rng, odim))
        return p

    def run(self, env, p):
        n, odim = p['n'], p['odim']
        fs = env.new_fs()

        def put(R, s, arrays, how):
            for f, v in arrays.items():
                if how == 'block':
                    setattr(s, f + '_local', np.array(split(v, n, R.rank)))
                else:
                    setattr(s, f, np.array(v))
            if how == 'block':
                s.local_to_global()

        def sub(seed):
            import random
            g = random.Random(seed)
            return gen_prob_set(g, odim), g.choice(['global', 'block']), g

        def mk_in(R, st, how):
            s = R.mod('bet.sample').sample_set(st.dim)
            s.set_domain(np.array(st.dom))
            s.set_p_norm(st.pn)
            put(R, s, {'_values': st.X, '_volumes': st.vol}, how)
            return s

        def mk_out(R, st, how):
            s = R.mod('bet.sample').sample_set(odim)
            put(R, s, {'_values': st.Y}, how)
            return s

        def mk_emu(R, st, how):
            s = R.mod('bet.sample').sample_set(st.dim)
            s.set_domain(np.array(st.dom))
            put(R, s, {'_values': st.E}, how)
            return s

        def mk_emuo(R, st, how):
            s = R.mod('bet.sample').sample_set(odim)
            put(R, s, {'_values': st.EO}, how)
            return s

        def apply(st, op, seed):
            """Reference step; returns what the operation itself must return."""
            rs = np.random.RandomState(seed)
            q, how, g = sub(seed)
            if op == 'pset':
                st.new_spec(rs, q)
            elif op == 'reweight':
                pr = rs.rand(len(st.spec['prob'])) + 0.01
                if st.spec['kind'] != 'voronoi':
                    pr[-1] = 0
                st.spec = dict(st.spec, prob=pr / pr.sum())
            elif op == 'emu':
                st.new_emu(rs, g.choice([1, 4, 13, 30]))
            elif op == 'emuval':
                st.new_emu(rs, len(st.E))
            elif op == 'emuo' or (op == 'emuoval' and st.EO is not None):
                st.new_emuo(rs, g.choice([1, 3, 12, 25]) if op == 'emuo' else len(st.EO))
            elif op == 'outvol':
                if st.EO is not None:
                    st.ovol = ref.counts(ref.nearest(st.Y, st.EO), len(st.Y)) / len(st.EO)
            elif op in ('out', 'outval'):
                st.new_out(rs)
                if op == 'out':
                    st.ovol = None
            elif op == 'in':
                st.new_in(rs, len(st.X))
            elif op == 'both':
                st.new_in(rs, g.choice([2, 5, 9, 16]))
                st.new_out(rs)
                st.ovol = None
            elif op == 'inval':
                st.X = st.pts(rs, len(st.X))
            elif op == 'vol':
                st.vol = rs.rand(len(st.X)) + 0.01
            elif op == 'mc':
                st.vol = np.full(len(st.X), 1.0 / len(st.X))
            elif op == 'evol':
                st.vol = ref.counts(st.near, len(st.X)) / len(st.E)
            elif op == 'clip':
                m = max(2, len(st.X) - g.randint(0, 2))
                st.X, st.Y, st.vol = st.X[:m], st.Y[:m], st.vol[:m]
                st.pin = None if st.pin is None else st.pin[:m]
                st.ovol = None if st.ovol is None else st.ovol[:m]
                return m
            elif op in ('prob', 'probl', 'probev'):
                if op == 'probev':
                    st.vol = ref.counts(st.near, len(st.X)) / len(st.E)
                st.pin = ref.inverse_prob(st.cell, st.vol, st.spec['prob'])
                return st.pin
            elif op in ('emup', 'emupl'):
                st.pemu = ref.emulated_prob(st.cell[st.near], st.spec['prob'])
                return st.pemu
            elif op == 'transfer':
                if st.pemu is not None:
                    return ref.transfer(ref.nearest(st.pts(rs, 5), st.E), st.pemu, 5)
            elif op == 'query':
                v, o = st.pts(rs, 4), rs.rand(4, odim)
                return [ref.nearest(st.X, v, st.pn), ref.nearest(st.Y, o), ref.in_cells(st.spec, o)]
            elif op == 'simple':
                return (rs.rand(odim), 0.3 + 0.5 * rs.rand(), g.randint(1, 3), g.choice(SIMPLE), rs.rand(4, odim), rs.rand(30, odim))

        def sync(s):
            if s._values_local is not None:
                s.global_to_local()

        def step(R, st, d, op, seed):
            """The same step on the real object; returns (discretization, result)."""
            cp = R.mod('bet.calculateP.calculateP')
            q, how, _ = sub(seed)
            inp, out, emu, ps = d.get_input_sample_set(), d.get_output_sample_set(), d.get_emulated_input_sample_set(), d.get_output_probability_set()
            res = None
            if op == 'transfer':
                if st.pemu is None:
                    return d, None
                new = R.mod('bet.sample').sample_set(st.dim)
                new.set_values(st.pts(np.random.RandomState(seed), 5))
                return d, np.array(cp.prob_from_discretization_input(d, new))
            want = apply(st, op, seed)
            if op == 'pset':
                d.set_output_probability_set(make_prob_set(R.mod('bet.sample'), st.spec, odim))
            elif op == 'simple':
                ref_, sc, cells, fun, U, Z = want
                lo, hi = st.Y.min(0), st.Y.max(0)
                sf = R.mod('bet.calculateP.simpleFunP')
                c, w = lo + (hi - lo) * ref_, 0.3 + (hi - lo) * sc
                if fun == 'reg_scaled':
                    sf.regular_partition_uniform_distribution_rectangle_scaled(d, Q_ref=c, rect_scale=sc, cells_per_dimension=cells)
                elif fun == 'reg_size':
                    sf.regular_partition_uniform_distribution_rectangle_size(d, Q_ref=c, rect_size=w, cells_per_dimension=cells)
                elif fun == 'reg_domain':
                    sf.regular_partition_uniform_distribution_rectangle_domain(d, np.vstack([c - w, c + w]), cells_per_dimension=cells)
                elif fun == 'uu_scaled':
                    sf.uniform_partition_uniform_distribution_rectangle_scaled(d, Q_ref=c, rect_scale=sc, M=3, num_d_emulate=40)
                elif fun == 'uu_size':
                    sf.uniform_partition_uniform_distribution_rectangle_size(d, Q_ref=c, rect_size=w, M=3, num_d_emulate=40)
                elif fun == 'uu_domain':
                    sf.uniform_partition_uniform_distribution_rectangle_domain(d, np.vstack([c - w, c + w]), M=4, num_d_emulate=40)
                elif fun == 'nn':
                    sf.normal_partition_normal_distribution(d, Q_ref=c, std=w / 3, M=3, num_d_emulate=60)
                elif fun == 'un':
                    sf.uniform_partition_normal_distribution(d, Q_ref=c, std=w / 3, M=3, num_d_emulate=60)
                elif fun == 'data':
                    sf.uniform_partition_uniform_distribution_data_samples(d)
                else:
                    sf.user_partition_user_distribution(d, lo + (hi - lo) * U, lo + (hi - lo) * Z)
                s = d.get_output_probability_set()
                if s._left is not None:
                    st.spec = {'kind': 'rect', 'lo': np.array(s._left[:-1]), 'hi': np.array(s._right[:-1])}
                else:
                    st.spec = {'kind': 'voronoi', 'values': np.array(s.get_values()), 'p': s.get_p_norm()}
                st.spec['prob'] = np.array(s.get_probabilities())
                res = st.spec
            elif op == 'reweight':
                ps.set_probabilities(np.array(st.spec['prob']))
                sync(ps)
            elif op == 'emu':
                d.set_emulated_input_sample_set(mk_emu(R, st, how))
            elif op == 'emuval':
                # changed in place; then given again, or its pointer renewed
                emu.set_values(np.array(st.E))
                emu._probabilities = emu._probabilities_local = None
                sync(emu)
                if seed % 2:
                    d.set_emulated_input_sample_set(emu)
                else:
                    d.set_emulated_ii_ptr(globalize=seed % 4 == 0)
            elif op == 'emuo':
                d.set_emulated_output_sample_set(mk_emuo(R, st, how))
            elif op == 'emuoval' and st.EO is not None:
                eo = d.get_emulated_output_sample_set()
                eo.set_values(np.array(st.EO))
                sync(eo)
                if seed % 2:
                    d.set_emulated_output_sample_set(eo)
                else:
                    d.set_emulated_oo_ptr(globalize=seed % 4 == 0)
            elif op == 'outvol':
                if st.EO is not None:
                    d.estimate_output_volume_emulated()
            elif op in ('ooptr', 'ooptrl'):
                if st.EO is not None:
                    d.set_emulated_oo_ptr(globalize=op == 'ooptr')
            elif op == 'out':
                d.set_output_sample_set(mk_out(R, st, how))
            elif op == 'in':
                d.set_input_sample_set(mk_in(R, st, how))
            elif op == 'both':
                d.set_input_sample_set(mk_in(R, st, how))
                d.set_output_sample_set(mk_out(R, st, how))
            elif op == 'inval':
                if seed % 3 and np.shape(inp.get_values()) == st.X.shape and inp.get_values().flags.writeable:
                    inp.get_values()[...] = st.X            # in place
                else:
                    inp.set_values(np.array(st.X))
                sync(inp)
                d.set_input_sample_set(inp)
            elif op == 'outval':
                out.set_values(np.array(st.Y))
                sync(out)
                if seed % 3:
                    d.set_output_sample_set(out)
                else:
                    d.set_io_ptr(globalize=seed % 2 == 0)
            elif op == 'vol':
                inp.set_volumes(np.array(st.vol))
                sync(inp)
            elif op == 'mc':
                inp.estimate_volume_mc()
            elif op == 'evol':
                d.estimate_input_volume_emulated()
            elif op == 'clip':
                d = d.clip(want)
            elif op in ('prob', 'probl'):
                cp.prob(d, globalize=op == 'prob')
                res = np.array(inp.get_probabilities_local())
                if op == 'probl':
                    inp.local_to_global()
            elif op == 'probev':
                cp.prob_with_emulated_volumes(d)
                res = np.array(inp.get_probabilities_local())
            elif op in ('emup', 'emupl'):
                cp.prob_on_emulated_samples(d, globalize=op == 'emup')
                res = np.array(emu.get_probabilities_local())
                if op == 'emupl':
                    emu.local_to_global()
            elif op == 'query':
                rs = np.random.RandomState(seed)
                v, o = st.pts(rs, 4), rs.rand(4, odim)
                res = [np.array(s.query(x)[1]).ravel() for s, x in ((inp, v), (out, o), (ps, o))]
            elif op == 'g2l':
                d.global_to_local()
            elif op == 'l2g':
                d.global_to_local()
                d.local_to_global()
            elif op in ('ioptr', 'ioptrl'):
                d.set_io_ptr(globalize=op == 'ioptr')
            elif op in ('iiptr', 'iiptrl'):
                d.set_emulated_ii_ptr(globalize=op == 'iiptr')
            elif op == 'gptrs':
                d.globalize_ptrs()
            elif op == 'copy':
                old, d = d, d.copy()
                rs = np.random.RandomState(seed)
                old.set_output_probability_set(make_prob_set(R.mod('bet.sample'), prob_spec(rs, q, odim, st.Y), odim))
                old.get_input_sample_set().set_values(st.pts(rs, len(st.X)))
                sync(old.get_input_sample_set())
                old.get_input_sample_set().estimate_volume_mc()
                cp.prob(old)
            elif op in ('saveload', 'saveload_local'):
                d.save('hist')
                d = R.mod('bet.util').load_object('hist', localize=op == 'saveload_local')
            elif op == 'reset_same':
                d.set_output_probability_set(ps)
                d.set_emulated_input_sample_set(emu)
                d.set_input_sample_set(inp)
            return d, res

        def program(R):
            st = State(p, env.data(p['data_seed']))
            d = R.mod('bet.sample').discretization(mk_in(R, st, p['how']), mk_out(R, st, p['how']), output_probability_set=make_prob_set(R.mod('bet.sample'), st.spec, odim),
                                                   emulated_input_sample_set=mk_emu(R, st, p['ehow']), emulated_output_sample_set=None if st.EO is None else mk_emuo(R, st, p['ehow']))
            log = []
            g = lambda a: None if a is None else np.array(a)
            for op, seed in p['ops']:
                d, res = step(R, st, d, op, seed)
                eo = d.get_emulated_output_sample_set()
                i, o, e, s = d.get_input_sample_set(), d.get_output_sample_set(), d.get_emulated_input_sample_set(), d.get_output_probability_set()
                log.append((res, {'EO': None if eo is None else g(eo.get_values()), 'EOl': None if eo is None else g(eo.get_values_local()), 'oo': g(d.get_emulated_oo_ptr()),
                                  'ool': g(d._emulated_oo_ptr_local), 'ovol': g(o.get_volumes()), 'X': g(i.get_values()), 'Y': g(o.get_values()), 'E': g(e.get_values()), 'vol': g(i.get_volumes()), 'pin': g(i.get_probabilities()),
                                  'pemu': g(e.get_probabilities()), 'pd': g(s.get_probabilities()), 'io': g(d.get_io_ptr()), 'ii': g(d.get_emulated_ii_ptr()),
                                  'iol': g(d._io_ptr_local), 'iil': g(d._emulated_ii_ptr_local), 'Xl': g(i.get_values_local()), 'Yl': g(o.get_values_local()),
                                  'El': g(e.get_values_local()), 'pinl': g(i.get_probabilities_local()), 'voll': g(i.get_volumes_local())}))
            return log
        vals = env.job(n, program, fs=fs).require_clean('history')
        st = State(p, env.data(p['data_seed']))
        seen = []
        for k, (op, seed) in enumerate(p['ops']):
            seen.append(op)
            want = apply(st, op, seed)
            if op == 'simple':
                st.spec = vals[0][k][0]
            cell, near, far = st.cell, st.near, st.far
            for r in range(n):
                res, obs = vals[r][k]
                what = 'after %s, rank %d of %d' % (' '.join(seen), r, n)
                if op in ('prob', 'probl', 'probev'):
                    env.close(res, split(want, n, r), 'stale-or-wrong-probability', what)
                elif op in ('emup', 'emupl'):
                    env.close(res, split(want, n, r), 'stale-or-wrong-emulated-probability', what)
                elif op == 'transfer' and want is not None:
                    env.close(res, want, 'stale-or-wrong-transfer', what)
                elif op == 'query':
                    for a, b in zip(res, want):
                        env.equal(a, b, 'stale-lookup', what)
                elif op == 'simple':
                    for f in res:
                        if f != 'kind' and f != 'p':
                            env.equal(res[f], st.spec[f], 'distribution-not-replicated', what)
                for f, w in (('X', st.X), ('Y', st.Y), ('E', st.E), ('EO', st.EO)):
                    env.equal(obs[f], w, 'contents-changed', what + ' ' + f)
                    if obs[f + 'l'] is not None:
                        env.equal(obs[f + 'l'], split(w, n, r), 'local-contents-changed', what + ' ' + f)
                env.close(obs['vol'], st.vol, 'wrong-volumes', what)
                env.close(obs['ovol'], st.ovol, 'wrong-output-volumes', what)
                env.close(obs['pin'], st.pin, 'stale-or-wrong-probability', what)
                env.close(obs['pemu'], st.pemu, 'stale-or-wrong-emulated-probability', what)
                env.close(obs['pd'], st.spec['prob'], 'output-probability-changed', what)
                for f, l, w in (('pin', 'pinl', st.pin), ('vol', 'voll', st.vol)):
                    if obs[l] is not None and w is not None:
                        env.close(obs[l], split(w, n, r), 'local-differs-from-global', what + ' ' + f)
                made = {'ioptr': 'io', 'iiptr': 'ii', 'ooptr': 'oo'}.get(op.rstrip('l'))
                if made and (made != 'oo' or st.EO is not None):
                    env.check(obs[made + 'l' if op.endswith('l') else made] is not None, 'pointer-missing', what)
                for f, w in (('io', cell), ('ii', near), ('oo', far)):
                    if obs[f] is not None:
                        env.equal(obs[f].ravel(), w, 'stale-pointer', what + ' ' + f)
                    if obs[f + 'l'] is not None:
                        env.equal(obs[f + 'l'].ravel(), split(w, n, r), 'stale-local-pointer', what + ' ' + f)
            env.hit('op:' + op)


@register
class Lookups(Scenario):
    """Lookups of one or several cells in sets of every kind, with calls in between that change the set or must not."""
    prop = 'P16'
    name = 'lookups'
    weight = 0.5
    mins = {'n': 1, 'num': 1, 'dim': 1, 'pts': 1}

    def gen(self, rng, tier):
        kind = rng.choice(['voronoi', 'voronoi', 'rect', 'ball', 'grid'])
        if kind == 'voronoi' and rng.random() < 0.5:
            ops = []
            for _ in range(rng.randint(1, 3)):
                ops += [['query', rng.randrange(10 ** 6)], [rng.choice(['edit', 'edit_local', 'append', 'setup', 'norm', 'copy']), rng.randrange(10 ** 6)]]
            return {'n': min(pick_n(rng, tier), rng.choice([1, 2, 99])), 'kind': kind, 'num': rng.choice([12, 25, 60]), 'dim': rng.randint(1, 3), 'pts': 15, 'pnorm': 2.0,
                    'edges': False, 'ops': ops + [['query', rng.randrange(10 ** 6)]], 'data_seed': rng.randrange(10 ** 6)}
        ops = [[rng.choice(['query', 'query', 'query', 'append', 'append_local', 'bounds', 'bounds_local', 'jac', 'err', 'copy', 'saveload', 'g2l', 'setup', 'check', 'edit', 'edit_local', 'norm']), rng.randrange(10 ** 6)] for _ in range(rng.randint(1, 7))]
        return {'n': pick_n(rng, tier), 'kind': kind, 'num': rng.choice([1, 2, 3, 6, 11, 40]), 'dim': rng.randint(1, 3), 'pts': rng.choice([1, 4, 15]), 'pnorm': rng.choice([1.0, 2.0, 2.0, float('inf')]),
                'edges': rng.random() < 0.3, 'ops': ops + [['query', rng.randrange(10 ** 6)]], 'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        n, dim, kind, pnorm = p['n'], p['dim'], p['kind'], pn(p['pnorm'])
        fs = env.new_fs()

        def cells(rs):
            if kind == 'voronoi':
                return {'values': rs.rand(p['num'], dim)}
            if kind == 'grid':
                xi = [np.sort(np.concatenate([[0.1, 0.9], 0.1 + 0.8 * rs.rand(min(p['num'] - 1, 2))])) for _ in range(dim)]
                return {'xi': xi}
            if kind == 'rect':
                lo = rs.rand(p['num'], dim) * 0.7
                return {'lo': lo, 'hi': lo + 0.1 + 0.6 * rs.rand(p['num'], dim)}
            return {'c': rs.rand(p['num'], dim), 'r': 0.1 + 0.5 * rs.rand(p['num'])}

        def points(rs, c):
            x = rs.rand(p['pts'], dim)
            if p['edges'] and kind == 'rect':
                x[0] = c['hi'][0]
                x[-1] = c['lo'][-1]
            elif p['edges'] and kind == 'grid':
                x[0] = [v[1] for v in c['xi']]
            return x

        def setup(s, c):
            if kind == 'voronoi':
                s.set_values(np.array(c['values']))
            elif kind == 'grid':
                s.setup([np.array(v) for v in c['xi']])
            elif kind == 'rect':
                s.setup(np.array(c['hi']), np.array(c['lo']))
            else:
                s.setup(np.array(c['c']), np.array(c['r']))

        def program(R):
            s = getattr(R.mod('bet.sample'), {'voronoi': 'voronoi_sample_set', 'rect': 'rectangle_sample_set', 'ball': 'ball_sample_set', 'grid': 'cartesian_sample_set'}[kind])(dim)
            s.set_domain(np.array([[0.0, 1.5]] * dim))
            s.set_p_norm(pnorm)
            c = cells(np.random.RandomState(p['data_seed']))
            setup(s, c)
            out = []
            norm = pnorm
            for op, seed in p['ops']:
                rs = np.random.RandomState(seed)
                res = None
                extra = rs.rand(int(rs.randint(1, 3)), dim)
                if op == 'query':
                    k = 1 + seed % 4
                    if kind == 'voronoi':
                        k = min(k, len(c['values']))
                    d, ptr = s.query(points(rs, c), k=k)
                    res = (k, np.array(d), np.array(ptr))
                elif op == 'append' or (op == 'append_local' and kind != 'voronoi'):
                    getattr(s, 'append_values' if op == 'append' else 'append_values_local')(np.array(extra))
                    if kind == 'voronoi':
                        c = {'values': np.vstack([c['values'], extra])}
                        for a in s.array_names:     # the block of the older samples
                            setattr(s, a + '_local', None)
                elif op in ('jac', 'err') and kind != 'voronoi':
                    (s.append_jacobians if op == 'jac' else s.append_error_estimates)(rs.rand(2, 1, dim))
                elif op in ('bounds', 'bounds_local') and kind != 'voronoi':
                    (s.update_bounds if op == 'bounds' else s.update_bounds_local)()
                elif op == 'copy':
                    s = s.copy()
                elif op == 'saveload':
                    s.save('look')
                    s = R.mod('bet.util').load_object('look')
                elif op == 'g2l':
                    s.global_to_local()
                elif op == 'setup':
                    c = cells(rs)
                    for a in s.array_names:
                        setattr(s, a, None)
                        setattr(s, a + '_local', None)
                    setup(s, c)
                elif op == 'check':
                    res = s.check_num()
                elif op == 'edit' and kind == 'voronoi':
                    # samples are moved in place
                    a = slice(None) if seed % 2 else slice(seed % len(c['values']), 1 + seed % len(c['values']))
                    new = rs.rand(*c['values'][a].shape)
                    s.get_values()[a] = new
                    c = {'values': np.array(c['values'])}
                    c['values'][a] = new
                    for b in s.array_names:
                        setattr(s, b + '_local', None)
                elif op == 'edit_local' and kind == 'voronoi':
                    # every process moves the samples of its block in place
                    s.global_to_local()
                    s.get_values_local()[:] = (7.3 * s.get_values_local()) % 1.0
                    s.local_to_global()
                    c = {'values': (7.3 * c['values']) % 1.0}
                elif op == 'norm' and kind in ('voronoi', 'ball'):
                    norm = [1.0, 2.0, np.inf][seed % 3]
                    s.set_p_norm(norm)
                out.append((res, norm, {k: np.array(v) if not isinstance(v, list) else [np.array(w) for w in v] for k, v in c.items()}, np.array(s.get_values())))
            return out
        vals = env.job(n, program, fs=fs).require_clean('lookups')
        for k, (op, seed) in enumerate(p['ops']):
            norm, c = vals[0][k][1:3]
            if kind == 'grid':
                # first coordinate varies slowest in the values
                ax = [list(zip(v[:-1], v[1:])) for v in c['xi']]
                import itertools
                boxes = list(itertools.product(*ax))
                cc = {'lo': np.array([[b[0] for b in x] for x in boxes]), 'hi': np.array([[b[1] for b in x] for x in boxes])}
            else:
                cc = c
            num = len(cc['values']) if kind == 'voronoi' else len(cc['lo'] if 'lo' in cc else cc['c']) + 1
            for r in range(n):
                res, _, _, v = vals[r][k]
                what = 'after %s, rank %d of %d' % (' '.join(x for x, _ in p['ops'][:k + 1]), r, n)
                env.check(len(v) == num, 'number-of-cells', lambda: '%s: %d, expected %d' % (what, len(v), num))
                if op == 'check':
                    env.check(res == num, 'number-of-cells', lambda: '%s: %s, expected %d' % (what, res, num))
                if op != 'query':
                    continue
                rs = np.random.RandomState(seed)
                rs.rand(int(rs.randint(1, 3)), dim)
                x = points(rs, c)
                kk, d, ptr = res
                if kind == 'voronoi':
                    full = ref.pdist(x, cc['values'], norm)
                    order = np.argsort(full, 1)[:, :kk]
                    wd = np.take_along_axis(full, order, 1)
                    wp = order
                else:
                    wp = np.full((len(x), kk), num - 1)
                    wd = np.full((len(x), kk), np.inf)
                    for a in range(len(x)):
                        if kind == 'ball':
                            inside = ref.pdist(x[a:a + 1], cc['c'], norm)[0] < cc['r']
                        else:
                            inside = np.all((x[a] <= cc['hi']) & (x[a] > cc['lo']), 1)
                        if kind == 'grid':
                            mid = 0.5 * (cc['lo'] + cc['hi'])
                            hit = [int(np.argmin(np.abs(v - mid[b]).sum(1))) for b in np.flatnonzero(inside)][:kk]
                        else:
                            hit = list(np.flatnonzero(inside))[:kk]
                        wp[a, :len(hit)] = hit
                        wd[a, :len(hit)] = 0.0
                if kk == 1:
                    wp, wd = wp[:, 0], wd[:, 0]
                env.equal(ptr, wp, 'stale-lookup', what)
                env.close(d, wd, 'wrong-distance', what)
        env.hit('lookup:' + kind)
