"""P05: the inverse probability solution; P06: transfer of probability between sample sets."""
import numpy as np

from .. import build, ref
from ..env import Scenario, pick_n, register, split


def gen_prob_set(rng, odim):
    return {'pkind': rng.choice(['voronoi', 'voronoi', 'rect', 'cart', 'ball']), 'pcells': rng.randint(1, 9),
            'pnorm_out': rng.choice([1.0, 2.0, 2.0, 3.0, 'inf']), 'pzero': rng.random() < 0.5, 'wide': rng.random() < 0.2}


def pn(x):
    return np.inf if x == 'inf' else float(x)


def prob_spec(rs, p, odim, data):
    """Description of the output probability set and its probabilities."""
    lo, hi = data.min(0), data.max(0)
    w = np.where(hi > lo, hi - lo, 1.0)
    k = p['pcells']
    if p['pkind'] == 'voronoi':
        spec = {'kind': 'voronoi', 'values': lo - 0.1 * w + 1.2 * w * rs.rand(k, odim), 'p': pn(p['pnorm_out'])}
    elif p['pkind'] == 'rect':
        # disjoint slabs along the first coordinate
        e = np.sort(lo[0] - 0.05 * w[0] + 1.1 * w[0] * rs.rand(2 * k))
        L = np.tile(lo - 0.1 * w, (k, 1)) + 0.05 * w
        H = np.tile(hi + 0.1 * w, (k, 1)) - 0.2 * w * rs.rand(k, odim)
        L[:, 0], H[:, 0] = e[0::2], e[1::2]
        spec = {'kind': 'rect', 'lo': L, 'hi': H}
    elif p['pkind'] == 'cart':
        ks = [max(1, int(round(k ** (1.0 / odim)))) for _ in range(odim)]
        xi = [lo[d] - 0.05 * w[d] + np.concatenate(([0], np.cumsum(0.2 + rs.rand(ks[d])))) / (0.9 * ks[d]) * w[d]
              for d in range(odim)]
        grids_lo = np.meshgrid(*[x[:-1] for x in xi])
        grids_hi = np.meshgrid(*[x[1:] for x in xi])
        spec = {'kind': 'rect', 'cart': xi, 'lo': np.vstack([g.T.ravel() for g in grids_lo]).T,
                'hi': np.vstack([g.T.ravel() for g in grids_hi]).T}
    else:
        c = lo + w * rs.rand(k, odim)
        r = np.full(k, 0.15 * w.min())
        if k > 1:
            d = ref.pdist(c, c, pn(p['pnorm_out'])) + np.eye(k) * 1e9
            r = 0.5 * d.min(1) * (0.5 + 0.4 * rs.rand(k))
        spec = {'kind': 'ball', 'c': c, 'r': r, 'p': pn(p['pnorm_out'])}
    m = ref.num_cells(spec)
    pr = rs.rand(m) + 0.05
    if p['pzero'] and m > 1:
        pr[rs.rand(m) < 0.4] = 0.0
        if pr.sum() == 0:
            pr[0] = 1.0
    if spec['kind'] != 'voronoi':
        pr[-1] = 0.0 if rs.rand() < 0.7 else pr[-1]
        if pr.sum() == 0:
            pr[0] = 1.0
    if p.get('wide'):
        pr *= 10.0 ** -rs.uniform(0, 14, m)
    spec['prob'] = pr / pr.sum()
    return spec


def make_prob_set(sample, spec, odim):
    if spec['kind'] == 'voronoi':
        s = sample.voronoi_sample_set(odim)
        s.set_p_norm(spec['p'])
        s.set_values(np.array(spec['values']))
    elif 'cart' in spec:
        s = sample.cartesian_sample_set(odim)
        s.setup([np.array(x) for x in spec['cart']])
    elif spec['kind'] == 'rect':
        s = sample.rectangle_sample_set(odim)
        s.setup(maxes=[np.array(x) for x in spec['hi']], mins=[np.array(x) for x in spec['lo']])
    else:
        s = sample.ball_sample_set(odim)
        s.set_p_norm(spec['p'])
        s.setup(np.array(spec['c']), np.array(spec['r']))
    s.set_probabilities(np.array(spec['prob']))
    return s


def uneven_sizes(rs, num, n):
    cuts = np.sort(rs.randint(0, num + 1, n - 1)) if n > 1 else np.array([], int)
    e = np.concatenate(([0], cuts, [num])).astype(int)
    return [(int(e[i]), int(e[i + 1])) for i in range(n)]


def ranges(rs, num, n, how):
    if how == 'uneven':
        return uneven_sizes(rs, num, n)
    idx = np.array_split(np.arange(num), n)
    return [((int(i[0]), int(i[-1]) + 1) if len(i) else (0, 0)) for i in idx]


def place(sset, arrays, rng_, how):
    """Give a rank its data: 'global' arrays only, or 'block'/'uneven' local pieces then globalized, or 'parts' alone."""
    if how == 'global':
        for f, v in arrays.items():
            setattr(sset, f, np.array(v))
    else:
        a, b = rng_
        for f, v in arrays.items():
            setattr(sset, f + '_local', np.array(v[a:b]))
        if how != 'parts':          # nothing has been gathered yet
            sset.local_to_global()


@register
class Inverse(Scenario):
    prop = 'P05'
    name = 'inverse_solution'
    mins = {'n': 1, 'num': 1, 'enum': 1, 'dim': 1, 'odim': 1, 'pcells': 1}

    def gen(self, rng, tier):
        odim = rng.randint(1, 3)
        p = {'n': pick_n(rng, tier), 'num': rng.choice([1, 2, 3, 5, 9, 16, 30, 47]), 'dim': rng.randint(1, 3),
             'odim': odim, 'enum': rng.choice([1, 2, 7, 20, 63, 120]),
             'how': rng.choice(['global', 'block', 'uneven']), 'ehow': rng.choice(['global', 'block', 'uneven']),
             'algo': rng.choice(['prob', 'prob', 'emulated', 'emu_vol']), 'globalize': rng.random() < 0.6,
             'vol': rng.choice(['given', 'given', 'mc', 'zeros', 'wide']), 'preptr': rng.random() < 0.3,
             'pnorm': rng.choice([1.0, 2.0, 2.0, 'inf']), 'data_seed': rng.randrange(10 ** 6),
             'twice': rng.random() < 0.3}
        p.update(gen_prob_set(rng, odim))
        if p['algo'] == 'emu_vol' and p['how'] == 'uneven':
            p['how'] = 'block'     # estimating volumes re-splits the input set evenly
        return p

    def run(self, env, p):
        n, num, enum = p['n'], p['num'], p['enum']
        rs = env.data(p['data_seed'])
        dom = build.domain(rs, p['dim'])
        w = dom[:, 1] - dom[:, 0]
        X = dom[:, 0] + w * rs.rand(num, p['dim'])
        A = rs.randn(p['dim'], p['odim'])
        Y = X.dot(A) + 0.3 * rs.rand(num, p['odim'])
        vol = rs.rand(num) + 0.01
        if p['vol'] == 'wide':
            vol *= 10.0 ** -rs.uniform(0, 20, num)
        if p['vol'] == 'zeros':
            vol[rs.rand(num) < 0.5] = 0.0
        if p['vol'] == 'mc':
            vol = np.full(num, 1.0 / num)
        E = dom[:, 0] + w * rs.rand(enum, p['dim'])
        spec = prob_spec(rs, p, p['odim'], Y)
        rr = ranges(rs, num, n, p['how'])
        er = ranges(rs, enum, n, p['ehow'])
        cell = ref.in_cells(spec, Y)
        near = ref.nearest(X, E, pn(p['pnorm']))
        if p['algo'] == 'prob':
            want = ref.inverse_prob(cell, vol, spec['prob'])
        elif p['algo'] == 'emu_vol':
            want = ref.inverse_prob(cell, ref.counts(near, num) / enum, spec['prob'])
        else:
            want = ref.emulated_prob(cell[near], spec['prob'])

        def program(R):
            sample = R.mod('bet.sample')
            cp = R.mod('bet.calculateP.calculateP')
            inp, out = sample.sample_set(p['dim']), sample.sample_set(p['odim'])
            inp.set_domain(np.array(dom))
            inp.set_p_norm(pn(p['pnorm']))
            arr = {'_values': X}
            if p['vol'] != 'mc':
                arr['_volumes'] = vol
            place(inp, arr, rr[R.rank], p['how'])
            place(out, {'_values': Y}, rr[R.rank], p['how'])
            ps = make_prob_set(sample, spec, p['odim'])
            emu = sample.sample_set(p['dim'])
            emu.set_domain(np.array(dom))
            place(emu, {'_values': E}, er[R.rank], p['ehow'])
            d = sample.discretization(inp, out, output_probability_set=ps, emulated_input_sample_set=emu)
            if p['preptr']:
                d.set_io_ptr(globalize=True)
            res = []
            for _ in range(2 if p['twice'] else 1):
                if p['algo'] == 'prob':
                    if p['vol'] == 'mc':
                        inp.estimate_volume_mc(globalize=p['how'] != 'uneven')
                    cp.prob(d, globalize=p['globalize'])
                    s = inp
                elif p['algo'] == 'emu_vol':
                    cp.prob_with_emulated_volumes(d)
                    s = inp
                else:
                    cp.prob_on_emulated_samples(d, globalize=p['globalize'])
                    s = emu
                loc = np.array(s.get_probabilities_local())
                if not p['globalize'] and p['algo'] != 'emu_vol':
                    s.local_to_global()
                res.append((np.array(s.get_probabilities()), loc, np.array(s.get_values()),
                            np.array(ps.get_probabilities())))
            return res
        vals = env.job(n, program).require_clean(p['algo'])
        src = E if p['algo'] == 'emulated' else X
        rng_ = er if p['algo'] == 'emulated' else rr
        how = p['ehow'] if p['algo'] == 'emulated' else p['how']
        if p['algo'] == 'emu_vol':
            rng_ = ranges(rs, num, n, 'block')
        for r in range(n):
            for k, (P, loc, V, pd) in enumerate(vals[r]):
                what = '%s call %d rank %d of %d' % (p['algo'], k, r, n)
                env.equal(V, src, 'values-disturbed', what)
                env.close(P, want, 'wrong-probability', what, atol=0)
                if how == 'global':
                    a = split(want, n, r)
                else:
                    a = want[rng_[r][0]:rng_[r][1]]
                env.close(loc, a, 'wrong-local-probability', what, atol=0)
                env.close(P, vals[0][k][0], 'not-replicated', what, rtol=1e-12)
                env.equal(pd, spec['prob'], 'output-probability-disturbed', what)
                # conservation
                idx = cell[near] if p['algo'] == 'emulated' else cell
                weights = np.ones(enum) if p['algo'] == 'emulated' else (
                    ref.counts(near, num) if p['algo'] == 'emu_vol' else vol)
                hit = sum(spec['prob'][i] for i in range(len(spec['prob'])) if weights[idx == i].sum() > 0)
                env.close(P.sum(), hit, 'probability-not-conserved', what)
        if len(set(cell)) < len(spec['prob']):
            env.hit('empty_output_cell')
        if num < n:
            env.hit('more_ranks_than_samples')


@register
class Transfer(Scenario):
    prop = 'P06'
    name = 'transfer'
    mins = {'n': 1, 'num': 1, 'nnew': 1, 'enum': 1, 'dim': 1}

    def gen(self, rng, tier):
        return {'n': pick_n(rng, tier), 'num': rng.choice([1, 2, 4, 9, 20, 33]), 'nnew': rng.choice([1, 2, 5, 11, 26]),
                'enum': rng.choice([1, 3, 10, 50, 150]), 'dim': rng.randint(1, 3),
                'how': rng.choice(['global', 'block', 'uneven']), 'ehow': rng.choice(['global', 'block', 'uneven']),
                'nhow': rng.choice(['global', 'block', 'uneven']),
                'algo': rng.choice(['set', 'emulated', 'emulated', 'disc', 'disc_emu', 'none_emu']),
                'newkind': rng.choice(['voronoi', 'voronoi', 'rect', 'ball', 'cart']),
                'pnorm': rng.choice([1.0, 2.0, 'inf']), 'pnorm_out': rng.choice([1.0, 2.0, 3.0]),
                'zero': rng.random() < 0.4, 'wide': rng.random() < 0.3, 'data_seed': rng.randrange(10 ** 6), 'stale': rng.random() < 0.4, 'chain': rng.random() < 0.4,
                'regl': rng.random() < 0.4, 'renew': rng.random() < 0.3}

    def run(self, env, p):
        n, num, nnew, enum, dim = p['n'], p['num'], p['nnew'], p['enum'], p['dim']
        rs = env.data(p['data_seed'])
        dom = build.domain(rs, dim)
        w = dom[:, 1] - dom[:, 0]
        X = dom[:, 0] + w * rs.rand(num, dim)
        E = dom[:, 0] + w * rs.rand(enum, dim)
        pr = rs.rand(num) + 0.05
        if p['zero']:
            pr[rs.rand(num) < 0.4] = 0
            pr[0] += 0.1
        pe = rs.rand(enum) + 0.01
        if p.get('wide'):
            pr *= 10.0 ** -rs.uniform(0, 14, num)
            pe *= 10.0 ** -rs.uniform(0, 14, enum)
        pr /= pr.sum()
        pe /= pe.sum()
        q = {'pkind': p['newkind'], 'pcells': nnew, 'pnorm_out': p['pnorm_out'], 'pzero': False}
        spec = prob_spec(rs, q, dim, dom.T)
        m = ref.num_cells(spec)
        rr, er = ranges(rs, num, n, p['how']), ranges(rs, enum, n, p['ehow'])
        nr = ranges(rs, m, n, p['nhow'])
        po = pn(p['pnorm'])
        lossy = False
        if p['algo'] in ('set', 'none_emu', 'disc'):
            want = ref.transfer(ref.in_cells(spec, X), pr, m)
        elif p['algo'] == 'disc_emu':
            want = ref.transfer(ref.in_cells(spec, E), pe, m)
        else:
            po_ = ref.nearest(X, E, po)
            hit = [i for i in range(num) if (po_ == i).any() and pr[i] > 0]
            if not hit:
                return env.hit('no_mass_reachable')
            want = ref.transfer_emulated(po_, ref.in_cells(spec, E), pr, m)
            if len(hit) < (pr > 0).sum():
                env.hit('renormalised')

        stale, T = rs.rand(m), dom[:, 0] + w * rs.rand(3, dim)
        # the probabilities of the source were set anew on every process
        renew = p.get('renew') and p['algo'].startswith('disc') and p['how'] != 'global' and p['ehow'] != 'global'
        chain = p['chain'] and spec['kind'] == 'voronoi'

        def program(R):
            sample = R.mod('bet.sample')
            cp = R.mod('bet.calculateP.calculateP')
            old = sample.sample_set(dim)
            old.set_p_norm(po)
            old.set_domain(np.array(dom))
            place(old, {'_values': X, '_probabilities': pr}, rr[R.rank], p['how'])
            new = make_prob_set(sample, spec, dim)
            new._probabilities = np.array(stale) if p['stale'] else None
            if p['nhow'] == 'block':
                new.global_to_local()
            elif p['nhow'] == 'uneven':
                for f in ('_values', '_probabilities', '_left', '_right', '_width', '_radii', '_region'):
                    if getattr(new, f) is not None:
                        setattr(new, f + '_local', np.array(getattr(new, f)[nr[R.rank][0]:nr[R.rank][1]]))
            emu = sample.sample_set(dim)
            arr = {'_values': E}
            if p['algo'] == 'disc_emu':
                arr['_probabilities'] = pe
            place(emu, arr, er[R.rank], p['ehow'])
            if p['algo'] == 'set':
                out = cp.prob_from_sample_set(old, new)
            elif p['algo'] == 'none_emu':
                out = cp.prob_from_sample_set_with_emulated_volumes(old, new)
            elif p['algo'] == 'emulated':
                out = cp.prob_from_sample_set_with_emulated_volumes(old, new, emu)
            else:
                o = sample.sample_set(1)
                place(o, {'_values': X[:, :1]}, rr[R.rank], p['how'])
                d = sample.discretization(old, o)
                if p['algo'] == 'disc_emu':
                    d.set_emulated_input_sample_set(emu)
                if renew:
                    src, (lo, hi), fresh = (emu, er[R.rank], pe) if p['algo'] == 'disc_emu' else (old, rr[R.rank], pr)
                    src.set_probabilities(np.full(len(fresh), 1.0 / len(fresh)))
                    src.set_probabilities_local(np.array(fresh[lo:hi]))
                out = cp.prob_from_discretization_input(d, new)
            out = np.array(out)
            if p['regl']:
                new.local_to_global()       # as saving does
            loc = new.get_probabilities_local()
            third = None
            if chain:
                t = sample.sample_set(dim)
                t.set_values(np.array(T))
                third = np.array(cp.prob_from_sample_set(new, t))
            if p['nhow'] != 'global':
                env.equal(loc, new.get_probabilities()[nr[R.rank][0]:nr[R.rank][1]], 'local-parts-differ-from-global', 'rank %d' % R.rank)
            if chain:
                env.close(third, ref.transfer(ref.nearest(T, spec['values']), want, 3), 'wrong-second-transfer', 'rank %d' % R.rank)
            return np.array(out), np.array(new.get_probabilities()), np.array(old.get_probabilities()), np.array(old.get_values())
        vals = env.job(n, program).require_clean('transfer ' + p['algo'])
        for r in range(n):
            what = '%s rank %d of %d' % (p['algo'], r, n)
            out, held, po2, v2 = vals[r]
            env.close(out, want, 'wrong-transfer', what, atol=0)
            env.close(held, out, 'returned-differs-from-stored', what)
            env.close(out.sum(), 1.0, 'probability-not-conserved', what)
            env.close(out, vals[0][0], 'not-replicated', what, rtol=1e-12)
            if not renew:
                env.equal(po2, pr, 'source-disturbed', what)
            env.equal(v2, X, 'source-disturbed', what)
