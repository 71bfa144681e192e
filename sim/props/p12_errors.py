"""P12: a posteriori error estimates; P13: surrogate discretizations."""
import numpy as np

from .. import build, ref
from ..env import Scenario, pick_n, register
from .p05_inverse import gen_prob_set, make_prob_set, place, pn, prob_spec, ranges


def neighbours(X):
    """Adjacent Euclidean Voronoi cells, as a set of index pairs."""
    if X.shape[1] == 1:
        o = np.argsort(X[:, 0])
        return {(int(o[k]), int(o[k + 1])) for k in range(len(o) - 1)}
    from itertools import combinations
    from scipy.spatial import Delaunay
    return {(int(a), int(b)) for s in Delaunay(X).simplices for a, b in combinations(s, 2)}


def interior_boundary(X, cell):
    nb = [set() for _ in X]
    for a, b in neighbours(X):
        nb[a].add(int(cell[b]))
        nb[b].add(int(cell[a]))
    B, C = {}, {}
    for i in range(len(X)):
        if nb[i] == {int(cell[i])}:
            B.setdefault(int(cell[i]), []).append(i)
        for j in nb[i]:
            C.setdefault(j, []).append(i)
    return B, C


def sampling_contour(B, C, cell, vol, pd):
    up, lo = [], []
    for i in range(len(pd)):
        if pd[i] > 0:
            if i in B:
                c = C.get(i, [])
                v = np.where(cell == i, vol, 0.0)
                t1 = v[B[i]].sum() / vol[c].sum() - 1.0
                t2 = v[c].sum() / vol[B[i]].sum() - 1.0
                up.append(pd[i] * max(t1, t2))
                lo.append(pd[i] * min(t1, t2))
            else:
                up.append(np.nan)
                lo.append(np.nan)
        else:
            up.append(0.0)
            lo.append(0.0)
    return up, lo


def sampling_region(B, C, cell, pd, inA, near):
    """inA/near: per emulated point, membership of the region and the input cell."""
    U = L = 0.0
    for i in range(len(pd)):
        if pd[i] > 0:
            ai = cell[near] == i
            if ai.sum() == 0:
                return np.nan, np.nan
            E = (inA & ai).sum() / float(ai.sum())
            b = np.isin(near, B.get(i, []))
            c = np.isin(near, C.get(i, []))
            if c.sum() == 0 or b.sum() == 0:
                return np.nan, np.nan
            t1 = (inA & b).sum() / float(c.sum()) - E
            t2 = (inA & c).sum() / float(b.sum()) - E
            U += pd[i] * max(t1, t2)
            L += pd[i] * min(t1, t2)
    return U, L


def model_region(c1, c2, pd, inA, near=None):
    """-> (estimate, per-cell indicator) ; None where a denominator vanishes."""
    if near is not None:
        c1, c2 = c1[near], c2[near]
    est, zero = 0.0, False
    eid = np.zeros(len(c1))
    for i in range(len(pd)):
        if pd[i] > 0:
            a1, a2 = c1 == i, c2 == i
            J, Je = float(a1.sum()), float(a2.sum())
            if J * Je == 0:
                zero = True
                e = np.inf
            else:
                e = pd[i] * (((inA & a1).sum() * Je - (inA & a2).sum() * J) / (J * Je))
            est += e
            bad = a1 != a2
            if bad.sum():
                eid[bad] += e / bad.sum()
    return est, zero, eid


@register
class ErrorEstimates(Scenario):
    prop = 'P12'
    name = 'error_estimates'
    mins = {'n': 1, 'num': 6, 'enum': 1, 'dim': 1, 'odim': 1, 'pcells': 1, 'snum': 1, 'nreg': 1}

    def gen(self, rng, tier):
        odim = rng.randint(1, 2)
        p = {'n': pick_n(rng, tier), 'num': rng.choice([6, 9, 15, 26, 40]), 'dim': rng.randint(1, 3), 'odim': odim, 'enum': rng.choice([1, 12, 60, 200]),
             'how': rng.choice(['global', 'block']), 'ehow': rng.choice(['global', 'block', 'uneven']), 'vol': rng.choice(['given', 'mc', 'none', 'none_emu']),
             'what': rng.choice(['sampling', 'model', 'model']), 'emu': rng.choice(['arg', 'held', 'none']), 'snum': rng.choice([1, 3, 8, 20]),
             'own': rng.random() < 0.4, 'nreg': rng.randint(1, 3), 'preptr': rng.random() < 0.4, 'ints': rng.random() < 0.1, 'eesize': rng.choice([0.0, 0.02, 0.3]),
             'pre': rng.choice(['none', 'prob', 'setprob']), 'data_seed': rng.randrange(10 ** 6),
             'more': [[rng.choice(['contour', 'arg', 'held', 'mc']), rng.randrange(3)] for _ in range(rng.choice([0, 0, 1, 2, 3]))]}
        p.update(gen_prob_set(rng, odim))
        return p

    def run(self, env, p):
        n, num, dim, odim = p['n'], max(p['num'], p['dim'] + 3), p['dim'], p['odim']
        rs = env.data(p['data_seed'])
        dom = build.domain(rs, dim)
        w = dom[:, 1] - dom[:, 0]
        X = dom[:, 0] + w * rs.rand(num, dim)
        A = rs.randn(dim, odim)
        Y = X.dot(A)
        if p.get('ints'):
            Y = np.round(30 * Y / np.abs(Y).max()).astype(int)
        ee = p['eesize'] * rs.randn(num, odim) * (20 if p.get('ints') else 1)
        vol = rs.rand(num) + 0.05
        E = dom[:, 0] + w * rs.rand(p['enum'], dim)
        spec = prob_spec(rs, p, odim, Y)
        pd = spec['prob']
        snum = num if p['own'] else p['snum']
        S = X if p['own'] else dom[:, 0] + w * rs.rand(snum, dim)
        reg = rs.randint(0, p['nreg'], snum)
        region = int(reg[rs.randint(snum)])
        regions = sorted(set(int(q) for q in reg))
        # further questions to the same object: contour events, or a region with the given, the held or no emulated points
        more = [(k, regions[q % len(regions)]) for k, q in p.get('more', []) if k != 'mc' or p['what'] == 'model']
        er = ranges(rs, p['enum'], n, p['ehow'])
        hold = p['emu'] == 'held' or p['vol'] == 'none_emu'

        def program(R):
            sample = R.mod('bet.sample')
            ce = R.mod('bet.calculateP.calculateError')
            cp = R.mod('bet.calculateP.calculateP')
            inp, out = sample.sample_set(dim), sample.sample_set(odim)
            inp.set_domain(np.array(dom))
            inp.set_values(np.array(X))
            if p['vol'] == 'given':
                inp.set_volumes(np.array(vol))
            out.set_values(np.array(Y))
            out.set_error_estimates(np.array(ee))
            if p['how'] == 'block':
                inp.global_to_local()
                out.global_to_local()
            if p['vol'] == 'mc':
                inp.estimate_volume_mc()
            emu = sample.sample_set(dim)
            place(emu, {'_values': E}, er[R.rank], p['ehow'])
            ps = make_prob_set(sample, spec, odim)
            if p['pre'] == 'setprob':
                d = sample.discretization(inp, out)
                d.set_output_probability_set(ps)
            else:
                d = sample.discretization(inp, out, output_probability_set=ps)
            if hold:
                d.set_emulated_input_sample_set(emu)
            if p['preptr']:
                d.set_io_ptr(globalize=True)
            if p['pre'] == 'prob':
                if p['vol'] in ('given', 'mc'):
                    cp.prob(d)
            s = sample.sample_set(dim)
            s.set_values(np.array(S))
            s.set_region(np.array(reg))
            res = {}
            arg = emu if p['emu'] == 'arg' else None
            if p['what'] == 'sampling':
                e = ce.sampling_error(d)
                res['contour'] = [np.array(x, float) for x in e.calculate_for_contour_events()]
                res['region'] = e.calculate_for_sample_set_region(s, region, arg) if (arg is not None) else e.calculate_for_sample_set_region(s, region)
            else:
                e = ce.model_error(d)
                res['contour'] = np.array(e.calculate_for_contour_events(), float)
                res['region'] = e.calculate_for_sample_set_region(s, region, arg) if (arg is not None) else e.calculate_for_sample_set_region(s, region)
                res['mc'] = e.calculate_for_sample_set_region_mc(s, region)
                res['eid'] = np.array(inp._error_id_local)
            res['more'] = []
            for k, q in more:
                if k == 'contour':
                    x = e.calculate_for_contour_events()
                elif k == 'mc':
                    x = e.calculate_for_sample_set_region_mc(s, q)
                else:
                    x = e.calculate_for_sample_set_region(s, q, emu) if k == 'arg' else e.calculate_for_sample_set_region(s, q)
                res['more'].append(np.array(x, float))
            res['emu'] = d.get_emulated_input_sample_set() is (emu if hold else None)
            res['vals'] = [np.array(inp.get_values()), np.array(out.get_values()), np.array(out.get_error_estimates())]
            if out.get_values_local() is not None:
                res['outl'] = np.array(out.get_values_local())
            return res
        cell, cell2 = ref.in_cells(spec, Y), ref.in_cells(spec, Y + ee)
        near = ref.nearest(X, E)
        v = vol if p['vol'] == 'given' else np.full(num, 1.0 / num)
        if p['vol'] in ('none', 'none_emu') and hold:
            v = ref.counts(near, num) / p['enum']
        inX = reg[ref.nearest(S, X)] == region
        inE = reg[ref.nearest(S, E)] == region
        use_emu = p['emu'] == 'arg' or hold
        if p['what'] == 'model':
            if use_emu:
                wr, nothing, _ = model_region(cell, cell2, pd, inE, near)
                if nothing:
                    env.hit('model_region_empty_event')
            wm, zero, weid = model_region(cell, cell2, pd, inX)
            if not use_emu:
                wr = wm
        vals = env.job(n, program).require_clean(p['what'] + '_error')
        with np.errstate(all='ignore'):
            if p['what'] == 'sampling':
                B, C = interior_boundary(X, cell)
                wc = sampling_contour(B, C, cell, v, pd)
                wr = sampling_region(B, C, cell, pd, inE, near) if use_emu else sampling_region(B, C, cell, pd, inX, np.arange(num))
            else:
                wc = []
                for i in range(len(pd)):
                    a, b = cell == i, cell2 == i
                    J, Jb, Jab = v[a].sum(), v[b].sum(), v[a & b].sum()
                    wc.append(pd[i] * np.float64(J * Jb - Jab * J) / np.float64(J * Jb) if pd[i] > 0 else 0.0)
        for r in range(n):
            g = vals[r]
            what = '%s error, rank %d of %d' % (p['what'], r, n)
            if p['what'] == 'sampling':
                for k, nm in enumerate(('upper', 'lower')):
                    env.close(g['contour'][k], np.array(wc[k]), 'wrong-contour-bound', '%s %s' % (what, nm))
                env.close(np.array(g['region'], float), np.array(wr, float), 'wrong-region-bound', what)
            else:
                env.close(g['contour'], np.array(wc), 'wrong-contour-error', what)
                env.close(np.float64(g['region']), np.float64(wr), 'wrong-region-error', what)
                env.close(np.float64(g['mc']), np.float64(wm), 'wrong-region-error', what + ' (mc)')
            for k, ((kind, q), got) in enumerate(zip(more, g['more'])):
                aX, aE = reg[ref.nearest(S, X)] == q, reg[ref.nearest(S, E)] == q
                emulated = kind == 'arg' or (kind == 'held' and hold)
                with np.errstate(all='ignore'):
                    if kind == 'contour':
                        want = np.array(wc, float)
                    elif p['what'] == 'sampling':
                        want = sampling_region(B, C, cell, pd, aE, near) if emulated else sampling_region(B, C, cell, pd, aX, np.arange(num))
                    else:
                        want = model_region(cell, cell2, pd, aE, near)[0] if emulated else model_region(cell, cell2, pd, aX)[0]
                env.close(got, np.array(want, float), 'wrong-later-answer', '%s, question %d (%s, region %s)' % (what, k, kind, q))
            env.check(g['emu'], 'emulated-points-replaced', what)
            env.equal(g['vals'][0], X, 'inputs-disturbed', what)
            env.equal(g['vals'][1], Y, 'outputs-disturbed', what)
            env.equal(g['vals'][2], ee, 'error-estimates-disturbed', what)
            if 'outl' in g:
                env.equal(g['outl'], np.array_split(Y, n)[r], 'outputs-disturbed', what + ' (local)')
        if p['what'] == 'model' and not zero:
            env.close(np.concatenate([x['eid'] for x in vals]), weid, 'wrong-error-indicator', p['what'])


@register
class Surrogate(Scenario):
    prop = 'P13'
    name = 'surrogate'
    mins = {'n': 1, 'num': 1, 'znum': 1, 'dim': 1, 'odim': 1, 'pcells': 1, 'snum': 1, 'nreg': 1}

    def gen(self, rng, tier):
        odim = rng.randint(1, 2)
        p = {'n': pick_n(rng, tier), 'num': rng.choice([1, 2, 5, 12, 25]), 'znum': rng.choice([1, 3, 10, 40, 90]), 'dim': rng.randint(1, 3), 'odim': odim,
             'order': rng.choice([0, 1, 1]), 'how': rng.choice(['global', 'block', 'local', 'refreshed']), 'zhow': rng.choice(['global', 'block', 'uneven', 'parts']),
             'volz': rng.choice([0, 0, 1, 2]), 'prob': rng.random() < 0.7, 'snum': rng.choice([1, 4, 11]), 'nreg': rng.randint(1, 3), 'update': rng.random() < 0.6,
             'linear': rng.random() < 0.5, 'eesize': rng.choice([0.01, 0.2]), 'pnorm': rng.choice([1.0, 2.0, 2.0, 'inf']), 'twice': rng.random() < 0.3, 'ints': rng.random() < 0.1,
             'data_seed': rng.randrange(10 ** 6), 'regl': rng.random() < 0.5, 'zdom': rng.random() < 0.3, 'zpn': rng.random() < 0.3}
        p.update(gen_prob_set(rng, odim))
        return p

    def run(self, env, p):
        n, num, znum, dim, odim = p['n'], p['num'], p['znum'], p['dim'], p['odim']
        rs = env.data(p['data_seed'])
        dom = build.domain(rs, dim)
        w = dom[:, 1] - dom[:, 0]
        X = dom[:, 0] + w * rs.rand(num, dim)
        A = rs.randn(dim, odim)
        Y = X.dot(A) + (0 if p['linear'] else 0.3 * np.sin(3 * X).sum(1)[:, None])
        J = np.tile(A.T, (num, 1, 1)) + (0 if p['linear'] else rs.randn(num, odim, dim))
        if p.get('ints'):
            Y = np.round(20 * Y).astype(int)
        ee = p['eesize'] * rs.randn(num, odim)
        Z = dom[:, 0] + w * rs.rand(znum, dim)
        zvol = rs.rand(znum) + 0.05
        S = dom[:, 0] + w * rs.rand(p['snum'], dim)
        reg = rs.randint(0, p['nreg'], p['snum'])
        regions = sorted(set(int(x) for x in reg))
        po = pn(p['pnorm'])
        near = ref.nearest(X, Z, po)
        Q = Y[near]
        if p['order'] == 1:
            Q = Q + np.einsum('ijk,ik->ij', J[near], Z - X[near])
        EE = ee[near]
        spec = prob_spec(rs, p, odim, Q)
        pd = spec['prob']
        zr = ranges(rs, znum, n, p['zhow'])
        xr = ranges(rs, num, n, 'block')

        def program(R):
            sample = R.mod('bet.sample')
            su = R.mod('bet.surrogates')
            inp, out = sample.sample_set(dim), sample.sample_set(odim)
            inp.set_domain(np.array(dom))
            inp.set_p_norm(po)
            ia, oa = {'_values': X, '_jacobians': J}, {'_values': Y, '_error_estimates': ee}
            if p['how'] in ('local', 'refreshed'):
                a, b = xr[R.rank]
                for s, arr in ((inp, ia), (out, oa)):
                    for f, v in arr.items():
                        if p['how'] == 'refreshed' and (s is out or f != '_values'):
                            # an earlier evaluation, globalized; the processes then evaluated their parts anew
                            setattr(s, f, np.array(v)[::-1] + 1.0)
                        elif p['how'] == 'refreshed':
                            setattr(s, f, np.array(v))
                        setattr(s, f + '_local', np.array(v[a:b]))
            else:
                place(inp, ia, xr[R.rank], p['how'])
                place(out, oa, xr[R.rank], p['how'])
            d = sample.discretization(inp, out, output_probability_set=make_prob_set(sample, spec, odim))
            sur = su.piecewise_polynomial_surrogate(d)
            z = sample.sample_set(dim)
            za = {'_values': Z}
            if p['volz'] == 1:
                za['_volumes'] = zvol
            place(z, za, zr[R.rank], p['zhow'])
            if p['volz'] == 2:              # each process knows the volumes of its own samples only
                z.check_num()
                if z.get_values_local() is None:
                    z.global_to_local()
                a = R.mod('bet.util').get_global_values(np.array([len(z.get_values_local())]))
                b = int(a[:R.rank].sum())
                z.set_volumes_local(np.array(zvol[b:b + len(z.get_values_local())]))
            if p['zdom']:
                z.set_domain(dom + np.array([-0.5, 0.5]))
            if p['zpn']:
                z.set_p_norm(None)
            res = []
            for _ in range(2 if p['twice'] else 1):
                sd = sur.generate_for_input_set(z, order=p['order'])
                o = sd.get_output_sample_set()
                g = {'loc': np.array(o.get_values_local()), 'eel': np.array(o.get_error_estimates_local()), 'zl': np.array(z.get_values_local())}
                s = sample.sample_set(dim)
                s.set_values(np.array(S))
                s.set_region(np.array(reg))
                if p['prob']:
                    g['P'], g['E'] = sur.calculate_prob_for_sample_set_region(s, regions, update_input=p['update'])
                    g['eid'] = np.array(z._error_id_local)
                    if p['update']:
                        if p['regl']:
                            inp.local_to_global()       # as saving does
                        g['ip'], g['ie'] = np.array(inp.get_probabilities()), np.array(inp.get_error_id())
                        if inp.get_values_local() is not None:
                            g['il'] = inp.get_probabilities_local()
                            g['il'] = None if g['il'] is None else np.array(g['il'])
                sd.local_to_global()
                g['glob'], g['ee'] = np.array(o.get_values()), np.array(o.get_error_estimates())
                g['src'] = [np.array(inp.get_values()), np.array(out.get_values()), np.array(inp.get_jacobians()), np.array(z.get_values())]
                g['zset'] = (np.array(z.get_domain()), z.get_p_norm())
                res.append(g)
            return res
        vals = env.job(n, program).require_clean('surrogate')
        zv = zvol if p['volz'] else np.full(znum, 1.0 / znum)
        c1, c2 = ref.in_cells(spec, Q), ref.in_cells(spec, Q + EE)
        P = ref.inverse_prob(c1, zv, pd)
        inS = ref.nearest(S, Z)
        T = ref.transfer(inS, P, p['snum'])
        tol = dict(rtol=1e-8, atol=1e-10)
        for k in range(len(vals[0])):
            for r in range(n):
                g = vals[r][k]
                what = 'order %d surrogate, call %d, rank %d of %d' % (p['order'], k, r, n)
                env.close(g['glob'], Q, 'wrong-surrogate-value', what, **tol)
                env.close(g['ee'], EE, 'wrong-surrogate-error', what, **tol)
                if p['linear'] and p['order'] == 1 and not p.get('ints'):
                    env.close(g['glob'], Z.dot(A), 'linear-map-not-reproduced', what, **tol)
                for a, b in zip(g['src'], (X, Y, J, Z)):
                    env.equal(a, b, 'source-disturbed', what)
                env.equal(g['zset'][0], dom + np.array([-0.5, 0.5]) if p['zdom'] else dom, 'wrong-surrogate-domain', what)
                env.check(g['zset'][1] == (po if p['zpn'] else 2.0), 'wrong-surrogate-norm', lambda: '%s: %s' % (what, g['zset'][1]))
                if p['prob']:
                    env.close(np.array(g['P'], float), np.array([T[reg == q].sum() for q in regions]), 'wrong-region-probability', what, **tol)
                    E = [model_region(c1, c2, pd, (reg[inS] == q)) for q in regions]
                    env.close(np.array(g['E'], float), np.array([e[0] for e in E]), 'wrong-region-error', what, **tol)
                    if p['update']:
                        if 'il' in g:
                            a, b = xr[r]
                            env.equal(g['il'], g['ip'][a:b], 'local-parts-differ-from-global', what)
                        env.close(g['ip'], ref.transfer(near, P, num), 'wrong-updated-probability', what, **tol)
                        if not E[-1][1]:
                            env.close(g['ie'], ref.transfer(near, E[-1][2], num), 'wrong-updated-indicator', what, **tol)
            env.close(np.vstack([v[k]['loc'] for v in vals]), Q, 'local-parts-differ-from-global', 'surrogate', **tol)
