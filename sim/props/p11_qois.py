"""P11: the chosen optimal QoI sets are the global optimum, whatever the number of processes."""
import itertools

import numpy as np
import scipy.linalg

from ..env import Scenario, pick_n, register


NOISE = 1e8      # values above are those of (nearly) dependent gradients: 1/rounding error, or infinite


def harmonic(x):
    t = np.sum(1.0 / x)
    return len(x) / t if t else np.inf


def skewness(G):
    """max_i |g_i| / |component of g_i orthogonal to the other rows|, at each center."""
    nc, q, _ = G.shape
    out = np.zeros((nc, q))
    for c in range(nc):
        for i in range(q):
            B = np.delete(G[c], i, axis=0)
            x, _, _, _ = np.linalg.lstsq(B.T, G[c, i], rcond=None)
            perp = np.linalg.norm(G[c, i] - B.T.dot(x))
            out[c, i] = np.linalg.norm(G[c, i]) / perp if perp > 0 else np.inf
    return harmonic(out.max(1)), out


def measure(G):
    sv = np.array([scipy.linalg.svd(g.T, compute_uv=False, lapack_driver='gesvd') for g in G])
    m = np.mean(np.array([np.abs(np.prod(np.diag(np.linalg.qr(g.T, mode='r')))) if len(g) <= g.shape[1] else 0.0 for g in G]))
    return (1.0 / m if m > 0 else np.inf), sv


def near(G, tol):
    """Is an average inner product so close to the tolerance that rounding decides?"""
    nrm = np.linalg.norm(G, axis=2)
    U = G / np.where(nrm == 0, 1.0, nrm)[:, :, None]
    ip = np.abs(np.einsum('cik,cjk->ij', U, U)) / len(G)
    return (np.abs(ip[np.triu_indices(len(ip), 1)] - tol) < 1e-9).any()


def alike(G, tol, indices, remove_zeros):
    """The vectors that may be chosen, and which of them are repetitions of each other."""
    nrm = np.linalg.norm(G, axis=2)
    keep = [i for i in sorted(indices) if not (remove_zeros and (nrm[:, i] == 0).any())]
    d = np.where(nrm == 0, 1.0, nrm)
    U = G / d[:, :, None]
    return keep, lambda a, b: abs(np.sum(U[:, a] * U[:, b]) / len(G)) > tol


def unique(G, tol, indices, remove_zeros):
    """One vector of each group of repetitions, the first one. None if it depends on the order which one is the first"""
    keep, same = alike(G, tol, indices, remove_zeros)
    res = []
    for order in (keep, list(set(keep))):
        drop = set()
        for a, b in itertools.combinations(order, 2):
            if a not in drop and b not in drop and same(a, b):
                drop.add(b)
        res.append([i for i in keep if i not in drop])
    return res[0] if res[1] == res[0] else None


def is_unique(got, G, tol, indices, remove_zeros):
    """No two of the vectors repeat each other, and every one left out repeats one of them."""
    keep, same = alike(G, tol, indices, remove_zeros)
    got = [int(g) for g in got]
    return (len(set(got)) == len(got) and set(got) <= set(keep) and not any(same(a, b) for a, b in itertools.combinations(got, 2))
            and all(any(same(i, g) for g in got) for i in keep if i not in got))


class Base(Scenario):
    prop = 'P11'

    def common(self, rng, tier):
        dim = rng.randint(2, 4)
        return {'n': pick_n(rng, tier), 'dim': dim, 'nq': rng.randint(dim, 9 if tier == 'quick' else 12), 'centers': rng.choice([1, 2, 3, 5]),
                'opt': rng.choice([1, 2, 3, 10, None]), 'measure': rng.random() < 0.5, 'subset': rng.random() < 0.3, 'form': rng.choice(['array', 'list']),
                'dups': rng.choice([0, 0, 1, 2]), 'zeros': rng.choice([0, 0, 1, 2]), 'unit': rng.random() < 0.25, 'remove_zeros': rng.random() < 0.8, 'scale': rng.choice([0, 0, 0, -11, 9]),
                'tol': rng.choice([1.0, 0.95, 0.8]), 'rng_seed': rng.randrange(10 ** 6), 'data_seed': rng.randrange(10 ** 6)}

    def data(self, env, p):
        rs = env.data(p['data_seed'])
        if p['unit']:       # ties: gradients along the axes and diagonals
            G = rs.choice([-1.0, 0.0, 0.0, 1.0, 2.0], size=(p['centers'], p['nq'], p['dim']))
            G[:, :p['dim']] = np.eye(p['dim'])
            G = G[:, rs.permutation(p['nq'])]
        else:
            G = rs.randn(p['centers'], p['nq'], p['dim']) * rs.uniform(0.5, 3, size=(1, p['nq'], 1))
        for k in range(p['dups']):
            a, b = rs.choice(p['nq'], 2, replace=False)
            if p['tol'] < 1.0:
                G[:, b] = -1.7 * G[:, a] + 1e-3 * rs.randn(p['centers'], p['dim'])
        for k in range(p['zeros']):
            if p['remove_zeros'] or k % 2 == 0:
                G[rs.randint(p['centers']), rs.randint(p['nq'])] = 0.0
        idx = list(range(p['nq']))
        if p['subset']:
            idx = sorted(int(i) for i in rs.choice(p['nq'], max(p['dim'], p['nq'] - 2), replace=False))
        if p.get('scale') and not p['measure'] and self.name != 'qoi_averages':
            G = G * 10.0 ** p['scale']       # skewness does not depend on the units
        if p.get('wide'):                    # the choice is among a few of many QoIs, named in any order
            at = np.sort(rs.choice(p['wide'], p['nq'], replace=False))
            W = rs.randn(p['centers'], p['wide'], p['dim'])
            W[:, at] = G
            G, idx = W, [int(at[i]) for i in idx]
            rs.shuffle(idx)
        return rs, G, idx

    def verify(self, env, G, cands, fn, got, tens, opt, what, padded):
        """cands: every admissible set; got: rows (value, indices...)"""
        vals = np.array(sorted(fn(G[:, list(c)])[0] for c in cands))
        opt = opt or 10
        k = min(opt, int((vals < NOISE).sum()))
        env.check(got.shape[0] >= k if not padded else got.shape[0] == opt, 'wrong-number-of-sets', '%s: %s' % (what, got.shape))
        env.close(got[:k, 0], vals[:k], 'not-the-optimal-sets', what, rtol=1e-6)
        env.check((got[1:, 0] >= got[:-1, 0]).all(), 'not-in-order', lambda: '%s: %r' % (what, got[:, 0]))
        env.check((got[k:, 0] > NOISE / 10).all(), 'set-out-of-nowhere', '%s: %r' % (what, got))
        rows = [tuple(int(i) for i in r[1:]) for r in got if np.isfinite(r[0])]
        env.check(len(rows) <= len(cands), 'set-out-of-nowhere', '%s: %r' % (what, got))
        env.check(len(set(tuple(sorted(r)) for r in rows)) == len(rows), 'set-returned-twice', '%s: %r' % (what, rows))
        env.check(all(tuple(sorted(r)) in cands for r in rows), 'inadmissible-set', '%s: %r' % (what, rows))
        for j, r in enumerate(rows[:k]):
            v, t = fn(G[:, list(r)])
            env.close(got[j, 0], v, 'value-of-another-set', '%s set %d' % (what, j), rtol=1e-6)
            good = (t < NOISE).all(1)
            env.close(tens[good, :, j], t[good], 'singular-values-of-another-set', '%s set %d' % (what, j), rtol=1e-5, atol=1e-7)


@register
class ChooseAll(Base):
    name = 'choose_opt_qois'
    mins = {'n': 1, 'nq': 2, 'centers': 1, 'opt': 1, 'dups': 0, 'zeros': 0, 'dim': 2}

    def gen(self, rng, tier):
        p = self.common(rng, tier)
        p['q'] = rng.choice([None, 2, rng.randint(2, p['dim'])])
        p['wide'] = rng.choice([0, 0, 0, 0, 30, 150, 300])
        if p['wide']:
            p.update({'tol': 1.0, 'dups': 0, 'subset': True})
        p['verbose'] = rng.random() < 0.8
        return p

    def run(self, env, p):
        rs, G, idx = self.data(env, p)
        uniq = unique(G, p['tol'], idx, p['remove_zeros'])
        q = p['q'] or p['dim']
        if uniq is None or len(uniq) < q or q > p['dim']:
            return env.hit('nothing_to_choose_from')
        fn = measure if p['measure'] else skewness
        cands = set(itertools.combinations(uniq, q))
        if near(G, p['tol']):
            return env.hit('ties')

        def program(R):
            s = R.mod('bet.sample').sample_set(p['dim'])
            s.set_values(np.zeros((p['centers'], p['dim'])))
            s.set_jacobians(np.array(G))
            c = R.mod('bet.sensitivity.chooseQoIs')
            kw = dict(qoiIndices=(np.array(idx) if p['form'] == 'array' else list(idx)) if p['subset'] or p.get('wide') else None, num_qois_return=p['q'], num_optsets_return=p['opt'], inner_prod_tol=p['tol'],
                      measure=p['measure'], remove_zeros=p['remove_zeros'])
            if p['verbose']:
                m, t = c.chooseOptQoIs_verbose(s, **kw)
            else:
                m, t = c.chooseOptQoIs(s, **kw), None
            return np.array(m), t if t is None else np.array(t), np.array(s._jacobians)
        vals = env.job(p['n'], program, p['rng_seed']).require_clean('chooseOptQoIs')
        env.hit('more_ranks_than_sets' if p['n'] > len(cands) else 'sets_on_every_rank')
        for r, (m, t, J) in enumerate(vals):
            what = 'rank %d of %d' % (r, p['n'])
            env.equal(J, G, 'jacobians-disturbed', what)
            if t is None:
                t = np.dstack([fn(G[:, [int(i) for i in row[1:]]])[1] if np.isfinite(row[0]) else np.zeros((p['centers'], q)) for row in m])
            self.verify(env, G, cands, fn, m, t, p['opt'], what, True)


@register
class ChooseLarge(Base):
    name = 'choose_opt_qois_large'
    mins = {'n': 1, 'nq': 2, 'centers': 1, 'opt': 1, 'dups': 0, 'zeros': 0, 'dim': 2}

    def gen(self, rng, tier):
        p = self.common(rng, tier)
        p['q'] = rng.choice([None, 2, rng.randint(2, p['dim'])])
        p['wide'] = rng.choice([0, 0, 0, 0, 30, 150, 300])
        if p['wide']:
            p.update({'tol': 1.0, 'dups': 0, 'subset': True})
        p['mtol'] = rng.choice([None, None, 0.5, 0.8, 0.05])
        p['verbose'] = rng.random() < 0.8
        return p

    def run(self, env, p):
        rs, G, idx = self.data(env, p)
        uniq = unique(G, p['tol'], idx, p['remove_zeros'])
        q = p['q'] or p['dim']
        if uniq is None or len(uniq) < 2 or q > p['dim']:
            return env.hit('nothing_to_choose_from')
        fn = measure if p['measure'] else skewness
        if near(G, p['tol']):
            return env.hit('ties')
        allv = sorted(v for v in (fn(G[:, list(c)])[0] for c in itertools.combinations(uniq, 2)) if v < NOISE)
        tol = np.inf
        if p['mtol'] is not None and allv:       # a tolerance between two of the values that occur
            k = min(int(p['mtol'] * len(allv)), len(allv) - 2)
            tol = 0.5 * (allv[k] + allv[k + 1]) if k >= 0 else 2 * allv[0]
            tol = min(tol, NOISE / 10)
        levels, cur = [], [(u,) for u in uniq]
        for size in range(2, q + 1):
            vals_ = {c + (u,): fn(G[:, list(c + (u,))])[0] for c in cur for u in uniq if u > c[-1]}
            if any(abs(v - tol) <= 1e-6 * tol for v in vals_.values() if np.isfinite(tol)):
                return env.hit('ties')
            cur = [c for c in vals_ if vals_[c] < tol or tol == np.inf]
            levels.append(set(cur))

        def program(R):
            s = R.mod('bet.sample').sample_set(p['dim'])
            s.set_values(np.zeros((p['centers'], p['dim'])))
            s.set_jacobians(np.array(G))
            c = R.mod('bet.sensitivity.chooseQoIs')
            kw = dict(qoiIndices=(np.array(idx) if p['form'] == 'array' else list(idx)) if p['subset'] or p.get('wide') else None, max_qois_return=p['q'], num_optsets_return=p['opt'], inner_prod_tol=None if p['tol'] == 1.0 else p['tol'],
                      measskew_tol=None if tol == np.inf else tol, measure=p['measure'], remove_zeros=p['remove_zeros'])
            if p['verbose']:
                m, t = c.chooseOptQoIs_large_verbose(s, **kw)
                t = [np.array(x) for x in t]
            else:
                m, t = c.chooseOptQoIs_large(s, **kw), None
            return [np.array(x) for x in m], t, np.array(s._jacobians)
        vals = env.job(p['n'], program, p['rng_seed']).require_clean('chooseOptQoIs_large')
        env.hit('dead_end' if any(not l for l in levels) else 'alive')
        for r, (ms, ts, J) in enumerate(vals):
            env.equal(J, G, 'jacobians-disturbed', 'rank %d' % r)
            env.check(len(ms) == q - 1, 'wrong-number-of-sizes', 'rank %d: %d' % (r, len(ms)))
            for size in range(2, q + 1):
                m = ms[size - 2]
                what = 'size %d rank %d of %d' % (size, r, p['n'])
                env.check(m.ndim == 2 and m.shape[1] == size + 1, 'wrong-shape', what)
                t = ts[size - 2] if ts is not None else None
                if t is None:
                    t = np.dstack([fn(G[:, [int(i) for i in row[1:]]])[1] if np.isfinite(row[0]) else np.zeros((p['centers'], size)) for row in m])
                self.verify(env, G, levels[size - 2], fn, m, t, p['opt'], what, False)


@register
class Averages(Base):
    """The averages themselves, for one given set, with every way to name it."""
    name = 'qoi_averages'
    mins = {'n': 1, 'nq': 2, 'centers': 1, 'dups': 0, 'zeros': 0, 'dim': 2}

    def gen(self, rng, tier):
        p = self.common(rng, tier)
        p['calls'] = [[rng.choice(['measure', 'skewness', 'condnum', 'unique']), rng.choice(['none', 'list', 'array', 'none']), rng.randint(1, p['dim'] + 1),
                       rng.choice([None, 2.5])] for _ in range(rng.randint(1, 4))]
        p['jac'] = rng.random() < 0.9
        if rng.random() < 0.5:
            p['nq'] = rng.randint(2, p['dim'])
        p['subset'] = False
        return p

    def run(self, env, p):
        if p['unit'] and p['nq'] < p['dim']:
            return env.hit('too_few')
        rs, G, idx = self.data(env, p)
        sets = [[int(i) for i in rs.choice(p['nq'], min(q, p['nq']), replace=False)] for _, _, q, _ in p['calls']]

        def program(R):
            s = R.mod('bet.sample').sample_set(p['dim'])
            s.set_values(np.zeros((p['centers'], p['dim'])))
            if p['jac']:
                s.set_jacobians(np.array(G))
            c = R.mod('bet.sensitivity.chooseQoIs')
            out = []
            for (kind, form, _, binm), q in zip(p['calls'], sets):
                qs = None if form == 'none' else list(q) if form == 'list' else np.array(q)
                try:
                    if kind == 'unique':
                        out.append(np.array(c.find_unique_vecs(s, p['tol'], qs, p['remove_zeros'])))
                    elif kind == 'measure':
                        out.append([np.array(x) for x in c.calculate_avg_measure(s, qs, binm)])
                    else:
                        out.append([np.array(x) for x in getattr(c, 'calculate_avg_' + kind)(s, qs)])
                except ValueError as e:
                    out.append('refused')
            return out, None if s._jacobians is None else np.array(s._jacobians)
        vals = env.job(p['n'], program, p['rng_seed']).require_clean('averages')
        for r, (outs, J) in enumerate(vals):
            if p['jac']:
                env.equal(J, G, 'jacobians-disturbed', 'rank %d' % r)
            for (kind, form, _, binm), q, got in zip(p['calls'], sets, outs):
                what = 'rank %d of %d: %s %s %r' % (r, p['n'], kind, form, q)
                q = list(range(p['nq'])) if form == 'none' else q
                if not p['jac'] or (kind != 'unique' and len(q) > p['dim']):
                    env.check(isinstance(got, str), 'not-refused', what)
                    continue
                env.check(not isinstance(got, str), 'refused', what)
                A = G[:, q]
                if kind == 'unique':
                    if not near(G[:, sorted(q)], p['tol']):
                        env.check(is_unique(got, G, p['tol'], q, p['remove_zeros']), 'wrong-unique-vectors', '%s: %s' % (what, got))
                        want = unique(G, p['tol'], q, p['remove_zeros'])
                        if want is not None:
                            env.equal(np.sort(got), want, 'wrong-unique-vectors', what)
                    continue
                val, tens = got
                if kind == 'condnum':
                    sv = measure(A)[1]
                    dep = sv[:, -1] < 1e-6 * sv[:, 0].max()
                    if (dep.any() and not (A[dep] == 0).all(2).any(1).all()) or (sv[:, 0] == 0).any():
                        continue                      # rounding decides
                    env.hit('cond_dependent' if dep.any() else 'cond')
                    ref = harmonic(np.where(dep, np.inf, sv[:, 0] / np.where(dep, 1, sv[:, -1])))
                    env.close(tens[~dep], sv[~dep], 'singular-values', what, rtol=1e-5, atol=1e-6)
                else:
                    ref, t = (measure if kind == 'measure' else skewness)(A)
                    good = (t < NOISE).all(1)
                    env.close(tens[good], t[good], 'values-at-centers', what, rtol=1e-5, atol=1e-6)
                    if kind == 'measure' and binm is not None:
                        ref = ref * binm
                if ref < NOISE:
                    env.close(val, ref, 'wrong-average', what, rtol=1e-6)
                else:
                    env.check(val > NOISE / 10, 'wrong-average', '%s: %r, not infinite' % (what, val))
