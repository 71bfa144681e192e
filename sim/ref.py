"""Small executable reference models (plain numpy, one process, no BET code)."""
import math

import numpy as np


def pdist(a, b, p):
    """Pairwise p-norm distances (len(a), len(b))."""
    d = np.abs(a[:, None, :] - b[None, :, :])
    if np.isinf(p):
        return d.max(2)
    return (d ** p).sum(2) ** (1.0 / p)


def nearest(sites, x, p=2.0):
    if len(x) == 0:
        return np.zeros(0, int)
    out = np.empty(len(x), int)
    for i in range(0, len(x), 4096):
        out[i:i + 4096] = np.argmin(pdist(x[i:i + 4096], sites, p), 1)
    return out


def in_cells(spec, x):
    """Cell index of each point for a probability-set description."""
    k = spec['kind']
    if k == 'voronoi':
        return nearest(spec['values'], x, spec['p'])
    if k == 'rect':
        n = len(spec['lo'])
        out = np.full(len(x), n)
        for i in range(n - 1, -1, -1):
            m = np.all((x <= spec['hi'][i]) & (x > spec['lo'][i]), 1)
            out[m] = i
        return out
    if k == 'ball':
        n = len(spec['c'])
        out = np.full(len(x), n)
        for i in range(n - 1, -1, -1):
            m = pdist(x, spec['c'][i:i + 1], spec['p'])[:, 0] < spec['r'][i]
            out[m] = i
        return out
    raise KeyError(k)


def num_cells(spec):
    return {'voronoi': lambda: len(spec['values']), 'rect': lambda: len(spec['lo']) + 1,
            'ball': lambda: len(spec['c']) + 1}[spec['kind']]()


def inverse_prob(cell, vol, pd):
    """Probability of every input cell: output probability shared by volume."""
    P = np.zeros(len(cell))
    for i in range(len(pd)):
        if pd[i] > 0:
            m = cell == i
            s = vol[m].sum()
            if s > 0:
                P[m] = pd[i] * vol[m] / s
    return P


def emulated_prob(cell, pd):
    P = np.zeros(len(cell))
    for i in range(len(pd)):
        m = cell == i
        if pd[i] > 0 and m.sum() > 0:
            P[m] = pd[i] / m.sum()
    return P


def transfer(ptr, prob, num):
    out = np.zeros(num)
    np.add.at(out, ptr, prob)
    return out


def transfer_emulated(ptr_old, ptr_new, prob_old, num_new):
    em = np.zeros(len(ptr_old))
    lost = False
    for i in range(len(prob_old)):
        if prob_old[i] > 0:
            m = ptr_old == i
            if m.sum():
                em[m] += prob_old[i] / m.sum()
            else:
                lost = True
    if lost:
        em = em / em.sum()
    return transfer(ptr_new, em, num_new)


def counts(ptr, num):
    return np.bincount(ptr, minlength=num)[:num].astype(float)


# ----------------------------------------------------------------------- geometry
def clip_cell_area(sites, i, dom):
    """Area of the Euclidean Voronoi cell of site i within a 2-D box, by half-plane clipping."""
    poly = [(dom[0, 0], dom[1, 0]), (dom[0, 1], dom[1, 0]), (dom[0, 1], dom[1, 1]), (dom[0, 0], dom[1, 1])]
    a = sites[i]
    for j in range(len(sites)):
        if j == i:
            continue
        b = sites[j]
        nx, ny = b[0] - a[0], b[1] - a[1]
        c = 0.5 * (b[0] ** 2 + b[1] ** 2 - a[0] ** 2 - a[1] ** 2)
        out = []
        m = len(poly)
        for k in range(m):
            p, q = poly[k], poly[(k + 1) % m]
            sp, sq = nx * p[0] + ny * p[1] - c, nx * q[0] + ny * q[1] - c
            if sp <= 0:
                out.append(p)
            if (sp < 0 < sq) or (sq < 0 < sp):
                t = sp / (sp - sq)
                out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
        poly = out
        if len(poly) < 3:
            return 0.0
    x = np.array(poly)
    return 0.5 * abs(np.dot(x[:, 0], np.roll(x[:, 1], -1)) - np.dot(x[:, 1], np.roll(x[:, 0], -1)))


def volumes_2d(sites, dom):
    tot = np.prod(dom[:, 1] - dom[:, 0])
    return np.array([clip_cell_area(sites, i, dom) for i in range(len(sites))]) / tot


def volumes_1d(x, dom):
    """Fraction of a 1-D interval nearest to each site."""
    out = np.empty(len(x))
    for i, v in enumerate(x):
        left = [y for y in x if y < v]
        right = [y for y in x if y > v]
        a = 0.5 * (v + max(left)) if left else dom[0]
        b = 0.5 * (v + min(right)) if right else dom[1]
        out[i] = (b - a) / (dom[1] - dom[0])
    return out


def mc_cells(sites, dom, p, n, seed=12345):
    rs = np.random.RandomState(seed)
    pts = dom[:, 0] + (dom[:, 1] - dom[:, 0]) * rs.rand(n, len(dom))
    return counts(nearest(sites, pts, p), len(sites)) / n


def binom_close(got, want, n, nref, sig=7.0):
    """Are two proportions (n and nref draws) compatible? -> index of the worst offender or None."""
    v = np.maximum(want, got)
    tol = sig * np.sqrt(v * (1 - np.minimum(v, 1 - 1e-12)) * (1.0 / n + 1.0 / nref)) + 12.0 / n + 12.0 / nref
    bad = np.abs(got - want) > tol
    return int(np.argmax(np.abs(got - want) - tol)) if bad.any() else None


def lnorm(x, p):
    x = np.abs(x)
    if np.isinf(p):
        return x.max(-1)
    return (x ** p).sum(-1) ** (1.0 / p)


def density(P, V):
    """Density of cells; zero where there is no probability, also in cells without volume."""
    P, V = np.asarray(P, float), np.asarray(V, float)
    return np.divide(P, V, out=np.zeros(P.shape), where=P != 0)
