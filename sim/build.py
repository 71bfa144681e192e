"""Builders shared by the workloads: sample sets with arbitrary contents, made inside a rank."""
import numpy as np

FLOAT_FIELDS = ['_volumes', '_probabilities', '_densities', '_radii', '_normalized_radii']
ALL_FIELDS = ['_values', '_volumes', '_probabilities', '_densities', '_jacobians', '_error_estimates',
              '_right', '_left', '_width', '_kdtree_values', '_radii', '_normalized_radii', '_region', '_error_id']


def field(rs, name, num, dim, odim):
    if name in FLOAT_FIELDS:
        return rs.rand(num)
    if name in ('_values', '_right', '_left', '_width', '_kdtree_values'):
        return rs.rand(num, dim)
    if name == '_jacobians':
        return rs.rand(num, odim, dim) - 0.5
    if name == '_error_estimates':
        return rs.rand(num, dim)
    if name == '_region':
        return rs.randint(0, 9, num)
    if name == '_error_id':
        return rs.rand(num)
    raise KeyError(name)


def domain(rs, dim):
    lo = rs.uniform(-3, 2, dim)
    d = np.column_stack([lo, lo + rs.uniform(0.5, 4, dim)])
    u = rs.rand()
    if u < 0.1:           # other units, the same or different ones for the coordinates
        d = d * 10.0 ** rs.uniform(-5, 4)
    elif u < 0.2:
        d = d * 10.0 ** rs.uniform(-4, 3, (dim, 1))
    return d


def fill(sset, arrays):
    for k, v in arrays.items():
        setattr(sset, k, None if v is None else np.array(v))
