"""P24: a request that does not fit is refused, on every process alike, and leaves everything as it was."""
import numpy as np

from .. import build, ref
from ..core import CommError, Violation
from ..env import Scenario, pick_n, register, split

BAD = {}


def bad(f):
    BAD[f.__name__] = f
    return f


class Fix:
    """The objects of one process, and what they hold."""

    def __init__(self, R, D, p):
        self.R, self.D, self.p = R, D, p
        self.S = R.mod('bet.sample')
        self.dim, self.odim = p['dim'], p['odim']
        self.inp, self.out, self.emu = self.make(D.X, D.dom, volumes=D.V), self.make(D.Y), self.make(D.E, D.dom)
        self.ps = self.make(D.Z, probabilities=D.PZ)
        self.disc = self.S.discretization(self.inp, self.out, output_probability_set=self.ps, emulated_input_sample_set=self.emu)

    def make(self, X, dom=None, cls='sample_set', layout=None, **arrays):
        s = getattr(self.S, cls)(X.shape[1])
        if dom is not None:
            s.set_domain(np.array(dom))
        arrays = dict(arrays, values=X)
        layout = layout or self.p['layout']
        n, r = self.R.size, self.R.rank
        for k, v in arrays.items():
            setattr(s, '_' + k, np.array(v))
        if layout == 'both':
            s.global_to_local()
        return s

    def rnd(self, k, d):
        return self.D.rs.rand(k, d) + 0.1

    def sets(self):
        return {'input': self.inp, 'output': self.out, 'emulated': self.emu, 'distribution': self.ps}

    def snap(self):
        o = {}
        for name, s in self.sets().items():
            for a in s.array_names:
                for l in ('', '_local'):
                    v = getattr(s, a + l)
                    o[name + a + l] = None if v is None else np.array(v)
            for a in ('_domain', '_reference_value', '_bounding_box'):
                v = getattr(s, a)
                o[name + a] = None if v is None else np.array(v)
            o[name + '_dim'] = s.get_dim()
            o[name + '_p_norm'] = s.get_p_norm()
        d = self.disc
        o['same'] = [d.get_input_sample_set() is self.inp, d.get_output_sample_set() is self.out, d.get_emulated_input_sample_set() is self.emu,
                     d.get_output_probability_set() is self.ps, d.get_emulated_output_sample_set() is None, d.get_output_observed_set() is None]
        return o


# ---------------------------------------------------------------- sample sets
@bad
def values_dim(F, g):
    F.inp.set_values(F.rnd(g.choice([k for k in (1, 2, 4, 5) if k != F.dim]), F.dim + 1))   # (dim, k) would be read as transposed


@bad
def values_local_dim(F, g):
    F.inp.set_values_local(F.rnd(g.choice([k for k in (1, 2, 4, 5) if k != F.dim]), F.dim + g.choice([1, 2])))


@bad
def domain_dim(F, g):
    F.inp.set_domain(build.domain(F.D.rs, F.dim + g.choice([1, 2])))


@bad
def domain_columns(F, g):
    F.inp.set_domain(F.rnd(F.dim, g.choice([1, 3])))


@bad
def reference_dim(F, g):
    F.inp.set_reference_value(g.choice([F.rnd(1, F.dim + 1)[0], F.rnd(1, F.dim), F.rnd(F.dim, 1)]))


@bad
def array_length(F, g):
    """An array whose length differs from the values is found whichever array it is."""
    s = F.inp.copy()
    s.global_to_local()
    s.local_to_global()
    k = len(F.D.X) + g.choice([-1, 1, 2])
    a = g.choice(['_volumes', '_probabilities', '_densities', '_jacobians', '_error_estimates', '_region', '_right', '_left', '_width', '_radii', '_normalized_radii', '_error_id'])
    setattr(s, a, build.field(F.D.rs, a, k, F.dim, 2))
    how = g.choice(['check', 'clip', 'surrogate', 'check'])
    if how == 'check':
        s.check_num()
    elif how == 'clip':
        s.clip(1)
    else:
        F.R.mod('bet.surrogates').piecewise_polynomial_surrogate(F.disc).generate_for_input_set(s)


@bad
def array_length_local(F, g):
    s = F.inp.copy()
    s.global_to_local()
    k = len(s.get_values_local()) + g.choice([1, 2])
    a = g.choice(['_volumes', '_probabilities', '_densities', '_jacobians', '_error_estimates', '_region'])
    setattr(s, a + '_local', build.field(F.D.rs, a, k, F.dim, 2))
    s.check_num_local()


@bad
def rect_lengths(F, g):
    s = F.S.rectangle_sample_set(F.dim)
    m = F.rnd(3, F.dim)
    if g.random() < 0.5:
        s.setup(m + 1, m[:2])
    elif g.random() < 0.5:
        s.setup(F.rnd(3, F.dim + 1) + 1, m)
    else:
        s.setup([*(m + 1)], [m[0], m[1], F.rnd(1, F.dim + 1)[0]])


@bad
def ball_lengths(F, g):
    s = F.S.ball_sample_set(F.dim)
    if g.random() < 0.5:
        s.setup(F.rnd(3, F.dim), [0.1] * g.choice([2, 4]))
    else:
        s.setup([F.rnd(1, F.dim)[0], F.rnd(1, F.dim + 1)[0]], [0.1, 0.1])


@bad
def grid_dim(F, g):
    F.S.cartesian_sample_set(F.dim).setup([np.linspace(0, 1, 3)] * (F.dim + g.choice([1, -1]) if F.dim > 1 else F.dim + 1))


@bad
def exact_dim(F, g):
    s = F.make(F.rnd(4, 3), np.array([[0., 2.]] * 3))
    if g.random() < 0.5:
        s.exact_volume_1D()
    else:
        s.exact_volume_2D()


@bad
def exact_dim_other(F, g):
    if F.dim == 1:
        F.inp.exact_volume_2D()
    else:
        F.inp.exact_volume_1D()


@bad
def merge_dim(F, g):
    F.inp.merge(F.make(F.rnd(3, F.dim + 1)))


@bad
def merge_domain(F, g):
    d = np.array(F.D.dom)
    i, j = g.randrange(F.dim), g.randrange(2)
    d[i, j] += g.choice([0.5, -0.25, 0.05, -0.03]) * (d[i, 1] - d[i, 0])
    F.inp.merge(F.make(F.rnd(3, F.dim), d))


@bad
def pdf_dim(F, g):
    s = F.make(F.D.X, F.D.dom, probabilities=F.D.P, volumes=F.D.V)
    s.set_prob_type('voronoi')
    s.pdf(F.rnd(4, F.dim + 1))


@bad
def pdf_init_dim(F, g):
    F.inp.pdf_init(F.rnd(4, F.dim + 1))


@bad
def pdf_without_probabilities(F, g):
    s = F.make(F.D.X, F.D.dom)
    s.set_prob_type('voronoi')
    if g.random() < 0.5:
        s.pdf(F.rnd(4, F.dim))
    else:
        s.marginal_pdf(F.rnd(4, 1)[:, 0], 0)


@bad
def pdf_init_voronoi(F, g):
    s = F.make(F.D.X, F.D.dom, probabilities=F.D.P, volumes=F.D.V)
    s.set_prob_type_init('voronoi')
    if g.random() < 0.5:
        s.pdf_init(F.rnd(4, F.dim))
    else:
        s.marginal_pdf_init(F.rnd(4, 1)[:, 0], 0)


@bad
def pdf_type(F, g):
    s = F.make(F.D.X, F.D.dom)
    s.set_prob_type('banana')
    if g.random() < 0.5:
        s.pdf(F.rnd(4, F.dim))
    else:
        s.marginal_pdf(F.rnd(4, 1)[:, 0], 0)


@bad
def query_dim(F, g):
    g.choice([F.inp, F.make(F.D.X)]).query(F.rnd(3, F.dim + 1))


@bad
def compare_types(F, g):
    F.inp == g.choice([F.disc, 3, 'set', None])


# ---------------------------------------------------------------- discretizations
@bad
def numbers_differ(F, g):
    d = F.S.discretization(F.make(F.D.X, F.D.dom), F.make(F.rnd(len(F.D.X) + g.choice([1, -1]), F.odim)))
    d.check_nums()


@bad
def set_type(F, g):
    f = g.choice(['set_input_sample_set', 'set_output_sample_set', 'set_output_observed_set', 'set_output_probability_set', 'set_emulated_output_sample_set', 'set_emulated_input_sample_set'])
    getattr(F.disc, f)(g.choice([np.array(F.D.X), None, 'samples', F.disc]))


@bad
def distribution_dim(F, g):
    F.disc.set_output_probability_set(F.make(F.rnd(3, F.odim + 1), probabilities=np.full(3, 1 / 3.)))


@bad
def emulated_output_dim(F, g):
    F.disc.set_emulated_output_sample_set(F.make(F.rnd(3, F.odim + 1)))


@bad
def emulated_input_dim(F, g):
    F.disc.set_emulated_input_sample_set(F.make(F.rnd(3, F.dim + 1)))


@bad
def no_emulated(F, g):
    d = F.S.discretization(F.make(F.D.X, F.D.dom), F.make(F.D.Y))
    if g.random() < 0.5:
        d.estimate_input_volume_emulated()
    else:
        d.estimate_output_volume_emulated()


@bad
def disc_compare(F, g):
    F.disc == g.choice([F.inp, 3, None])


# ---------------------------------------------------------------- probabilities
@bad
def transfer_dim(F, g):
    cp = F.R.mod('bet.calculateP.calculateP')
    old = F.make(F.D.X, F.D.dom, probabilities=F.D.P)
    new = F.make(F.rnd(4, F.dim + 1))
    k = g.randrange(4)
    if k == 0:
        cp.prob_from_sample_set(old, new)
    elif k == 1:
        cp.prob_from_sample_set_with_emulated_volumes(old, new, F.emu)
    elif k == 2:
        cp.prob_from_sample_set_with_emulated_volumes(old, F.make(F.rnd(4, F.dim)), F.make(F.rnd(6, F.dim + 1)))
    else:
        d = F.S.discretization(old, F.make(F.D.Y))
        cp.prob_from_discretization_input(d, new)


@bad
def transfer_without_probabilities(F, g):
    F.R.mod('bet.calculateP.calculateP').prob_from_discretization_input(F.disc, F.make(F.rnd(4, F.dim)))


@bad
def simple_type(F, g):
    sf = F.R.mod('bet.calculateP.simpleFunP')
    x = g.choice(['data', None, 3.0, [1, 2]])
    k = g.randrange(7)
    if k == 0:
        sf.uniform_partition_uniform_distribution_rectangle_size(x, Q_ref=F.D.q, rect_size=0.2, M=3, num_d_emulate=10)
    elif k == 1:
        sf.regular_partition_uniform_distribution_rectangle_size(x, Q_ref=F.D.q, rect_size=0.2)
    elif k == 2:
        sf.uniform_partition_uniform_distribution_data_samples(x)
    elif k == 3:
        sf.user_partition_user_distribution(x, np.array(F.D.Y), np.array(F.D.Y))
    elif k == 4:
        sf.user_partition_user_distribution(F.out, x, np.array(F.D.Y))
    elif k == 5:
        sf.user_partition_user_distribution(F.out, np.array(F.D.Y), x)
    else:
        sf.uniform_partition_uniform_distribution_rectangle_scaled(x, Q_ref=F.D.q, rect_scale=0.2, M=3, num_d_emulate=10)


@bad
def simple_reference(F, g):
    sf = F.R.mod('bet.calculateP.simpleFunP')
    f, kw = g.choice([('uniform_partition_uniform_distribution_rectangle_size', {'rect_size': 0.2, 'M': 3, 'num_d_emulate': 10}),
                      ('uniform_partition_uniform_distribution_rectangle_scaled', {'rect_scale': 0.2, 'M': 3, 'num_d_emulate': 10}),
                      ('regular_partition_uniform_distribution_rectangle_size', {'rect_size': 0.2}),
                      ('regular_partition_uniform_distribution_rectangle_scaled', {'rect_scale': 0.2})])
    getattr(sf, f)(g.choice([F.disc, F.out, np.array(F.D.Y)]), **kw)


@bad
def simple_size(F, g):
    sf = F.R.mod('bet.calculateP.simpleFunP')
    size = g.choice([None, 0, -0.5, [0.2] * (F.odim - 1) + [0.0], [-0.1] * F.odim])
    x = g.choice([F.disc, F.out])
    if g.random() < 0.5:
        sf.uniform_partition_uniform_distribution_rectangle_size(x, Q_ref=F.D.q, rect_size=size, M=3, num_d_emulate=10)
    else:
        sf.regular_partition_uniform_distribution_rectangle_size(x, Q_ref=F.D.q, rect_size=size)


@bad
def simple_list_length(F, g):
    sf = F.R.mod('bet.calculateP.simpleFunP')
    x = g.choice([F.disc, F.out])
    sf.regular_partition_uniform_distribution_rectangle_scaled(x, Q_ref=F.D.q, rect_scale=[0.2] * (F.odim + 1))


@bad
def simple_dims(F, g):
    sf = F.R.mod('bet.calculateP.simpleFunP')
    ok, no = np.array(F.D.Y), F.rnd(6, F.odim + 1)
    if g.random() < 0.5:
        no = F.make(no)
    a = [ok, no] if g.random() < 0.5 else [no, ok]
    sf.user_partition_user_distribution(g.choice([F.disc, F.out]), *a)


# ---------------------------------------------------------------- errors and surrogates
def region_set(F, region=True):
    s = F.make(F.rnd(4, F.dim), F.D.dom)
    if region:
        s.set_region(np.array([0, 0, 1, 1]))
    return s


def with_prob(F, **out):
    d = F.S.discretization(F.make(F.D.X, F.D.dom, volumes=F.D.V), F.make(F.D.Y, **out), output_probability_set=F.ps)
    F.R.mod('bet.calculateP.calculateP').prob(d)
    return d


@bad
def error_region(F, g):
    ce = F.R.mod('bet.calculateP.calculateError')
    if F.dim == 1 or len(F.D.X) > F.dim + 2:
        if g.random() < 0.5:
            ce.sampling_error(with_prob(F)).calculate_for_sample_set_region(region_set(F, False) if g.random() < 0.5 else region_set(F), 7)
            return
    m = ce.model_error(with_prob(F, error_estimates=F.rnd(len(F.D.X), F.odim)))
    s = region_set(F, False) if g.random() < 0.5 else region_set(F)
    if g.random() < 0.5:
        m.calculate_for_sample_set_region(s, 7)
    else:
        m.calculate_for_sample_set_region_mc(s, 7)


@bad
def error_estimates_missing(F, g):
    F.R.mod('bet.calculateP.calculateError').model_error(F.disc)


@bad
def error_types(F, g):
    ce = F.R.mod('bet.calculateP.calculateError')
    x = g.choice([F.inp, None, np.array(F.D.X)])
    k = g.randrange(4)
    if k == 0:
        ce.cell_connectivity_exact(x)
    elif k == 1:
        ce.boundary_sets(x, [])
    elif k == 2:
        ce.sampling_error(x)
    else:
        ce.model_error(x)


@bad
def error_norm(F, g):
    ce = F.R.mod('bet.calculateP.calculateError')
    s = F.make(F.D.X, F.D.dom, volumes=F.D.V)
    s.set_p_norm(g.choice([1.0, np.inf]))
    if g.random() < 0.3:
        s = F.make(F.D.X, F.D.dom, cls='rectangle_sample_set', volumes=F.D.V)
    d = F.S.discretization(s, F.make(F.D.Y), output_probability_set=F.ps)
    if g.random() < 0.5:
        ce.cell_connectivity_exact(d)
    else:
        ce.boundary_sets(d, {i: [0] for i in range(len(F.D.X))})


@bad
def error_inexact(F, g):
    F.R.mod('bet.calculateP.calculateError').sampling_error(with_prob(F), exact=False)


@bad
def surrogate_type(F, g):
    F.R.mod('bet.surrogates').piecewise_polynomial_surrogate(g.choice([F.inp, None, np.array(F.D.X)]))


@bad
def surrogate_order(F, g):
    F.R.mod('bet.surrogates').piecewise_polynomial_surrogate(F.disc).generate_for_input_set(F.make(F.rnd(5, F.dim)), order=g.choice([2, -1, 3, 0.5]))


@bad
def surrogate_dim(F, g):
    F.R.mod('bet.surrogates').piecewise_polynomial_surrogate(F.disc).generate_for_input_set(F.make(F.rnd(5, F.dim + 1)), order=0)


@bad
def surrogate_jacobians(F, g):
    F.R.mod('bet.surrogates').piecewise_polynomial_surrogate(F.disc).generate_for_input_set(F.make(F.rnd(5, F.dim)), order=1)


@bad
def surrogate_missing(F, g):
    s = F.R.mod('bet.surrogates').piecewise_polynomial_surrogate(F.disc)
    if g.random() < 0.5:
        s.generate_for_input_set(F.make(F.rnd(5, F.dim), F.D.dom), order=0)
        s.calculate_prob_for_sample_set_region(g.choice([F.disc, None, np.array(F.D.X)]), [0])
    else:
        s.calculate_prob_for_sample_set_region(region_set(F), [0])


# ---------------------------------------------------------------- sampling
@bad
def sampling_type(F, g):
    bs = F.R.mod('bet.sampling.basicSampling')
    k = g.randrange(4)
    if k == 0:
        bs.random_sample_set('uniform', g.choice(['x', None, 2.5]), 4)
    elif k == 1:
        bs.regular_sample_set(g.choice(['x', None, 2.5]), 2)
    elif k == 2:
        bs.random_sample_set(g.choice([7, None, {'uniform': 1}]), F.inp, 4)
    else:
        bs.lhs_sample_set(g.choice(['x', None, 2.5]), 4, 'center')


@bad
def sampling_rv_length(F, g):
    F.R.mod('bet.sampling.basicSampling').random_sample_set([['uniform', {}]] * (F.dim + g.choice([1, 2, -1])), F.inp, 4)


@bad
def sampling_rv_name(F, g):
    F.R.mod('bet.sampling.basicSampling').random_sample_set(g.choice(['banana', ['banana', {}], [['banana', {}]] * F.dim]), F.inp, 4)


@bad
def resample_type(F, g):
    F.R.mod('bet.sampling.basicSampling').sample_from_updated(g.choice([None, np.array(F.D.X), 'x']), 4)


@bad
def resample_measure(F, g):
    s = F.make(F.D.X, F.D.dom, probabilities=F.D.P)
    s.set_prob_type(g.choice(['voronoi', None, 'banana']))
    F.R.mod('bet.sampling.basicSampling').sample_from_updated(s, 4)


@bad
def model_type(F, g):
    r = g.choice(['text', None, 3.0, [1.0, 2.0]])
    F.R.mod('bet.sampling.basicSampling').sampler(lambda x: r).compute_qoi_and_create_discretization(F.make(F.D.X, F.D.dom))


# ---------------------------------------------------------------- densities
def density_disc(F):
    obs = F.make(F.rnd(6, F.odim))
    d = F.S.discretization(F.make(F.D.X, F.D.dom), F.make(F.D.Y), output_observed_set=obs)
    return d


@bad
def fit_rv(F, g):
    F.R.mod('bet.calculateP.calculateR').invert_to_random_variable(density_disc(F), rv=g.choice([[['norm', {}]] * (F.dim + 2), 3, None]))


# ---------------------------------------------------------------- comparison, post-processing
@bad
def compare_inputs(F, g):
    cm = F.R.mod('bet.postProcess.compareP')
    if g.random() < 0.5:
        cm.compare(F.inp, F.make(F.rnd(4, F.dim + 1)))
    else:
        cm.compare(F.inp, g.choice([None, 3, np.array(F.D.X)]))


@bad
def compare_points(F, g):
    cm = F.R.mod('bet.postProcess.compareP')
    k = g.randrange(4)
    s = F.make(F.D.X, F.D.dom, probabilities=F.D.P, volumes=F.D.V)
    s.set_prob_type('voronoi')
    c = cm.compare(s, s)
    if k == 0:
        c.set_compare_set(F.rnd(3, F.dim + 1))
    elif k == 1:
        c.set_compare_set(F.make(F.rnd(3, F.dim + 1)))
    elif k == 2:
        c.set_compare_set(g.choice(['x', None, 2.5]))
    else:
        c.distance('tv')


@bad
def post_type(F, g):
    x = g.choice([None, 'x', np.array(F.D.X)])
    pt, pp = F.R.mod('bet.postProcess.postTools'), F.R.mod('bet.postProcess.plotP')
    k = g.randrange(5)
    if k == 0:
        pt.sort_by_rho(x)
    elif k == 1:
        pt.sample_prob(0.5, x)
    elif k == 2:
        pt.sample_highest_prob(0.5, x)
    elif k == 3:
        pp.calculate_1D_marginal_probs(x)
    else:
        pp.calculate_2D_marginal_probs(x)


@bad
def post_missing(F, g):
    pp = F.R.mod('bet.postProcess.plotP')
    k = g.randrange(3)
    if k == 0:
        pp.calculate_1D_marginal_probs(F.inp)
    elif k == 1:
        pp.calculate_2D_marginal_probs(F.make(F.rnd(4, 2), np.array([[0., 2.]] * 2)))
    else:
        s = F.make(F.rnd(4, 1), np.array([[0., 2.]]), probabilities=np.full(4, 0.25))
        pp.calculate_2D_marginal_probs(s)


# ---------------------------------------------------------------- sensitivity
@bad
def gradients_values(F, g):
    gr = F.R.mod('bet.sensitivity.gradients')
    s = F.S.sample_set(F.dim)
    k = g.randrange(5)
    if k == 0:
        gr.sample_lp_ball(s, 3, 0.1)
    elif k == 1:
        gr.pick_ffd_points(s, 0.1)
    elif k == 2:
        gr.pick_cfd_points(s, 0.1)
    else:
        d = F.S.discretization(s, F.S.sample_set(F.odim))
        (gr.calculate_gradients_ffd if k == 3 else gr.calculate_gradients_cfd)(d)


@bad
def gradients_kernel(F, g):
    gr = F.R.mod('bet.sensitivity.gradients')
    r = F.rnd(3, 1)[:, 0]
    if g.random() < 0.5:
        gr.radial_basis_function(r, kernel='banana', ep=1.0)
    else:
        gr.radial_basis_function_dxi(r, r, kernel='banana', ep=1.0)


@bad
def qois_jacobians(F, g):
    cq = F.R.mod('bet.sensitivity.chooseQoIs')
    f = g.choice(['calculate_avg_measure', 'calculate_avg_skewness', 'calculate_avg_condnum', 'chooseOptQoIs', 'chooseOptQoIs_verbose', 'chooseOptQoIs_large', 'chooseOptQoIs_large_verbose', 'find_unique_vecs'])
    s = F.inp
    if f == 'find_unique_vecs':
        cq.find_unique_vecs(s, 0.1)
    else:
        getattr(cq, f)(s)


@bad
def qois_too_many(F, g):
    cq = F.R.mod('bet.sensitivity.chooseQoIs')
    s = F.make(F.D.X, F.D.dom, jacobians=F.D.rs.rand(len(F.D.X), F.dim + 2, F.dim))
    f = g.choice(['calculate_avg_measure', 'calculate_avg_skewness', 'calculate_avg_condnum'])
    getattr(cq, f)(s, qoi_set=list(range(F.dim + 1)) if g.random() < 0.5 else None)


# ---------------------------------------------------------------- files
@bad
def load_missing(F, g):
    u = F.R.mod('bet.util')
    if g.random() < 0.5:
        u.load_object('no_such_object')
    else:
        u.load_object_parallel('no_such_object')


# ---------------------------------------------------------------- plots
@bad
def plot_types(F, g):
    pd, pv, pp = (F.R.mod('bet.postProcess.' + m) for m in ('plotDomains', 'plotVoronoi', 'plotP'))
    x = g.choice([None, 'x', np.array(F.D.X)])
    m = [{0: 1.0}, {0: np.array([0., 1.])}], [{(0, 1): np.ones((1, 1))}, {0: np.array([0., 1.]), 1: np.array([0., 1.])}]
    g.choice([lambda: pd.scatter_2D(x), lambda: pd.scatter_3D(x), lambda: pd.scatter_rhoD(x), lambda: pd.show_data_domain_multi(x), lambda: pd.show_data_domain_2D(x), lambda: pd.scatter_2D_multi(x),
              lambda: pd.scatter_rhoD(x, ref_sample=F.D.q), lambda: pd.scatter_2D_input(x), lambda: pd.scatter_2D_output(x), lambda: pd.scatter_3D_input(x), lambda: pd.scatter_3D_output(x),
              lambda: pd.scatter_2D_multi_input(x), lambda: pd.scatter_2D_multi_output(x), lambda: pv.plot_1D_voronoi(x), lambda: pv.plot_2D_voronoi(x), lambda: pp.plot_1d_marginal_densities([x], 0),
              lambda: pp.plot_1D_marginal_probs(*m[0], x), lambda: pp.plot_2D_marginal_probs(*m[1], x), lambda: pp.plot_2D_marginal_contours(*m[1], x)])()


@bad
def plot_dims(F, g):
    pd, pv = (F.R.mod('bet.postProcess.' + m) for m in ('plotDomains', 'plotVoronoi'))
    k = g.randrange(4)
    s = F.make(F.rnd(5, 4), np.array([[0., 2.]] * 4), probabilities=np.full(5, 0.2))
    [lambda: pd.scatter_2D(s, sample_nos=None), lambda: pd.scatter_3D(s), lambda: pv.plot_1D_voronoi(s), lambda: pv.plot_2D_voronoi(s)][k]()


@bad
def plot_missing(F, g):
    pv = F.R.mod('bet.postProcess.plotVoronoi')
    if g.random() < 0.5:
        pv.plot_1D_voronoi(F.make(F.rnd(5, 1), np.array([[0., 2.]])), density=True)
    else:
        pv.plot_2D_voronoi(F.make(F.rnd(5, 2), np.array([[0., 2.]] * 2)), density=True)


class Data:
    def __init__(self, rs, p):
        dim, odim, num = p['dim'], p['odim'], p['num']
        self.rs = rs
        self.dom = build.domain(rs, dim)
        self.X = self.dom[:, 0] + (self.dom[:, 1] - self.dom[:, 0]) * rs.rand(num, dim)
        self.Y = rs.rand(num, odim) * 3
        self.V = rs.rand(num) + 0.05
        self.V /= self.V.sum()
        self.P = rs.rand(num) + 0.05
        self.P /= self.P.sum()
        self.E = self.dom[:, 0] + (self.dom[:, 1] - self.dom[:, 0]) * rs.rand(p['enum'], dim)
        self.Z = rs.rand(p['cells'], odim) * 3
        self.PZ = rs.rand(p['cells']) + 0.1
        self.PZ /= self.PZ.sum()
        self.q = rs.rand(odim) + 1


@register
class Refusal(Scenario):
    prop = 'P24'
    name = 'refused'
    mins = {'n': 1, 'num': 3, 'enum': 1, 'dim': 1, 'odim': 1, 'cells': 1}

    def gen(self, rng, tier):
        reqs = [[rng.choice(sorted(BAD)), rng.randrange(10 ** 6)] for _ in range(rng.randint(1, 5))]
        return {'n': pick_n(rng, tier), 'num': rng.choice([3, 6, 7, 12]), 'enum': rng.choice([1, 8, 20]), 'dim': rng.randint(1, 3), 'odim': rng.randint(1, 2), 'cells': rng.randint(1, 4),
                'layout': rng.choice(['global', 'both']), 'reqs': reqs, 'after': rng.choice(['prob', 'emup', 'query', 'merge', 'save']), 'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        import random
        n = p['n']
        fs = env.new_fs()

        def program(R):
            F = Fix(R, Data(env.data(p['data_seed']), p), p)
            log = [(None, F.snap())]
            for name, seed in p['reqs']:
                F.D.rs = np.random.RandomState(seed)
                try:
                    BAD[name](F, random.Random(seed))
                except (CommError, Violation):
                    raise
                except Exception as e:
                    tb = e.__traceback__
                    while tb.tb_next is not None:
                        tb = tb.tb_next
                    if tb.tb_frame.f_code.co_filename == __file__:
                        raise      # a mistake of this file, not a refusal
                    err = type(e).__name__
                else:
                    err = None
                log.append((err, F.snap()))
            cp = R.mod('bet.calculateP.calculateP')
            a = p['after']
            if a == 'prob':
                cp.prob(F.disc)
                res = np.array(F.inp.get_probabilities())
            elif a == 'emup':
                cp.prob_on_emulated_samples(F.disc)
                res = np.array(F.emu.get_probabilities())
            elif a == 'query':
                res = np.array(F.inp.query(np.array(F.D.E))[1]).ravel()
            elif a == 'merge':
                res = np.array(F.inp.merge(F.emu).get_values())
            else:
                F.disc.save('d')
                res = np.array(R.mod('bet.util').load_object('d').get_input_sample_set().get_values())
            return log, res
        vals = env.job(n, program, fs=fs).require_clean('refused requests')
        D = Data(env.data(p['data_seed']), p)
        for k, (name, seed) in enumerate(p['reqs']):
            for r in range(n):
                err, snap = vals[r][0][k + 1]
                what = '%s (request %d), rank %d of %d' % (name, k, r, n)
                env.check(err is not None, 'not-refused', what)
                before = vals[r][0][0][1]
                for f, v in before.items():
                    if isinstance(v, list) or not isinstance(v, (np.ndarray, type(None))):
                        env.check(snap[f] == v, 'refused-request-changed-something', '%s: %s' % (what, f))
                    elif v is not None:
                        env.equal(snap[f], v, 'refused-request-changed-something', '%s: %s' % (what, f))
                    elif snap[f] is not None:
                        # the other layout of data that were there
                        whole = before.get(f[:-6]) if f.endswith('_local') else None
                        if f.endswith('_bounding_box'):
                            continue
                        if f.endswith('_kdtree_values') or f.endswith('_kdtree_values_local'):
                            continue
                        env.check(whole is not None, 'refused-request-changed-something', '%s: %s appeared' % (what, f))
                        env.equal(snap[f], split(whole, n, r), 'refused-request-changed-something', '%s: %s' % (what, f))
            env.hit('refused:' + name)
            env.check(len({vals[r][0][k + 1][0] for r in range(n)}) == 1, 'refused-differently', '%s: %s' % (name, [vals[r][0][k + 1][0] for r in range(n)]))
        a = p['after']
        if a == 'prob':
            want = ref.inverse_prob(ref.nearest(D.Z, D.Y), D.V, D.PZ)
        elif a == 'emup':
            want = ref.emulated_prob(ref.nearest(D.Z, D.Y)[ref.nearest(D.X, D.E)], D.PZ)
        elif a == 'query':
            want = ref.nearest(D.X, D.E)
        elif a == 'merge':
            want = None
        else:
            want = D.X
        for r in range(n):
            res = vals[r][1]
            if a == 'merge':
                w = np.vstack([D.X, D.E])
                env.equal(np.sort(res.view([('', res.dtype)] * res.shape[1]).ravel()), np.sort(np.ascontiguousarray(w).view([('', w.dtype)] * w.shape[1]).ravel()), 'wrong-after-refusal', '%s rank %d' % (a, r))
            else:
                env.close(res, want, 'wrong-after-refusal', '%s rank %d of %d after %s' % (a, r, n, [x for x, _ in p['reqs']]))
