"""P23: a plot shows the data it was made for, once each, in one complete file per plot."""
import itertools
import re
import os
import pickle
import sys

import numpy as np

from .. import ref
from ..env import Scenario, pick_n, register
from .p05_inverse import ranges
from .p14_post import put

MARK = b'\n%%END-OF-FIGURE'


# --------------------------------------------------------------------------- what a figure shows
def _f(a):
    a = np.ma.filled(np.ma.asarray(a, float), np.nan)
    return np.array(a)


def capture(fig):
    """The data a figure shows, read from its artists (not from the calls that made them)."""
    import matplotlib.collections as mc
    import matplotlib.contour as mcontour
    out = {'lines': [], 'points': [], 'segments': [], 'images': [], 'polygons': [], 'contours': [], 'surfaces': [], 'axes': 0, 'labels': [], 'names': [], 'limits': []}
    for ax in fig.axes:
        if ax.get_label() == '<colorbar>':
            continue
        out['axes'] += 1
        out['labels'].append((ax.get_xlabel(), ax.get_ylabel(), ax.get_title()))
        out['limits'].append([float(v) for v in ax.get_xlim() + ax.get_ylim()])
        for l in ax.lines:
            x, y = l.get_data(orig=True)
            out['lines'].append((np.atleast_1d(_f(x)), np.atleast_1d(_f(y))))
            out['names'].append(str(l.get_label()))
        for im in ax.images:
            out['images'].append((_f(im.get_array()), [float(v) for v in im.get_extent()], im.origin))
        for p in ax.patches:
            out['polygons'].append((_f(p.get_xy()), tuple(p.get_facecolor())))
        for c in ax.collections:
            if isinstance(c, mcontour.ContourSet):
                out['contours'].append((_f(c.levels), [[_f(s) for s in lev] for lev in c.allsegs]))
            elif hasattr(c, '_offsets3d'):
                a = c.get_array()
                out['points'].append((np.column_stack([_f(v) for v in c._offsets3d]), None if a is None else _f(a)))
            elif isinstance(c, mc.PathCollection):
                a = c.get_array()
                out['points'].append((_f(c.get_offsets()), None if a is None else _f(a)))
            elif isinstance(c, mc.LineCollection):
                out['segments'] += [_f(s) for s in c.get_segments()]
            elif hasattr(c, '_vec'):
                out['surfaces'].append(np.array(c._vec, float))
    return out


class Recorder:
    """Figure.savefig of a simulated rank writes what the figure shows, through the simulated disk, without rasterizing it."""

    def __init__(self, draw):
        self.draw = draw       # also draw the figure for real

    def __enter__(self):
        import io

        import matplotlib
        import matplotlib.backend_bases as mb
        import matplotlib.contour as mct
        import matplotlib.figure as mf
        self.rc = matplotlib.rc_context()
        self.rc.__enter__()
        self.mf, self.mb, self.save, self.tight, self.idle = mf, mb, mf.Figure.savefig, mf.Figure.tight_layout, mb.FigureCanvasBase.draw_idle

        def savefig(fig, fname, *a, **kw):
            data = pickle.dumps(capture(fig)) + MARK
            if self.draw:
                self.save(fig, io.BytesIO(), dpi=30)
            with open(fname, 'wb') as fh:
                for k in range(0, len(data), 700):
                    fh.write(data[k:k + 700])
        mf.Figure.savefig = savefig
        mf.Figure.tight_layout = lambda fig, *a, **kw: None
        self.mct, self.clabel = mct, mct.ContourLabeler.clabel
        mct.ContourLabeler.clabel = lambda *a, **kw: []        # inline labels cut the lines
        mb.FigureCanvasBase.draw_idle = lambda canvas, *a, **kw: None
        return self

    def __exit__(self, *a):
        self.mf.Figure.savefig, self.mf.Figure.tight_layout, self.mb.FigureCanvasBase.draw_idle = self.save, self.tight, self.idle
        self.mct.ContourLabeler.clabel = self.clabel
        self.rc.__exit__(*a)
        if 'matplotlib.pyplot' in sys.modules:
            sys.modules['matplotlib.pyplot'].close('all')


def same_points(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True)


COLORS = ['volumes', 'probabilities', 'radii', 'normalized radii', 'error_id']
FIELD = {'volumes': '_volumes', 'probabilities': '_probabilities', 'radii': '_radii', 'normalized radii': '_normalized_radii', 'error_id': '_error_id'}


class Case:
    """One plotting call: program(R) makes it, verify(env, figures by name) judges what the files hold."""

    def __init__(self, rs, g, n, k):
        self.rs, self.n, self.k = rs, n, k
        self.how = g.choice(['global', 'block'])
        self.files = {}
        self.prepare(rs, g)

    def name(self, s):
        return 'c%d_%s' % (self.k, s)

    def fresh(self, s):
        """A string equal to s that is not the same object (as read from a file or a command line)."""
        return ''.join(list(s))


def axes_named(env, fig, dims, what):
    """Where several coordinates are plotted in turn, the axes carry the numbers of those drawn."""
    for label, d in zip(fig['labels'][0], dims[:2]):
        got = re.findall(r'\d+', label)
        env.check(len(got) > 0 and int(got[-1]) == d + 1, 'wrong-axis-labels', '%s: %r for coordinates %r' % (what, fig['labels'][0], dims))


class Scatter(Case):
    def prepare(self, rs, g):
        self.via = g.choice(['set', 'input', 'output', 'multi', 'multi_input', 'multi_output', 'rho_set', 'rho_in', 'rho_out'])
        self.d3 = g.random() < 0.4 and 'multi' not in self.via
        self.showdim = None
        if 'multi' in self.via:
            self.dim = g.randint(2, 4)
            self.showdim = g.choice([None, 0, 1, 'all'])
        elif 'rho' in self.via:
            self.dim = g.randint(2, 5)
            self.showdim = 2 if self.dim > 2 and (g.random() < 0.5) else 3 if self.dim > 3 else g.choice([None, 3]) if self.dim == 3 else None
        else:
            self.dim = 3 if self.d3 else 2
        self.num = g.choice([1, 2, 5, 12])
        self.arr = {'_values': rs.rand(self.num, self.dim) * 3 - 1}
        for f in FIELD.values():
            self.arr[f] = rs.rand(self.num)
        self.other = rs.rand(self.num, self.dim)       # the other space of a discretization
        c = g.choice(['none', 'array', 'name'])
        disc = self.via in ('input', 'output', 'multi_input', 'multi_output')
        self.cname = g.choice(COLORS) if c == 'name' and disc else None
        self.carr = rs.rand(self.num) if c == 'array' or (c == 'name' and not disc) else None
        if 'rho' in self.via:
            self.cname, self.carr = None, None
            self.rho = c != 'none' and (self.via != 'rho_set')
        self.nos = sorted(int(i) for i in rs.choice(self.num, max(1, self.num // 2), replace=False)) if g.random() < 0.4 and 'multi' not in self.via else None
        self.ref = rs.rand(self.dim)
        self.refhow = g.choice(['none', 'given', 'own'])
        self.ext = g.choice(['.png', '.png', '.pdf'])
        self.save = g.random() < 0.9 or 'multi' in self.via
        self.folder = self.name('figs/')
        X = self.arr['_values']
        col = np.ones(self.num)
        if self.cname:
            col = self.arr[FIELD[self.cname]]
        elif self.carr is not None:
            col = self.carr
        elif 'rho' in self.via and self.rho:
            col = X.sum(1) ** 2 if self.via == 'rho_out' else self.other.sum(1) ** 2
        nos = np.arange(self.num) if self.nos is None else np.array(self.nos)
        ref = self.ref if self.refhow != 'none' else None

        def show(dims, r=ref):
            return (X[nos][:, dims], col[nos], None if r is None else r[dims], dims)
        if not self.save:
            self.files = {}
        elif 'multi' in self.via:
            stem = {'multi': 'scatter2Dm', 'multi_input': 'scatter2Dm_input', 'multi_output': 'scatter2Dm_output'}[self.via]
            r = self.ref if self.refhow == 'given' else None        # the projections only mark a given reference
            sd = self.showdim or 0
            pairs = list(itertools.combinations(range(self.dim), 2)) if sd == 'all' else [(sd, i) for i in range(self.dim)]
            self.files = {'%s%s_d%d_d%d%s' % (self.folder, stem, a + 1, b + 1, self.ext): show([a, b], r) for a, b in pairs}
        elif 'rho' in self.via:
            pre = 'output_' if self.via == 'rho_out' else 'input_'
            if self.dim == 2 or (self.dim == 3 and self.showdim != 2):
                self.files = {pre + 'samples_cs' + self.ext: show(list(range(self.dim)))}
            else:
                self.files = {pre + 'samples_' + 'x'.join([''] + [str(i + 1) for i in c]) + '_cs' + self.ext: show(list(c))
                              for c in itertools.combinations(range(self.dim), self.showdim)}
        else:
            self.files = {self.name('sc') + self.ext: show(list(range(self.dim)))}

    def call(self, R):
        sample, pd = R.mod('bet.sample'), R.mod('bet.postProcess.plotDomains')
        s = sample.sample_set(self.dim)
        rr = ranges(np.random.RandomState(0), self.num, self.n, 'block')
        put(s, self.arr, rr[R.rank], self.how)
        if self.refhow == 'own':
            s.set_reference_value(np.array(self.ref))
        t = sample.sample_set(self.dim)
        put(t, {'_values': self.other}, rr[R.rank], self.how)
        before = {f: np.array(v) for f, v in self.arr.items()}
        ref = np.array(self.ref) if self.refhow == 'given' else None
        color = self.fresh(self.cname) if self.cname else None if self.carr is None else np.array(self.carr)
        v = self.via
        out = v in ('output', 'multi_output', 'rho_out')
        obj = s if v in ('set', 'multi', 'rho_set') else sample.discretization(t if out else s, s if out else t)
        if v in ('set', 'input', 'output'):
            f = getattr(pd, 'scatter_%dD' % self.dim + {'set': '', 'input': '_input', 'output': '_output'}[v])
            f(obj, sample_nos=self.nos, color=color, ref_sample=ref, save=self.save, interactive=False, filename=self.name('sc'), file_extension=self.ext)
        elif 'multi' in v:
            f = getattr(pd, 'scatter_2D_multi' + v[5:])
            f(obj, color=color, ref_sample=ref, img_folder=self.folder, showdim=self.showdim, file_extension=self.ext)
        else:
            pd.scatter_rhoD(obj, ref_sample=ref, sample_nos=self.nos, io_flag='output' if v == 'rho_out' else 'input',
                            rho_D=(lambda q: q.sum(1) ** 2) if self.rho else None, showdim=self.showdim, save=self.save, file_extension=self.ext)
        return all(np.array_equal(getattr(s, f), before[f]) for f in before) and np.array_equal(t.get_values(), self.other)

    def verify(self, env, name, fig, what):
        pts, col, ref, dims = self.files[name]
        if 'multi' in self.via or 'rho' in self.via:
            axes_named(env, fig, dims, what)
        groups = list(fig['points'])
        env.check(len(groups) == (1 if ref is None else 2), 'wrong-number-of-scatters', '%s: %d' % (what, len(groups)))
        main = [x for x in groups if x[1] is not None]
        env.check(len(main) == 1, 'no-coloured-samples', what)
        xy, c = main[0]
        env.check(xy.shape == pts.shape, 'wrong-samples-drawn', '%s: %s points, expected %s' % (what, xy.shape, pts.shape))
        a, b = np.column_stack([xy, c]), np.column_stack([pts, col])
        env.close(a[np.lexsort(a.T)], b[np.lexsort(b.T)], 'wrong-samples-drawn', what)
        if ref is not None:
            other = [x for x in groups if x[1] is None]
            env.check(len(other) == 1, 'reference-not-drawn', what)
            env.close(other[0][0], ref.reshape(1, -1), 'wrong-reference-drawn', what)


class Domain(Case):
    def prepare(self, rs, g):
        self.multi = g.random() < 0.6
        self.dim, self.odim = g.randint(2, 3), g.randint(2, 4) if self.multi else 2
        self.num = g.choice([4, 7, 15])
        self.X, self.Y = rs.rand(self.num, self.dim), rs.rand(self.num, self.odim)
        self.Y[:, :2] = self.X[:, :2].dot(rs.randn(2, 2)) + 0.1 * rs.rand(self.num, 2)
        self.nref = g.choice([0, 1, 2])
        self.ref = rs.rand(max(self.nref, 1), self.odim)
        self.own = self.nref == 1 and g.random() < 0.5
        self.showdim = g.choice([None, 0, 1, 'all'])
        self.nums = sorted(g.sample(range(self.odim), 2)) if self.odim > 2 and g.random() < 0.3 else None
        self.ext = g.choice(['.png', '.pdf'])
        self.tri = g.random() < 0.4 and not self.multi
        self.folder = self.name('dom/')
        if not self.multi:
            self.files = {self.name('a') + self.ext: ([0, 1], False), self.name('b') + self.ext: ([0, 1], True)}
            return
        qn = self.nums if self.nums is not None else list(range(self.odim))
        sd = self.showdim or 0
        pairs = list(itertools.combinations(qn, 2)) if sd == 'all' else [(sd, i) for i in qn if i != sd]
        for a, b in pairs:
            self.files['%sdomain_q%d_q%d%s' % (self.folder, a + 1, b + 1, self.ext)] = ([a, b], False)
            self.files['%sq%d_q%d_domain_Q_cs%s' % (self.folder, a + 1, b + 1, self.ext)] = ([a, b], True)

    def call(self, R):
        sample, pd = R.mod('bet.sample'), R.mod('bet.postProcess.plotDomains')
        s, t = sample.sample_set(self.dim), sample.sample_set(self.odim)
        rr = ranges(np.random.RandomState(0), self.num, self.n, 'block')
        put(s, {'_values': self.X}, rr[R.rank], self.how)
        put(t, {'_values': self.Y}, rr[R.rank], self.how)
        if self.own:
            t.set_reference_value(np.array(self.ref[0]))
        d = sample.discretization(s, t)
        q = np.array(self.ref) if self.nref and not self.own else None
        if self.multi:
            pd.show_data_domain_multi(d, Q_ref=q, Q_nums=self.nums, img_folder=self.folder, showdim=self.showdim, file_extension=self.ext)
        else:
            pd.show_data_domain_2D(d, Q_ref=q, filenames=[self.name('a'), self.name('b')], file_extension=self.ext,
                                   triangles=self.triangles() if self.tri else None)
        return np.array_equal(s.get_values(), self.X) and np.array_equal(t.get_values(), self.Y) and d.get_output_sample_set() is t

    def triangles(self):
        import matplotlib.tri as tri
        t = tri.Triangulation(self.X[:, 0], self.X[:, 1]).triangles
        return t[:-1] if self.tri and len(t) > 1 else t

    def verify(self, env, name, fig, what):
        import matplotlib.figure as mf
        dims, marked = self.files[name]
        axes_named(env, fig, dims, what)
        ax = mf.Figure().add_subplot()
        ref = ax.tricontourf(self.Y[:, dims[0]], self.Y[:, dims[1]], self.triangles(), np.zeros(self.num), colors='grey')
        env.check(len(fig['contours']) == 1, 'domain-not-drawn-once', '%s: %d' % (what, len(fig['contours'])))
        got = [s for lev in fig['contours'][0][1] for s in lev]
        want = [s for lev in ref.allsegs for s in lev]
        env.check(len(got) == len(want) and all(same_points(_f(a), _f(b)) for a, b in zip(got, want)), 'wrong-domain-drawn', what)
        refs = self.ref[:self.nref][:, dims] if marked and self.nref else np.zeros((0, 2))
        pts = np.vstack([np.zeros((0, 2))] + [p[0] for p in fig['points']])
        env.check(same_points(pts[np.lexsort(pts.T)], refs[np.lexsort(refs.T)]), 'wrong-references-drawn', '%s: %r' % (what, pts))


class Voronoi(Case):
    def prepare(self, rs, g):
        self.dim = g.choice([1, 2])
        self.num = g.choice([1, 2, 5, 12]) if self.dim == 1 else g.choice([4, 5, 9, 15])
        lo = rs.uniform(-2, 2, self.dim)
        self.dom = np.column_stack([lo, lo + rs.uniform(0.5, 3, self.dim)])
        self.X = self.dom[:, 0] + (self.dom[:, 1] - self.dom[:, 0]) * rs.rand(self.num, self.dim)
        self.P = rs.rand(self.num) + 0.01
        if g.random() < 0.3:
            self.P[rs.rand(self.num) < 0.3] = 0.0
            self.P[0] = 0.3
        self.V = rs.rand(self.num) + 0.05
        if g.random() < 0.3:
            self.V[self.P == 0] = 0.0               # cells that no emulated point hit
        self.how = g.choice(['global', 'block', 'local'])
        self.density = g.random() < 0.6
        self.disc = g.random() < 0.4
        self.refhow = g.choice(['none', 'given', 'own'])
        self.ref = rs.rand(self.dim)
        self.labels = ['u', 'w'] if g.random() < 0.4 else None
        self.files = {self.name('vor.png'): None}

    def call(self, R):
        sample, pv = R.mod('bet.sample'), R.mod('bet.postProcess.plotVoronoi')
        s = sample.sample_set(self.dim)
        s.set_domain(np.array(self.dom))
        rr = ranges(np.random.RandomState(0), self.num, self.n, 'block')
        put(s, {'_values': self.X, '_probabilities': self.P, '_volumes': self.V}, rr[R.rank], self.how)
        if self.refhow == 'own':
            s.set_reference_value(np.array(self.ref))
        o = s
        if self.disc:
            o = sample.discretization(s, None)
        (pv.plot_1D_voronoi if self.dim == 1 else pv.plot_2D_voronoi)(o, density=self.density, filename=self.name('vor'), interactive=False, lambda_label=self.labels,
                                                                     lam_ref=np.array(self.ref) if self.refhow == 'given' else None)
        return np.array_equal(s.get_values(), self.X) and np.array_equal(s.get_probabilities(), self.P) and np.array_equal(s.get_volumes(), self.V)

    def verify(self, env, name, fig, what):
        if self.labels is not None:
            want = self.labels[:self.dim]
            env.check(list(fig['labels'][0][:self.dim]) == want, 'wrong-axis-labels', '%s: %r' % (what, fig['labels']))
        refs = [l for l in fig['lines'] if len(l[0]) == 1]
        env.check(len(refs) == (self.refhow != 'none'), 'reference-not-drawn-once', '%s: %r' % (what, refs))
        if refs:
            env.close(np.array([refs[0][i][0] for i in range(self.dim)]), self.ref, 'wrong-reference-drawn', what)
        if self.dim == 1:
            o = np.argsort(self.X[:, 0])
            x = self.X[o, 0]
            e = np.concatenate([[self.dom[0, 0]], 0.5 * (x[1:] + x[:-1]), [self.dom[0, 1]]])
            h = self.P[o] / np.diff(e) if self.density else self.P[o]
            want = np.array([[[e[i], h[i]], [e[i + 1], h[i]]] for i in range(self.num)])
            segs = sorted(fig['segments'], key=lambda s: s[0][0])
            env.check(len(segs) == self.num, 'wrong-number-of-cells', '%s: %d, expected %d' % (what, len(segs), self.num))
            env.close(np.array(segs), want, 'wrong-cells-drawn', what)
            return
        import matplotlib
        H = ref.density(self.P, self.V) if self.density else self.P
        cmap = matplotlib.colormaps['BuGn']
        polys = fig['polygons']
        env.check(len(polys) == self.num, 'wrong-number-of-cells', '%s: %d, expected %d' % (what, len(polys), self.num))
        from matplotlib.path import Path
        used = set()
        from scipy.spatial import ConvexHull
        hull = self.X[ConvexHull(self.X).vertices]
        u, v = np.roll(hull, 1, 0) - hull, np.roll(hull, -1, 0) - hull
        cos = (u * v).sum(1) / np.sqrt((u ** 2).sum(1) * (v ** 2).sum(1))
        if cos.max() > np.cos(0.02):
            return env.hit('needle_shaped_cell')       # drawn with a far but finite corner
        for i in range(self.num):
            hits = [j for j, (xy, c) in enumerate(polys) if Path(xy).contains_point(self.X[i])]
            own = [j for j in hits if np.allclose(polys[j][1], cmap(H[i] / H.max()), atol=1e-6)]
            env.check(own, 'cell-without-its-colour', '%s: sample %d lies in cells %s' % (what, i, hits))
            used.update(own)
        env.check(len(used) == self.num, 'cells-not-all-drawn', what)


class Marginal(Case):
    def prepare(self, rs, g):
        self.kind = g.choice(['1d', '2d', 'surface', 'contour'])
        self.dim = g.randint(1, 3) if self.kind == '1d' else g.randint(2, 3)
        lo = rs.uniform(-2, 2, self.dim)
        self.dom = np.column_stack([lo, lo + rs.uniform(0.5, 3, self.dim)])
        self.nb = [g.randint(2, 5) for _ in range(self.dim)]
        self.bins = [np.linspace(self.dom[i, 0], self.dom[i, 1], self.nb[i] + 1) for i in range(self.dim)]
        self.keys = list(range(self.dim)) if self.kind == '1d' else list(itertools.combinations(range(self.dim), 2))
        if g.random() < 0.3:
            self.keys = g.sample(self.keys, max(1, len(self.keys) - 1))
        self.m = {k: (rs.rand(self.nb[k]) if self.kind == '1d' else rs.rand(self.nb[k[0]], self.nb[k[1]])) for k in self.keys}
        self.refhow = g.choice(['none', 'given', 'own'])
        self.ref = lo + 0.3
        self.refs = lo + 0.4 * rs.rand(g.choice([2, 4]), self.dim) if g.random() < 0.4 else None
        self.window = np.column_stack([lo + 0.05, lo + rs.uniform(0.2, 0.4, self.dim)]) if g.random() < 0.4 else None
        self.disc = g.random() < 0.4
        self.labels = ['p', 'q', 'r'][:self.dim] if g.random() < 0.4 else None
        for k in self.keys:
            if self.kind == '1d':
                self.files[self.name('m_1D_%d.png' % k)] = ('1d', k)
            elif self.kind == 'contour':
                self.files[self.name('m_2D_contours_%d_%d.png' % k)] = ('contour', k)
            else:
                self.files[self.name('m_2D_%d_%d.png' % k)] = ('2d', k)
                if self.kind == 'surface':
                    self.files[self.name('m_surf_%d_%d.png' % k)] = ('surface', k)

    def call(self, R):
        sample, pp = R.mod('bet.sample'), R.mod('bet.postProcess.plotP')
        s = sample.sample_set(self.dim)
        s.set_domain(np.array(self.dom))
        s.set_values(np.zeros((3, self.dim)))
        if self.refhow == 'own':
            s.set_reference_value(np.array(self.ref))
        o = sample.discretization(s, None) if self.disc else s
        m = {k: np.array(v) for k, v in self.m.items()}
        b = [np.array(x) for x in self.bins]
        ref = np.array(self.ref) if self.refhow == 'given' else None
        if self.kind == '1d':
            pp.plot_1D_marginal_probs(m, b, o, filename=self.name('m'), lam_ref=ref, interactive=False, lambda_label=self.labels)
        elif self.kind == 'contour':
            pp.plot_2D_marginal_contours(m, b, o, filename=self.name('m'), lam_ref=ref, interactive=False, lambda_label=self.labels,
                                         lam_refs=self.refs, plot_domain=self.window)
        else:
            pp.plot_2D_marginal_probs(m, b, o, filename=self.name('m'), lam_ref=ref, plot_surface=self.kind == 'surface', interactive=False, lambda_label=self.labels)
        return all(np.array_equal(m[k], self.m[k]) for k in m) and sorted(m) == sorted(self.m)

    def verify(self, env, name, fig, what):
        kind, k = self.files[name]
        env.check(fig['axes'] == 1, 'several-plots-in-one', '%s: %d axes' % (what, fig['axes']))
        if kind == '1d':
            curves = [l for l in fig['lines'] if len(l[0]) == self.nb[k]]
            refs = [l for l in fig['lines'] if len(l[0]) == 1]
            env.check(len(curves) == 1, 'marginal-not-drawn-once', '%s: %d' % (what, len(curves)))
            w = self.bins[k][1] - self.bins[k][0]
            env.close(curves[0][1], self.m[k] / w, 'wrong-marginal-drawn', what)
            env.check((np.diff(curves[0][0]) > 0).all() and curves[0][0][0] >= self.dom[k, 0] - 1e-9 and curves[0][0][-1] <= self.dom[k, 1] + 1e-9, 'marginal-drawn-elsewhere', what)
            env.check(len(refs) == (self.refhow != 'none'), 'reference-not-drawn-once', what)
            if refs:
                env.close(refs[0][0], self.ref[[k]], 'wrong-reference-drawn', what)
            if self.labels:
                env.check(fig['labels'][0][0] == self.labels[k], 'wrong-axis-labels', '%s: %r' % (what, fig['labels']))
            return
        i, j = k
        box = (self.bins[i][1] - self.bins[i][0]) * (self.bins[j][1] - self.bins[j][0])
        ext = [self.dom[i, 0], self.dom[i, 1], self.dom[j, 0], self.dom[j, 1]]
        if self.labels and kind != 'surface':
            env.check(fig['labels'][0][:2] == (self.labels[i], self.labels[j]), 'wrong-axis-labels', '%s: %r' % (what, fig['labels']))
        if kind in ('2d', 'contour'):
            refs = [l for l in fig['lines'] if len(l[0]) == 1]
            env.check(len(refs) == (self.refhow != 'none'), 'reference-not-drawn-once', what)
            if refs:
                env.close(np.array([refs[0][0][0], refs[0][1][0]]), self.ref[[i, j]], 'wrong-reference-drawn', what)
        if kind == '2d':
            env.check(len(fig['images']) == 1, 'marginal-not-drawn-once', what)
            a, e, origin = fig['images'][0]
            env.close(a if origin == 'lower' else a[::-1], self.m[k].T / box, 'wrong-marginal-drawn', what)
            env.close(np.array(e), np.array(ext), 'marginal-drawn-elsewhere', what)
        elif kind == 'contour':
            import matplotlib.figure as mf
            env.check(len(fig['contours']) == 1, 'marginal-not-drawn-once', what)
            many = [l for l in fig['lines'] if len(l[0]) > 1]
            env.check(len(many) == (self.refs is not None), 'reference-not-drawn-once', '%s: several references' % what)
            if many:
                env.close(np.column_stack(many[0]), self.refs[:, [i, j]], 'wrong-reference-drawn', what)
            env.close(fig['limits'][0], (self.dom if self.window is None else self.window)[[i, j]].ravel(), 'shown-elsewhere', what)
            lev, segs = fig['contours'][0]
            ref = mf.Figure().add_subplot().contour(self.m[k].T / box, lev, extent=ext, origin='lower')
            allp = np.vstack([np.zeros((0, 2))] + [x for l in segs for x in l])
            refp = np.vstack([np.zeros((0, 2))] + [x for l in ref.allsegs for x in l])
            env.check(len(refp) == len(allp), 'wrong-marginal-drawn', '%s: %d contour points, expected %d' % (what, len(allp), len(refp)))
            if len(refp):
                dist = np.abs(allp[:, None] - refp[None]).max(2)
                env.check(dist.min(1).max() < 1e-9 and dist.min(0).max() < 1e-9, 'wrong-marginal-drawn', '%s: contour points differ' % what)
        else:
            env.check(len(fig['surfaces']) == 1, 'marginal-not-drawn-once', what)
            v = fig['surfaces'][0][:3].T
            X, Y = np.meshgrid(*[0.5 * (self.bins[d][1:] + self.bins[d][:-1]) for d in (i, j)], indexing='ij')
            want = np.column_stack([X.ravel(), Y.ravel(), self.m[k].ravel()])
            dist = np.abs(v[:, None] - want[None]).max(2)
            env.check(dist.min(1).max() < 1e-9 and dist.min(0).max() < 1e-9, 'wrong-marginal-drawn', '%s: surface' % what)


class Density(Case):
    def prepare(self, rs, g):
        from .p22_compare import Measure
        self.dim = g.randint(1, 3)
        lo = rs.uniform(-1, 1, self.dim)
        dom = np.column_stack([lo, lo + rs.uniform(0.5, 2, self.dim)])
        lay = {'how': g.choice(['global', 'block']), 'domain': True, 'volumes': True}
        kinds = ['rv', 'rv_init', 'gmm', 'gmm_init', 'kde', 'voronoi']
        self.ms = [Measure(g.choice(kinds), rs, self.dim, g.choice([3, 8]), lay, dom, False) for _ in range(g.randint(1, 2))]
        self.asdisc = [g.choice(['set', 'in', 'out']) for _ in self.ms]
        if g.random() < 0.7:
            self.asdisc = ['in' if a == 'out' else a for a in self.asdisc]
        else:
            self.asdisc = ['out' if a == 'in' else a for a in self.asdisc]
        self.i = g.randrange(self.dim)
        self.initials = g.random() < 0.7
        self.interval = [float(lo[self.i]) + 0.1, float(lo[self.i]) + 0.9] if g.random() < 0.5 else None
        self.bare = g.random() < 0.5 and len(self.ms) == 1
        self.own = [['%s%d' % (c, j) for c in 'abc'[:self.dim]] if g.random() < 0.4 else None for j in range(len(self.ms))]
        self.kw = {}
        for key, v in (('label', 'lab'), ('title', 'ttl'), ('sets_label', ['u%d' % j for j in range(len(self.ms))]), ('sets_label_initial', ['i%d' % j for j in range(len(self.ms))])):
            if g.random() < 0.3:
                self.kw[key] = v
        self.files = {self.name('dens.png'): None}

    def call(self, R):
        sample, pp = R.mod('bet.sample'), R.mod('bet.postProcess.plotP')
        sets = []
        for m, a, lb in zip(self.ms, self.asdisc, self.own):
            s = m.build(R)
            if lb is not None:
                s.set_labels(list(lb))
            if a != 'set':
                t = sample.sample_set(self.dim)
                t.set_values(np.array(m.X))
                s = sample.discretization(s, t) if a == 'in' else sample.discretization(t, s)
            sets.append(s)
        pp.plot_1d_marginal_densities(sets[0] if self.bare else sets, self.i, interval=self.interval, num_points=50, initials=self.initials,
                                      inputs='out' not in self.asdisc, interactive=False, savefile=self.name('dens.png'), **self.kw)
        return True

    def verify(self, env, name, fig, what):
        shown = [m for m in self.ms if m.mode == 'updated' or self.initials]
        env.check(len(fig['lines']) == len(shown), 'wrong-number-of-densities', '%s: %d, expected %d' % (what, len(fig['lines']), len(shown)))
        for j, m in enumerate(q for q in self.ms if q in shown):
            k = self.ms.index(m)
            upd = m.mode == 'updated'
            if ('sets_label' if upd else 'sets_label_initial') in self.kw:
                env.check(fig['names'][j] == ('u%d' if upd else 'i%d') % k, 'wrong-curve-label', '%s: curve %d is called %r' % (what, j, fig['names'][j]))
            elif self.own[k] is not None:
                env.check(fig['names'][j].startswith(self.own[k][self.i]), 'wrong-curve-label', '%s: curve %d is called %r' % (what, j, fig['names'][j]))
        if 'label' in self.kw or self.own[0] is not None:
            env.check(fig['labels'][0][0] == self.kw.get('label', (self.own[0] or [None] * 3)[self.i]), 'wrong-axis-labels', '%s: %r' % (what, fig['labels']))
        env.check(fig['labels'][0][2] == self.kw.get('title', ''), 'wrong-title', '%s: %r' % (what, fig['labels']))
        for (x, y), m in zip(fig['lines'], shown):
            env.close(y, m.marg(x, self.i), 'wrong-density-drawn', what, rtol=1e-7, atol=1e-9)
            if self.interval is not None:
                env.close(x[[0, -1]], np.array(self.interval), 'density-drawn-elsewhere', what)
            else:
                vals = np.concatenate([q.X[:, self.i] for q in self.ms])
                env.check(x[0] <= vals.min() and x[-1] >= vals.max(), 'density-drawn-elsewhere', what)


KINDS = {'scatter': Scatter, 'domain': Domain, 'voronoi': Voronoi, 'marginal': Marginal, 'density': Density}


@register
class Plots(Scenario):
    prop = 'P23'
    name = 'plots'
    mins = {'n': 1, 'cases': 1}

    def gen(self, rng, tier):
        kinds = ['scatter', 'scatter', 'domain', 'voronoi', 'marginal', 'density']
        return {'n': pick_n(rng, tier, hi=4), 'cases': [[rng.choice(kinds), rng.randrange(10 ** 6)] for _ in range(rng.choice([1, 1, 2, 3]))],
                'bufsize': rng.choice([512, 8192]), 'draw': rng.random() < 0.08}

    def run(self, env, p):
        import random
        n = p['n']
        cases = [KINDS[k](np.random.RandomState(s), random.Random(s), n, i) for i, (k, s) in enumerate(p['cases'])]
        fs = env.new_fs(p['bufsize'])

        def program(R):
            out = []
            comm = R.mod('bet.Comm').comm
            for c in cases:
                same = c.call(R)
                got = {}
                for x in c.files:
                    got[x] = None
                    if os.path.exists(x):
                        with open(x, 'rb') as fh:
                            got[x] = fh.read()
                out.append((same, got))
                comm.barrier()
            return out
        with Recorder(p['draw']):
            w = env.job(n, program, 0, fs=fs)
        vals = w.require_clean('plots')
        for k, c in enumerate(cases):
            for r in range(n):
                same, got = vals[r][k]
                what = 'plot %d (%s) rank %d of %d' % (k, p['cases'][k][0], r, n)
                env.check(same, 'plotted-object-changed', what)
                for x in sorted(c.files):
                    data = got[x]
                    env.check(data is not None, 'plot-missing', '%s: %s' % (what, x))
                    env.check(data.endswith(MARK), 'plot-incomplete', '%s: %s' % (what, x))
                    if r == 0:
                        c.verify(env, x, pickle.loads(data[:-len(MARK)]), what + ' ' + x)
                    else:
                        env.check(data == vals[0][k][1][x], 'plot-incomplete', '%s: %s differs between processes' % (what, x))
        wanted = set(x for c in cases for x in c.files)
        writers = {}
        for e in w.events:
            if e[0] == 'fs' and e[2] == 'write':
                writers.setdefault(e[3], set()).add(e[1])
        for x, who in sorted(writers.items()):
            env.check(len(who) == 1, 'several-processes-write-one-plot', '%s: %s' % (x, sorted(who)))
        have = set(os.path.relpath(os.path.join(d, f), env.rundir()) for d, _, fl in os.walk(env.rundir()) for f in fl)
        env.check(have == set(os.path.normpath(x) for x in wanted), 'unexpected-plot-files', 'have %s, expected %s' % (sorted(have), sorted(wanted)))
        for k, _ in p['cases']:
            env.hit('plot:' + k)


