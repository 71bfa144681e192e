"""P01: localizing / globalizing data is lossless, order preserving and replicated."""
import numpy as np

from .. import build
from ..env import Scenario, pick_n, register, split


def gen_fields(rng, must=('_values',)):
    fs = [f for f in build.ALL_FIELDS if rng.random() < 0.45]
    for m in must:
        if m not in fs:
            fs.append(m)
    return sorted(fs)


@register
class SetHistory(Scenario):
    """A random history of localize / globalize / per-rank edits on one sample set vs a dict of arrays."""
    prop = 'P01'
    name = 'set_history'
    weight = 3
    mins = {'num': 0, 'n': 1, 'dim': 1, 'odim': 1, 'ops': 1}

    def gen(self, rng, tier):
        n = pick_n(rng, tier)
        ops = [rng.choice(['g2l', 'l2g', 'l2g', 'g2l', 'edit_local', 'edit_global', 'uneven', 'drop_global',
                           'drop_local', 'check_num', 'copy', 'append_local'])
               for _ in range(rng.randint(1, 8))]
        return {'n': n, 'num': rng.choice([0, 1, 2, 3, 5, 7, 8, 12, 17, 23]), 'dim': rng.randint(1, 4),
                'odim': rng.randint(1, 3), 'fields': gen_fields(rng), 'ops': ops, 'data_seed': rng.randrange(10 ** 6),
                'cls': rng.choice(['sample_set', 'voronoi_sample_set', 'rectangle_sample_set', 'ball_sample_set',
                                   'cartesian_sample_set']), 'rng_mode': 'distinct'}

    def run(self, env, p):
        n, fields = p['n'], p['fields']
        # reference: glob[field] or None ; loc[rank][field] or None
        rs = env.data(p['data_seed'])
        init = {f: build.field(rs, f, p['num'], p['dim'], p['odim']) for f in fields}
        steps = []
        glob = {f: init[f] for f in fields}
        loc = [{f: None for f in fields} for _ in range(n)]
        total = p['num']

        def snap(k):
            steps.append((k, dict(glob), [dict(x) for x in loc], total))
        script = []
        for k, op in enumerate(p['ops']):
            r2 = env.data(p['data_seed'], 100 + k)
            have_l = all(loc[0][f] is not None for f in fields)
            have_g = all(glob[f] is not None for f in fields)
            consistent = True
            if have_g and have_l:
                pass
            arg = None
            if op == 'g2l':
                if not have_g:
                    continue
                for r in range(n):
                    for f in fields:
                        loc[r][f] = split(glob[f], n, r)
            elif op == 'l2g':
                if not have_l:
                    continue
                for f in fields:
                    glob[f] = np.concatenate([loc[r][f] for r in range(n)], axis=0)
                total = glob[fields[0]].shape[0]
            elif op == 'edit_local':
                if not have_l:
                    continue
                arg = []
                for r in range(n):
                    new = {f: build.field(r2, f, loc[r][f].shape[0], p['dim'], p['odim']) for f in fields}
                    arg.append(new)
                    loc[r].update(new)
            elif op == 'edit_global':
                if not have_g:
                    continue
                arg = {f: build.field(r2, f, total, p['dim'], p['odim']) for f in fields}
                glob.update(arg)
            elif op == 'uneven':
                sizes = [int(x) for x in r2.randint(0, 5, n)]
                arg = []
                for r in range(n):
                    new = {f: build.field(r2, f, sizes[r], p['dim'], p['odim']) for f in fields}
                    arg.append(new)
                    loc[r].update(new)
                for f in fields:
                    glob[f] = None
                total = sum(sizes)
            elif op == 'drop_global':
                if not have_l or sum(x[fields[0]].shape[0] for x in loc) != total:
                    continue
                for f in fields:
                    glob[f] = None
            elif op == 'drop_local':
                if not have_g:
                    continue
                for r in range(n):
                    for f in fields:
                        loc[r][f] = None
            elif op == 'append_local':
                if not have_l or fields != ['_values'] or p['cls'] not in ('sample_set', 'voronoi_sample_set'):
                    continue
                arg = []
                for r in range(n):
                    new = r2.rand(int(r2.randint(0, 4)), p['dim'])
                    arg.append(new)
                    loc[r]['_values'] = np.concatenate([loc[r]['_values'], new], 0)
                glob['_values'] = None
                total = sum(x['_values'].shape[0] for x in loc)
            script.append((op, arg))
            snap(op)

        def program(R):
            sample = R.mod('bet.sample')
            s = getattr(sample, p['cls'])(p['dim'])
            build.fill(s, init)
            out = []
            for op, arg in script:
                num = None
                if op == 'g2l':
                    s.global_to_local()
                elif op == 'l2g':
                    s.local_to_global()
                elif op in ('edit_local', 'uneven'):
                    for f, v in arg[R.rank].items():
                        setattr(s, f + '_local', np.array(v))
                    if op == 'uneven':
                        for f in fields:
                            setattr(s, f, None)
                elif op == 'edit_global':
                    build.fill(s, arg)
                elif op == 'drop_global':
                    for f in fields:
                        setattr(s, f, None)
                elif op == 'drop_local':
                    for f in fields:
                        setattr(s, f + '_local', None)
                elif op == 'append_local':
                    s.append_values_local(np.array(arg[R.rank]))
                    s._values = None
                elif op == 'copy':
                    s = s.copy()
                elif op == 'check_num':
                    num = s.check_num()
                idx = s._local_index
                out.append(({f: _c(getattr(s, f)) for f in fields},
                            {f: _c(getattr(s, f + '_local')) for f in fields}, num, _c(idx)))
            return out
        vals = env.job(n, program, p['data_seed'], p['rng_mode']).require_clean('set history')
        if p['num'] < n:
            env.hit('more_ranks_than_samples')
        for k, (op, g, l, tot) in enumerate(steps):
            for r in range(n):
                gg, gl, num, idx = vals[r][k]
                for f in fields:
                    env.equal(gg[f], g[f], 'global-array', 'step %d (%s) rank %d of %d: global %s' % (k, op, r, n, f))
                    env.equal(gl[f], l[r][f], 'local-array', 'step %d (%s) rank %d of %d: local %s' % (k, op, r, n, f))
                if op == 'check_num':
                    env.check(num == tot, 'sample-count', 'rank %d counts %s samples, expected %d' % (r, num, tot))
                if op == 'g2l':
                    env.equal(idx, split(np.arange(tot), n, r), 'local-index', 'rank %d' % r)


def _c(a):
    return None if a is None else np.array(a)


@register
class GlobalValues(Scenario):
    """get_global_values on raw arrays of several dtypes, shapes and uneven lengths."""
    prop = 'P01'
    name = 'global_values'
    weight = 1
    mins = {'n': 1, 'ndim': 1}

    def gen(self, rng, tier):
        n = pick_n(rng, tier)
        even = rng.random() < 0.4
        k = rng.randint(1, 5)
        return {'n': n, 'sizes': [k if even else rng.randint(0, 6) for _ in range(n)], 'shape': even and rng.random() < 0.6,
                'ndim': rng.randint(1, 4), 'dtype': rng.choice(['f8', 'f8', 'i8', 'f4', 'i4', '?']),
                'data_seed': rng.randrange(10 ** 6), 'order': rng.choice(['C', 'F'])}

    def valid(self, p):
        return len(p['sizes']) == p['n']

    def run(self, env, p):
        n = p['n']
        rs = env.data(p['data_seed'])
        tail = (3, 2, 2)[:p['ndim'] - 1]
        parts = []
        for k in p['sizes']:
            a = rs.randint(-50, 50, (k,) + tail) + (rs.rand(*((k,) + tail)) if p['dtype'][0] == 'f' else 0)
            parts.append(np.asarray(a).astype(p['dtype'], order=p['order']))
        want = np.concatenate(parts, 0)

        def program(R):
            util = R.mod('bet.util')
            a = np.array(parts[R.rank], order=p['order'])
            return util.get_global_values(a, want.shape) if p['shape'] else util.get_global_values(a)
        vals = env.job(n, program).require_clean('get_global_values')
        for r in range(n):
            env.close(vals[r], want, 'global-values', 'rank %d of %d' % (r, n), rtol=1e-7)


@register
class DiscHistory(Scenario):
    """Localizing/globalizing a discretization acts on all of its sample sets."""
    prop = 'P01'
    name = 'disc_history'
    weight = 2
    mins = {'n': 1, 'num': 1, 'enum': 1, 'onum': 1, 'dim': 1, 'odim': 1, 'ops': 1}

    def gen(self, rng, tier):
        return {'n': pick_n(rng, tier), 'num': rng.randint(1, 14), 'enum': rng.randint(1, 20),
                'onum': rng.randint(1, 9), 'dim': rng.randint(1, 3), 'odim': rng.randint(1, 2),
                'sets': [s for s in ('emu_in', 'emu_out', 'prob', 'obs') if rng.random() < 0.6],
                'ops': [rng.choice(['g2l', 'edit', 'l2g', 'copy']) for _ in range(rng.randint(1, 6))],
                'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        n = p['n']
        dims = {'in': p['dim'], 'out': p['odim'], 'emu_in': p['dim'], 'emu_out': p['odim'], 'prob': p['odim'],
                'obs': p['odim']}
        nums = {'in': p['num'], 'out': p['num'], 'emu_in': p['enum'], 'emu_out': p['enum'], 'prob': p['onum'],
                'obs': p['onum']}
        names = ['in', 'out'] + sorted(p['sets'])
        rs = env.data(p['data_seed'])
        init = {s: {'_values': rs.rand(nums[s], dims[s]), '_probabilities': rs.rand(nums[s])} for s in names}
        glob = {s: dict(init[s]) for s in names}
        loc = [{s: {'_values': None, '_probabilities': None} for s in names} for _ in range(n)]
        script, snaps = [], []
        for k, op in enumerate(['g2l'] + p['ops']):
            r2 = env.data(p['data_seed'], 50 + k)
            arg = None
            if op == 'g2l':
                for r in range(n):
                    for s in names:
                        for f in ('_values', '_probabilities'):
                            loc[r][s][f] = split(glob[s][f], n, r)
            elif op == 'l2g':
                for s in names:
                    for f in ('_values', '_probabilities'):
                        glob[s][f] = np.concatenate([loc[r][s][f] for r in range(n)], 0)
            elif op == 'edit':
                arg = []
                for r in range(n):
                    new = {s: r2.rand(loc[r][s]['_probabilities'].shape[0]) for s in names}
                    arg.append(new)
                    for s in names:
                        loc[r][s]['_probabilities'] = new[s]
            script.append((op, arg))
            snaps.append(({s: dict(glob[s]) for s in names}, [{s: dict(x[s]) for s in names} for x in loc]))

        def program(R):
            sample = R.mod('bet.sample')

            def mk(s):
                if s not in names:
                    return None
                ss = sample.sample_set(dims[s])
                build.fill(ss, init[s])
                return ss
            d = sample.discretization(mk('in'), mk('out'), mk('prob'), mk('emu_in'), mk('emu_out'), mk('obs'))
            out = []
            for op, arg in script:
                get = {'in': d.get_input_sample_set, 'out': d.get_output_sample_set,
                       'prob': d.get_output_probability_set, 'emu_in': d.get_emulated_input_sample_set,
                       'emu_out': d.get_emulated_output_sample_set, 'obs': d.get_output_observed_set}
                if op == 'g2l':
                    d.global_to_local()
                elif op == 'l2g':
                    d.local_to_global()
                elif op == 'edit':
                    for s in names:
                        get[s]().set_probabilities_local(np.array(arg[R.rank][s]))
                elif op == 'copy':
                    d = d.copy()
                    get = {'in': d.get_input_sample_set, 'out': d.get_output_sample_set,
                           'prob': d.get_output_probability_set, 'emu_in': d.get_emulated_input_sample_set,
                           'emu_out': d.get_emulated_output_sample_set, 'obs': d.get_output_observed_set}
                out.append({s: {f: _c(getattr(get[s](), f)) for f in
                                ('_values', '_probabilities', '_values_local', '_probabilities_local')} for s in names})
            return out
        vals = env.job(n, program).require_clean('discretization history')
        for k, (g, l) in enumerate(snaps):
            for r in range(n):
                for s in names:
                    for f in ('_values', '_probabilities'):
                        env.equal(vals[r][k][s][f], g[s][f], 'disc-global',
                                  'step %d (%s) rank %d: %s of the %s set' % (k, script[k][0], r, f, s))
                        env.equal(vals[r][k][s][f + '_local'], l[r][s][f], 'disc-local',
                                  'step %d (%s) rank %d: local %s of the %s set' % (k, script[k][0], r, f, s))


@register
class Growing(Scenario):
    """Samples appended globally or per rank, with lookups, counts, bounds and boxes in between."""
    prop = 'P01'
    name = 'growing'
    weight = 2
    mins = {'n': 1, 'num': 1, 'dim': 1, 'odim': 1, 'ops': 1}

    def gen(self, rng, tier):
        one = ['append', 'append_local', 'append_local', 'set', 'set_local', 'g2l', 'l2g', 'query', 'query', 'box', 'bounds', 'bounds_local', 'check', 'check_local', 'shape', 'copy', 'fresh_local']
        look, edit = ['query', 'box', 'check', 'check_local', 'shape'], ['append_local', 'set_local']
        ops = []
        while len(ops) < 12 and (not ops or rng.random() < 0.8):
            if rng.random() < 0.4:
                ops += [rng.choice(look), 'g2l', rng.choice(edit)] + [rng.choice(look) for _ in range(rng.randint(0, 1))] + ['l2g', rng.choice(look)]
            else:
                ops.append(rng.choice(one))
        ops = [[op, rng.randrange(10 ** 6)] for op in ops]
        return {'n': pick_n(rng, tier), 'num': rng.choice([1, 2, 3, 5, 9]), 'dim': rng.randint(1, 3), 'odim': rng.randint(1, 2), 'fields': [f for f in ('_jacobians', '_error_estimates') if rng.random() < 0.5],
                'start': rng.choice(['global', 'block', 'block', 'local']), 'flat': rng.random() < 0.5, 'cls': rng.choice(['sample_set', 'voronoi_sample_set']), 'ops': ops, 'data_seed': rng.randrange(10 ** 6)}

    def run(self, env, p):
        n, dim, odim = p['n'], p['dim'], p['odim']
        fields = ['_values'] + p['fields']
        rs = env.data(p['data_seed'])
        dom = build.domain(rs, dim)

        def new(r, k):
            return {f: build.field(r, f, k, dim, odim) for f in fields}
        init = new(rs, p['num'])
        glob = dict(init) if p['start'] != 'local' else None
        loc = [{f: split(init[f], n, r) for f in fields} for r in range(n)] if p['start'] != 'global' else None
        # which side is current: 'g' (local missing or older), 'l' (global missing or older), 'both'
        cur = {'global': 'g', 'block': 'both', 'local': 'l'}[p['start']]
        script = []
        bounds = bounds_l = False
        for op, seed in p['ops']:
            r2 = np.random.RandomState(seed)
            arg = want = None
            g_ok, l_ok = cur in ('g', 'both'), cur in ('l', 'both')
            if op == 'append' and g_ok:
                # the local parts are brought up to date by the caller (global_to_local)
                arg = new(r2, int(r2.randint(0, 4)))
                glob = {f: np.concatenate([glob[f], arg[f]]) for f in fields}
                cur = 'g'
            elif op == 'set' and g_ok:
                arg = new(r2, int(r2.randint(1, 9)))
                glob = dict(arg)
                cur = 'g'
            elif op in ('append_local', 'set_local') and l_ok:
                arg = [new(r2, int(r2.randint(1 if op == 'set_local' else 0, 4))) for _ in range(n)]
                loc = [{f: np.concatenate([loc[r][f], arg[r][f]]) if op == 'append_local' else arg[r][f] for f in fields} for r in range(n)]
                cur = 'l'
            elif op == 'g2l' and g_ok:
                loc = [{f: split(glob[f], n, r) for f in fields} for r in range(n)]
                cur = 'both'
            elif op == 'l2g' and l_ok:
                glob = {f: np.concatenate([loc[r][f] for r in range(n)]) for f in fields}
                cur = 'both'
            elif op == 'query' and g_ok:
                arg = dom[:, 0] + (dom[:, 1] - dom[:, 0]) * r2.rand(4, dim)
                want = np.array([np.argmin(((glob['_values'] - x) ** 2).sum(1)) for x in arg])
            elif op == 'box' and g_ok:
                want = np.column_stack([glob['_values'].min(0), glob['_values'].max(0)])
            elif op == 'bounds' and g_ok:
                want = len(glob['_values'])
            elif op == 'bounds_local' and l_ok:
                want = [len(x['_values']) for x in loc]
            elif op == 'check' and g_ok:
                want = len(glob['_values'])
            elif op == 'check' and glob is None:
                want = sum(len(x['_values']) for x in loc)
            elif op == 'check_local' and l_ok:
                want = [len(x['_values']) for x in loc]
            elif op == 'shape':
                want = ((len(glob['_values']), dim) if g_ok else None, [(len(x['_values']), dim) if l_ok else None for x in loc or [{'_values': []}] * n])
            elif op == 'copy' or (op == 'fresh_local' and g_ok):
                pass
            else:
                continue
            if op == 'fresh_local':
                loc = None
                cur = 'g'
            script.append((op, arg, want, None if glob is None else dict(glob), None if loc is None else [dict(x) for x in loc], cur))

        def program(R):
            s = getattr(R.mod('bet.sample'), p['cls'])(dim)
            s.set_domain(np.array(dom))
            if p['start'] == 'local':
                for f in fields:
                    setattr(s, f + '_local', np.array(split(init[f], n, R.rank)))
            else:
                build.fill(s, init)
                if p['start'] == 'block':
                    s.global_to_local()
            out = []
            for op, arg, want, _, _, cur in script:
                res = None
                flat = lambda v: v[:, 0] if dim == 1 and p['flat'] else v
                if op == 'append':
                    s.append_values(np.array(flat(arg['_values'])))
                    if '_jacobians' in fields:
                        s.append_jacobians(np.array(arg['_jacobians']))
                    if '_error_estimates' in fields:
                        s.append_error_estimates(np.array(arg['_error_estimates']))
                elif op == 'set':
                    s.set_values(np.array(flat(arg['_values'])))
                    if '_jacobians' in fields:
                        s.set_jacobians(np.array(arg['_jacobians']))
                    if '_error_estimates' in fields:
                        s.set_error_estimates(np.array(arg['_error_estimates']))
                    s._left = s._right = s._width = None
                elif op == 'append_local':
                    a = arg[R.rank]
                    s.append_values_local(np.array(flat(a['_values'])))
                    for f in fields[1:]:
                        setattr(s, f + '_local', np.concatenate([getattr(s, f + '_local'), a[f]]))
                elif op == 'set_local':
                    a = arg[R.rank]
                    s.set_values_local(np.array(flat(a['_values'])))
                    if '_jacobians' in fields:
                        s.set_jacobians_local(np.array(a['_jacobians']))
                    if '_error_estimates' in fields:
                        s.set_error_estimates_local(np.array(a['_error_estimates']))
                elif op == 'g2l':
                    s.global_to_local()
                elif op == 'l2g':
                    s.local_to_global()
                elif op == 'query':
                    res = np.array(s.query(np.array(arg))[1])
                elif op == 'box':
                    res = np.array(s.get_bounding_box())
                elif op == 'bounds':
                    s.update_bounds()
                    res = (_c(s._left), _c(s._right), _c(s._width))
                elif op == 'bounds_local':
                    s.update_bounds_local()
                    res = (_c(s._left_local), _c(s._right_local), _c(s._width_local))
                elif op == 'check':
                    res = s.check_num()
                elif op == 'check_local':
                    res = s.check_num_local()
                elif op == 'shape':
                    res = (s.shape() if want[0] else None, s.shape_local() if want[1][R.rank] else None)
                elif op == 'copy':
                    s = s.copy()
                elif op == 'fresh_local':
                    for f in s.array_names:
                        setattr(s, f + '_local', None)
                if op in ('append', 'append_local', 'set', 'set_local', 'bounds', 'bounds_local'):
                    # bounds belong to the number of samples they were made for
                    s._left = s._right = s._width = s._left_local = s._right_local = s._width_local = None
                out.append((res, {f: _c(getattr(s, f)) for f in fields}, {f: _c(getattr(s, f + '_local')) for f in fields}))
            return out
        vals = env.job(n, program).require_clean('appending')
        for k, (op, arg, want, g, l, cur) in enumerate(script):
            for r in range(n):
                res, gg, ll = vals[r][k]
                what = 'step %d of %s, rank %d of %d' % (k, ' '.join(x[0] for x in script), r, n)
                for f in fields:
                    if cur in ('g', 'both'):
                        env.equal(gg[f], g[f], 'global-array', what + f)
                    if cur in ('l', 'both'):
                        env.equal(ll[f], l[r][f], 'local-array', what + f)
                if op == 'query':
                    env.equal(res, want, 'stale-lookup', what)
                elif op == 'box':
                    env.equal(res, want, 'stale-bounding-box', what)
                elif op in ('bounds', 'bounds_local'):
                    m = want if op == 'bounds' else want[r]
                    for a, b in zip(res, (dom[:, 0], dom[:, 1], dom[:, 1] - dom[:, 0])):
                        env.close(a, np.repeat([b], m, 0), 'wrong-bounds', what)
                elif op in ('check', 'check_local'):
                    m = want if op == 'check' else want[r]
                    env.check(res == m, 'sample-count', '%s: %s, expected %d' % (what, res, m))
                elif op == 'shape':
                    env.check(res == (want[0], want[1][r]), 'shape', '%s: %s' % (what, res))
