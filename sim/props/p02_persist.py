"""P02 (globalized save/load), P03 (per-process save/load), P04 (save/load under crashes and disk errors)."""
import os

import numpy as np

from .. import build
from ..core import Violation
from ..env import Scenario, pick_n, register, split

META_VALS = ('_dim', '_p_norm', '_label', '_labels', '_prob_type', '_prob_type_init')


def make_state(rs, p, gen):
    """Reference contents of generation `gen` of the saved object: plain dicts of arrays."""
    num = p['num'] + (gen % 3 if p.get('vary') else 0)
    sets = {}

    def one(dim, k, fields, odim):
        d = {f: build.field(rs, f, k, dim, odim) for f in fields}
        d['_values'] = rs.rand(k, dim) + gen
        if p['pad']:
            d['_jacobians'] = rs.rand(k, odim, dim)
            d['_error_estimates'] = rs.rand(k, dim)
        return d
    dim, odim = p['dim'], p['odim']
    sets['in'] = (dim, one(dim, num, p['fields'], odim))
    if p['kind'] == 'disc':
        sets['out'] = (odim, one(odim, num, ['_values'], 1))
        if 'prob' in p['sets']:
            sets['prob'] = (odim, one(odim, max(1, p['onum']), ['_values', '_probabilities'], 1))
        if 'emu_in' in p['sets']:
            sets['emu_in'] = (dim, one(dim, max(1, p['enum']), ['_values'], 1))
        if 'emu_out' in p['sets']:
            sets['emu_out'] = (odim, one(odim, max(1, p['enum']), ['_values'], 1))
        if 'obs' in p['sets']:
            sets['obs'] = (odim, one(odim, max(1, p['onum']), ['_values'], 1))
    meta = {'_p_norm': float(1 + gen % 3), '_label': 'g%d' % gen, '_labels': ['l%d' % i for i in range(dim)],
            '_domain': build.domain(rs, dim), '_reference_value': rs.rand(dim)}
    return {'sets': sets, 'meta': meta, 'ptr': bool(p['kind'] == 'disc' and 'prob' in p['sets'] and p.get('ptr'))}


def build_obj(R, p, st, n, parts):
    """Build the object inside a rank. parts: 'global', 'local' or 'both'."""
    sample = R.mod('bet.sample')

    def mk(key):
        if key not in st['sets']:
            return None
        dim, arrays = st['sets'][key]
        cls = p['cls'] if key == 'in' else 'sample_set'
        s = getattr(sample, cls)(dim)
        for f, v in arrays.items():
            if parts != 'local' or key == 'prob':    # probability sets are queried, so every rank holds them
                setattr(s, f, np.array(v))
            if parts != 'global':
                setattr(s, f + '_local', np.array(split(v, n, R.rank)))
        return s
    i = mk('in')
    m = st['meta']
    i.set_p_norm(m['_p_norm'])
    i.set_label(m['_label'])
    i.set_labels(list(m['_labels']))
    i.set_domain(np.array(m['_domain']))
    i.set_reference_value(np.array(m['_reference_value']))
    if p['kind'] == 'set':
        return i
    d = sample.discretization(i, mk('out'), mk('prob'), mk('emu_in'), mk('emu_out'), mk('obs'))
    if st['ptr']:
        d.set_io_ptr(globalize=(parts != 'local'))
    return d


GET = {'in': '_input_sample_set', 'out': '_output_sample_set', 'prob': '_output_probability_set',
       'emu_in': '_emulated_input_sample_set', 'emu_out': '_emulated_output_sample_set',
       'obs': '_output_observed_set'}


def snapshot(p, obj, keys):
    """Plain-data picture of an object (what a user can observe)."""
    out = {'class': type(obj).__name__, 'sets': {}}
    for k in keys:
        s = obj if p['kind'] == 'set' else getattr(obj, GET[k])
        if s is None:
            out['sets'][k] = None
            continue
        d = {'class': type(s).__name__, '_dim': s.get_dim()}
        for f in build.ALL_FIELDS:
            for suf in ('', '_local'):
                v = getattr(s, f + suf)
                d[f + suf] = None if v is None else np.array(v)
        d['_p_norm'] = s.get_p_norm()
        d['_label'] = s.get_label()
        d['_labels'] = s.get_labels()
        d['_domain'] = None if s.get_domain() is None else np.array(s.get_domain())
        d['_reference_value'] = None if s.get_reference_value() is None else np.array(s.get_reference_value())
        out['sets'][k] = d
    if p['kind'] == 'disc':
        out['io_ptr'] = None if obj.get_io_ptr() is None else np.array(obj.get_io_ptr())
    return out


def all_keys(p):
    return ['in'] if p['kind'] == 'set' else ['in', 'out', 'prob', 'emu_in', 'emu_out', 'obs']


def diff_global(p, snap, st):
    """None if the snapshot's global contents equal reference state `st`, else a description."""
    want_cls = p['cls'] if p['kind'] == 'set' else 'discretization'
    if snap['class'] != want_cls:
        return 'class %s' % snap['class']
    for k in all_keys(p):
        d = snap['sets'][k]
        if k not in st['sets']:
            if d is not None:
                return 'unexpected %s set' % k
            continue
        if d is None:
            return 'missing %s set' % k
        dim, arrays = st['sets'][k]
        if d['_dim'] != dim:
            return 'dimension of %s' % k
        for f in build.ALL_FIELDS:
            w = arrays.get(f)
            g = d[f]
            if (w is None) != (g is None):
                if w is None and f == '_kdtree_values':
                    continue
                return '%s of %s set is %s' % (f, k, 'missing' if g is None else 'unexpected')
            if w is not None and (g.shape != w.shape or not np.array_equal(g, w)):
                return '%s of %s set differs (shape %s vs %s)' % (f, k, g.shape, w.shape)
    d = snap['sets']['in']
    m = st['meta']
    for f in ('_p_norm', '_label', '_labels'):
        if d[f] != m[f]:
            return '%s is %r not %r' % (f, d[f], m[f])
    for f in ('_domain', '_reference_value'):
        if d[f] is None or not np.array_equal(d[f], m[f]):
            return f
    return None


def diff_local(p, snap, st, n, r, must):
    """Compare local parts with the block decomposition."""
    for k in all_keys(p):
        d = snap['sets'][k]
        if k not in st['sets'] or d is None:
            continue
        for f, w in st['sets'][k][1].items():
            g = d[f + '_local']
            if g is None:
                if must:
                    return 'local %s of %s set missing' % (f, k)
                continue
            b = split(w, n, r)
            if g.shape != b.shape or not np.array_equal(g, b):
                return 'local %s of %s set: shape %s, expected the rank\'s block %s' % (f, k, g.shape, b.shape)
    return None


def gen_common(rng, tier):
    kind = rng.choice(['set', 'set', 'disc'])
    return {'kind': kind, 'num': rng.choice([1, 2, 3, 5, 8, 13]), 'dim': rng.randint(1, 3), 'odim': rng.randint(1, 2),
            'onum': rng.randint(1, 5), 'enum': rng.randint(1, 9),
            'fields': sorted(set(['_values'] + [f for f in build.ALL_FIELDS if rng.random() < 0.3])),
            'sets': [s for s in ('prob', 'emu_in', 'emu_out', 'obs') if rng.random() < 0.5],
            'ptr': rng.random() < 0.5, 'pad': rng.random() < 0.3, 'vary': rng.random() < 0.5,
            'cls': rng.choice(['sample_set', 'sample_set', 'rectangle_sample_set', 'ball_sample_set',
                               'cartesian_sample_set', 'voronoi_sample_set']),
            'data_seed': rng.randrange(10 ** 6),
            'path': rng.choice(['res', 'sub/res', 'ABS/res', 'sub/deep/res.v1', 'my_res', 'process', 'sub/proc_data',
                                'a[1]']),
            'bufsize': rng.choice([0, 64, 512, 8192]), 'chunk': rng.choice([0, 0, 100, 700])}


MINS = {'n': 1, 'num': 1, 'dim': 1, 'odim': 1, 'onum': 1, 'enum': 1, 'bufsize': 0, 'chunk': 0, 'gens': 1, 'loads': 1,
        'nfault': 1, 'nload': 1}


def path_of(env, p):
    base = env.rundir()
    os.makedirs(os.path.join(base, 'sub', 'deep'), exist_ok=True)
    os.makedirs(os.path.join(base, 'abs'), exist_ok=True)
    q = p['path']
    return os.path.join(base, 'abs', q[4:]) if q.startswith('ABS/') else q


def nprocs(p, key, lo=1):
    return max(lo, p[key])


@register
class GlobalSave(Scenario):
    """Save globalized from n ranks (several times), load at other rank counts, with/without localizing."""
    prop = 'P02'
    name = 'global_save_load'
    mins = MINS

    def gen(self, rng, tier):
        p = gen_common(rng, tier)
        p['gens'] = [{'n': pick_n(rng, tier, hi=5), 'parts': rng.choice(['global', 'local', 'both']),
                      'n2': pick_n(rng, tier, hi=5), 'localize': rng.random() < 0.5, 'resave': rng.random() < 0.4,
                      'method': rng.random() < 0.5}
                     for _ in range(rng.randint(1, 3))]
        return p

    def run(self, env, p):
        path = path_of(env, p)
        fs = env.new_fs(p['bufsize'] or None, p['chunk'])
        for g, spec in enumerate(p['gens']):
            st = make_state(env.data(p['data_seed'], g), p, g)

            def saver(R):
                util = R.mod('bet.util')
                o = build_obj(R, p, st, R.size, spec['parts'])
                before = snapshot(p, o, all_keys(p))
                if spec['method']:
                    o.save(path, globalize=True)
                else:
                    util.save_object(o, path, globalize=True)
                return before, snapshot(p, o, all_keys(p))
            vals = env.job(spec['n'], saver, fs=fs).require_clean('save')
            for r, (b, a) in enumerate(vals):
                d = diff_global(p, a, st)
                env.check(d is None, 'saved-object-changed', lambda: 'rank %d in memory after save: %s' % (r, d))
            env.check(os.path.exists(path + '.p'), 'file-missing', 'no %s.p after a save' % p['path'])

            def loader(R):
                util = R.mod('bet.util')
                o = util.load_object(path, localize=spec['localize'])
                first = snapshot(p, o, all_keys(p))
                o.local_to_global()
                if p['kind'] == 'disc':
                    o.globalize_ptrs()
                second = snapshot(p, o, all_keys(p))
                third = None
                if spec['resave']:
                    util.save_object(o, path, globalize=True)
                    third = snapshot(p, util.load_object(path), all_keys(p))
                return first, second, third
            vals = env.job(spec['n2'], loader, fs=fs).require_clean('load')
            for r, snaps in enumerate(vals):
                for w, s in zip(('loaded', 'globalized after loading', 'saved again and reloaded'), snaps):
                    if s is None:
                        continue
                    d = diff_global(p, s, st)
                    env.check(d is None, 'loaded-object-differs',
                              lambda: 'saved by %d ranks (%s), %s on rank %d of %d: %s' % (
                                  spec['n'], spec['parts'], w, r, spec['n2'], d))
                d = diff_local(p, snaps[0], st, spec['n2'], r, must=spec['localize'] and not p['path'].startswith('proc_'))
                env.check(d is None, 'loaded-local-part',
                          lambda: 'saved by %d ranks, loaded (localize=%s) on rank %d of %d: %s' % (
                              spec['n'], spec['localize'], r, spec['n2'], d))
                if st['ptr']:
                    o = st['sets']['out'][1]['_values']
                    q = st['sets']['prob'][1]['_values']
                    nn = np.argmin(((o[:, None, :] - q[None]) ** 2).sum(2), 1)
                    if spec['parts'] != 'local':
                        env.equal(snaps[0]['io_ptr'], nn, 'loaded-pointer', 'rank %d' % r)
                    if snaps[1]['io_ptr'] is not None:
                        env.equal(snaps[1]['io_ptr'], nn, 'loaded-pointer', 'rank %d after globalizing the pointers' % r)
            if spec['n'] != spec['n2']:
                env.hit('different_rank_count')


@register
class LocalSave(Scenario):
    """Per-process saves: every rank gets its own part back; other rank counts are refused."""
    prop = 'P03'
    name = 'local_save_load'
    mins = MINS

    def gen(self, rng, tier):
        p = gen_common(rng, tier)
        p['gens'] = [{'n': pick_n(rng, tier, hi=5, lo=1, many=0.1), 'parts': rng.choice(['global', 'local', 'both']),
                      'n2': pick_n(rng, tier, hi=5, many=0.05), 'edit': rng.random() < 0.5, 'par': rng.random() < 0.5, 'now': rng.random() < 0.5}
                     for _ in range(rng.randint(1, 3))]
        p['decoys'] = [d for d in ('proc0_other_', 'proc1_x', 'procs_', 'proc0_.p.', 'proc0_NAME.v1', 'proc1_NAME2', 'proc0_NAME.p.old', 'proc12_NAME_') if rng.random() < 0.3]
        return p

    def valid(self, p):
        return True

    def run(self, env, p):
        path = path_of(env, p)
        fs = env.new_fs(p['bufsize'] or None, p['chunk'])
        full = path if os.path.isabs(path) else os.path.join(env.rundir(), path)
        d0, b0 = os.path.split(full)
        for d in p['decoys']:
            with open(os.path.join(d0, (d.replace('NAME', b0) if 'NAME' in d else d + b0) + '.p'), 'wb') as f:
                f.write(b'not a saved object')
        for g, spec in enumerate(p['gens']):
            n = spec['n']
            st = make_state(env.data(p['data_seed'], g), p, g)

            def saver(R):
                util = R.mod('bet.util')
                o = build_obj(R, p, st, R.size, spec['parts'])
                if spec['edit']:
                    s = o if p['kind'] == 'set' else o.get_input_sample_set()
                    if s.get_values_local() is not None:
                        s.set_values_local(s.get_values_local() + 1000.0 * (R.rank + 1))
                s0 = snapshot(p, o, all_keys(p))
                if spec['par']:
                    o.save(path, globalize=False)
                else:
                    util.save_object(o, path, globalize=False)
                s1 = snapshot(p, o, all_keys(p))
                if spec.get('now'):            # the same job reads its parts at once
                    o = util.load_object_parallel(path) if spec['par'] and R.size > 1 else util.load_object(path)
                    d = same_snap(snapshot(p, o, all_keys(p)), s0)
                    env.check(d is None, 'wrong-part', lambda: 'rank %d of %d at once: %s' % (R.rank, R.size, d))
                return s0, s1
            saved = env.job(n, saver, fs=fs).require_clean('per-process save')
            for r, (a, b) in enumerate(saved):
                d = same_snap(a, b)
                env.check(d is None, 'saved-object-changed', lambda: 'rank %d after save: %s' % (r, d))

            def loader(R):
                util = R.mod('bet.util')
                sample = R.mod('bet.sample')
                try:
                    if R.size == 1 and n == 1:
                        o = util.load_object(path)
                    elif spec['par']:
                        o = util.load_object_parallel(path)
                    else:
                        o = util.load_object(path)
                except sample.dim_not_matching:
                    return 'refused'
                except FileNotFoundError:
                    return 'refused'
                return snapshot(p, o, all_keys(p))
            if n == 1 and spec['n2'] != 1:
                os.remove(full + '.p')
                continue     # a one-process job writes an ordinary file (P02 covers it)
            vals = env.job(spec['n2'], loader, fs=fs).require_clean('per-process load')
            for r, s in enumerate(vals):
                if spec['n2'] != n:
                    env.check(s == 'refused', 'mismatched-count-accepted',
                              'saved per process by %d ranks; rank %d of %d loaded an object' % (n, r, spec['n2']))
                    env.hit('refused_other_rank_count')
                else:
                    env.check(s != 'refused', 'own-files-refused',
                              'saved per process by %d ranks, load on rank %d of %d refused' % (n, r, n))
                    d = same_snap(s, saved[r][0])
                    env.check(d is None, 'wrong-part', lambda: 'rank %d of %d: %s' % (r, n, d))
            # a per-process job must not leave the file of the 1-process form of the next generation behind
            if n == 1:
                os.remove(full + '.p')


def same_snap(a, b):
    if a['class'] != b['class']:
        return 'class'
    for k in b['sets']:
        x, y = a['sets'].get(k), b['sets'][k]
        if (x is None) != (y is None):
            return '%s set presence' % k
        if x is None:
            continue
        for f in y:
            u, v = x[f], y[f]
            if isinstance(v, np.ndarray) or isinstance(u, np.ndarray):
                if u is None or v is None or u.shape != v.shape or not np.array_equal(u, v):
                    return '%s of the %s set' % (f, k)
            elif u != v:
                return '%s of the %s set' % (f, k)
    u, v = a.get('io_ptr'), b.get('io_ptr')
    if (u is None) != (v is None) or (u is not None and not np.array_equal(u, v)):
        return 'io_ptr'
    return None


WRITE_FAULTS = ['crash', 'crash', 'crash', 'torn_crash', 'torn_crash', 'enospc', 'eio_write', 'edquot', 'short_write',
                'eio_close', 'emfile_open', 'eacces_open', 'eio_rename', 'eio_unlink']


def attempt_load(env, p, path, n, fs, per_process, faults=()):
    def loader(R):
        util = R.mod('bet.util')
        try:
            o = util.load_object_parallel(path) if (per_process and n > 1) else util.load_object(path)
            return ('ok', snapshot(p, o, all_keys(p)))
        except Exception as e:
            return ('error', type(e).__name__)
    w = env.job(n, loader, fs=fs, faults=faults)
    return w


@register
class FaultySave(Scenario):
    """Generation A saved cleanly, generation B saved under one injected fault, then load in a new job."""
    prop = 'P04'
    name = 'faulty_save'
    weight = 3
    faulty = True
    mins = dict(MINS, at=0)

    def gen(self, rng, tier):
        p = gen_common(rng, tier)
        p['n'] = pick_n(rng, tier, hi=4)
        p['nload'] = pick_n(rng, tier, hi=4)
        p['globalize'] = rng.random() < 0.6
        p['parts'] = rng.choice(['global', 'local', 'both'])
        p['old'] = rng.random() < 0.8
        p['fault'] = rng.choice(WRITE_FAULTS)
        p['pos'] = rng.random()
        p['frac'] = rng.choice([0.0, 0.25, 0.5, 0.9, 1.0])
        p['then_power'] = rng.random() < 0.2
        p['cut'] = rng.random()
        return p

    def run(self, env, p):
        path = path_of(env, p)
        n = p['n']
        per = not p['globalize']
        nload = n if per else p['nload']
        A = make_state(env.data(p['data_seed'], 0), p, 0)
        B = make_state(env.data(p['data_seed'], 1), p, 1)

        def saver(st):
            def f(R):
                util = R.mod('bet.util')
                o = build_obj(R, p, st, R.size, p['parts'])
                s = snapshot(p, o, all_keys(p))
                R.world.ranks[R.rank].value = ('saving', s)
                try:
                    util.save_object(o, path, globalize=p['globalize'])
                except Exception as e:
                    return ('raised', s, type(e).__name__)
                R.world.ranks[R.rank].value = ('acked', s)
                R.pause('after save')
                return ('acked', s)
            return f
        snapsA = None
        if p['old']:
            snapsA = [v[1] for v in env.job(n, saver(A), fs=env.new_fs(p['bufsize'] or None, p['chunk'])).require_clean('save A')]
        # dry run on a copy of the disk tells how many operations the faulty save performs
        import shutil
        base = env.rundir()
        keep = base + '.keep'
        shutil.rmtree(keep, ignore_errors=True)
        shutil.copytree(base, keep)
        dry = env.new_fs(p['bufsize'] or None, p['chunk'])
        env.job(n, saver(B), fs=dry).require_clean('save B')
        shutil.rmtree(base)
        shutil.copytree(keep, base)
        shutil.rmtree(keep)
        os.chdir(base)
        from ..core import FAULT_SITES
        want = FAULT_SITES[p['fault']]
        sites = [i for i, o in enumerate(dry.log) if want is None or o[0] in want]
        if not sites:
            env.hit('fault_has_no_site:' + p['fault'])
            return
        at = sites[min(len(sites) - 1, int(p['pos'] * len(sites)))]
        fs = env.new_fs(p['bufsize'] or None, p['chunk'])
        w = env.job(n, saver(B), fs=fs, faults=[{'kind': p['fault'], 'at': at, 'frac': p['frac']}])
        if w.violation is not None:
            raise w.violation
        if w.failed:
            raise Violation('exception', 'save under fault: %s' % w.failed[0].exc)
        vals = [r.value for r in w.ranks]
        snapsB = [v[1] if v else None for v in vals]
        acked = any(v is not None and v[0] == 'acked' for v in vals)
        raised = [i for i, v in enumerate(vals) if v is not None and v[0] == 'raised']
        if not fs.fired:
            env.hit('fault_not_reached')
        if w.crashed:
            env.hit('crashed_during_save')
        env.check(w.crashed or raised or acked, 'no-progress', 'save neither returned nor raised: %s' % w.leftover)
        if raised and p['fault'] not in ('crash', 'torn_crash'):
            env.hit('error_reported_to_caller')
        env.check(not (acked and raised), 'failed-save-acknowledged',
                  'save raised on rank(s) %s but returned normally on another rank' % raised)
        if p['then_power'] and w.crashed and not acked:
            # an unsynced tail of the file being written may be lost with the machine
            for d, _, files in os.walk(base):
                for f in files:
                    q = os.path.join(d, f)
                    if any(l[0] == 'write' and l[1] == f for l in fs.log):
                        sz = os.path.getsize(q)
                        with open(q, 'r+b') as fh:
                            fh.truncate(int(sz * p['cut']))
                        env.hit('unsynced_tail_lost')
        w2 = attempt_load(env, p, path, nload, env.new_fs(p['bufsize'] or None, p['chunk']), per)
        if w2.violation is not None:
            raise w2.violation
        if w2.failed or w2.leftover:
            raise Violation('deadlock', 'load after the fault: %s' % (w2.leftover or w2.failed[0].exc))
        got = [r.value for r in w2.ranks]
        verdicts = []
        for r, (k, s) in enumerate(got):
            if k == 'error':
                verdicts.append('error')
                continue
            okA = okB = False
            if per:
                okA = snapsA is not None and same_snap(s, snapsA[r]) is None
                # the in-memory picture of B on that rank
                okB = snapsB[r] is not None and same_snap(s, snapsB[r]) is None
            else:
                okA = p['old'] and diff_global(p, s, A) is None
                okB = diff_global(p, s, B) is None
            verdicts.append('new' if okB else 'old' if okA else 'GARBAGE')
        desc = 'fault %s at disk op %d of a %s save by %d ranks (crashed=%s, acknowledged=%s, raised=%s): load by %d ranks gave %s' % (
            p['fault'], at, 'globalized' if p['globalize'] else 'per-process', n, w.crashed, acked, raised, nload, verdicts)
        env.check('GARBAGE' not in verdicts, 'garbage-loaded', desc)
        if acked:
            env.check(all(v == 'new' for v in verdicts), 'acknowledged-save-lost', desc)
        else:
            env.check('error' in verdicts or len(set(verdicts)) == 1, 'mixed-generations', desc)
        for v in set(verdicts):
            env.hit('after_fault_' + v)


@register
class FaultyLoad(Scenario):
    """A good save, then a load under read faults or from a damaged file: the object or an error, never garbage."""
    prop = 'P04'
    name = 'faulty_load'
    weight = 1
    faulty = True
    mins = dict(MINS, at=0)

    def gen(self, rng, tier):
        p = gen_common(rng, tier)
        p['n'] = pick_n(rng, tier, hi=4)
        p['nload'] = pick_n(rng, tier, hi=4)
        p['globalize'] = rng.random() < 0.6
        p['parts'] = rng.choice(['global', 'local', 'both'])
        p['fault'] = rng.choice(['eio_read', 'short_read', 'short_read', 'emfile_open', 'eacces_open', 'truncate',
                                 'truncate', 'missing'])
        p['pos'] = rng.random()
        p['frac'] = rng.choice([0.05, 0.3, 0.6, 0.95])
        return p

    def run(self, env, p):
        path = path_of(env, p)
        n = p['n']
        per = not p['globalize']
        nload = n if per else p['nload']
        A = make_state(env.data(p['data_seed'], 0), p, 0)

        def saver(R):
            util = R.mod('bet.util')
            o = build_obj(R, p, A, R.size, p['parts'])
            s = snapshot(p, o, all_keys(p))
            util.save_object(o, path, globalize=p['globalize'])
            return s
        saved = env.job(n, saver, fs=env.new_fs(p['bufsize'] or None, p['chunk'])).require_clean('save')
        faults = []
        fs = env.new_fs(p['bufsize'] or None, p['chunk'])
        if p['fault'] in ('truncate', 'missing'):
            files = sorted(os.path.join(d, f) for d, _, fl in os.walk(env.rundir()) for f in fl if f.endswith('.p'))
            q = files[int(p['pos'] * len(files)) % len(files)]
            if p['fault'] == 'missing':
                os.remove(q)
            else:
                sz = os.path.getsize(q)
                with open(q, 'r+b') as fh:
                    fh.truncate(min(sz - 1, int(sz * p['frac'])))
            env.stats['fault:' + p['fault'] + '_file'] = env.stats.get('fault:' + p['fault'] + '_file', 0) + 1
        else:
            dry = env.new_fs(p['bufsize'] or None, p['chunk'])
            attempt_load(env, p, path, nload, dry, per)
            from ..core import FAULT_SITES
            sites = [i for i, o in enumerate(dry.log) if o[0] in FAULT_SITES[p['fault']]]
            if not sites:
                return
            faults = [{'kind': p['fault'], 'at': sites[min(len(sites) - 1, int(p['pos'] * len(sites)))], 'frac': p['frac']}]
        w = attempt_load(env, p, path, nload, fs, per, faults)
        if w.violation is not None:
            raise w.violation
        if w.failed or w.leftover:
            raise Violation('deadlock', 'load under fault: %s' % (w.leftover,))
        for r in range(nload):
            k, s = w.ranks[r].value
            if k == 'ok':
                d = same_snap(s, saved[r]) if per else diff_global(p, s, A)
                env.check(d is None, 'garbage-loaded', lambda: 'fault %s: rank %d of %d loaded a different object: %s' % (
                    p['fault'], r, nload, d))
            else:
                env.hit('load_error_reported')
                env.check(p['fault'] != 'short_read', 'spurious-load-error', 'short reads are not an error: %s' % s)
        if p['fault'] in ('truncate', 'missing') or 'eio_read' in fs.fired:
            env.check(any(w.ranks[r].value[0] == 'error' for r in range(nload)), 'damage-not-reported',
                      'fault %s: every rank loaded without an error' % p['fault'])
