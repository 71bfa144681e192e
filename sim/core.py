"""Deterministic simulator for SPMD (MPI) programs written against bet.Comm.

One simulated *job* is N ranks.  Every rank is a real thread running the real BET code
(its own private copy of every bet module, its own numpy/random stream), but at any
instant exactly one thread runs: ranks are parked at every collective, file operation
and model evaluation and a scheduler driven by an explicit choice sequence decides who
proceeds.  The communicator (mpi4py) is a stub owned by the simulator; the disk is a
scratch directory reached through an instrumented raw file layer that injects faults.
Nothing here reads an unseeded generator, and a clock only to notice a rank that computes for ever.
"""
import builtins
import ctypes
import errno
import gc
import glob as _glob
import hashlib
import importlib.abc
import importlib.machinery
import io
import os
import pickle
import random
import sys
import threading
import time
import types

import numpy as np

REPO = os.environ.get('BET_REPO', '/repo')

# --------------------------------------------------------------------------- code cache
_CODE = {}
_NAMES = []


def load_code():
    """Compile every module of the package from the current working tree (once per process)."""
    if _CODE:
        return
    base = os.path.join(REPO, 'bet')
    for d, dirs, files in os.walk(base):
        dirs[:] = sorted(x for x in dirs if x != '__pycache__')
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            path = os.path.join(d, f)
            rel = os.path.relpath(path, REPO)[:-3].replace(os.sep, '.')
            pkg = rel.endswith('.__init__')
            name = rel[:-len('.__init__')] if pkg else rel
            with open(path, 'rb') as fh:
                code = compile(fh.read(), path, 'exec', dont_inherit=True)
            _CODE[name] = (code, path, pkg)
    _NAMES[:] = sorted(_CODE)


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name not in _CODE:
            return None
        code, fn, pkg = _CODE[name]
        spec = importlib.machinery.ModuleSpec(name, self, origin=fn, is_package=pkg)
        spec.has_location = True
        if pkg:
            spec.submodule_search_locations = [os.path.dirname(fn)]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(_CODE[module.__name__][0], module.__dict__)


class _NoMPI(importlib.abc.MetaPathFinder):
    """Makes `import mpi4py` fail: the real MPI library must never be loaded here."""

    def find_spec(self, name, path=None, target=None):
        if name == 'mpi4py' or name.startswith('mpi4py.'):
            raise ImportError('No module named mpi4py (simulated)')
        return None


_installed = False


def install_finders():
    global _installed
    if _installed:
        return
    load_code()
    sys.meta_path.insert(0, _Finder())
    sys.meta_path.insert(0, _NoMPI())
    _installed = True


# --------------------------------------------------------------------------- outcomes
class Violation(Exception):
    """A property was broken. kind is the stable class used by the minimiser."""

    def __init__(self, kind, msg=''):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg


class RankKilled(BaseException):
    """Unwinds a rank thread whose simulated process no longer exists."""


class CommError(Exception):
    """Raised in the calling rank when it hands the communicator invalid buffers."""


# --------------------------------------------------------------------------- choices
class Choices:
    """Every scheduling/timing decision. Seeded when searching, a list when replaying.

    Option 0 always means 'the least surprising thing', so an exhausted or zeroed list is
    the plain round of the same workload with no preemption."""

    def __init__(self, seed=None, replay=None, bias=0.0):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.log = []
        self.bias = bias

    def choose(self, n):
        if n <= 1:
            return 0
        if self.replay is not None:
            i = len(self.log)
            v = self.replay[i] if i < len(self.replay) else 0
            v = v if 0 <= v < n else 0
        elif self.bias and self.rng.random() < self.bias:
            v = 0
        else:
            v = self.rng.randrange(n)
        self.log.append(v)
        return v


# --------------------------------------------------------------------------- fake MPI
class Datatype:
    def __init__(self, name, np_dtype):
        self.name, self.np = name, np.dtype(np_dtype)

    def Get_size(self):
        return self.np.itemsize

    size = property(Get_size)

    def __repr__(self):
        return 'MPI.' + self.name


class Op:
    def __init__(self, name, obj, buf):
        self.name, self.obj, self.buf = name, obj, buf

    def __call__(self, a, b):
        return self.obj(a, b)

    def __repr__(self):
        return 'MPI.' + self.name


def _lmax(a, b):
    return b if b > a else a


def _lmin(a, b):
    return b if b < a else a


OPS = {
    'SUM': Op('SUM', lambda a, b: a + b, np.add),
    'PROD': Op('PROD', lambda a, b: a * b, np.multiply),
    'MAX': Op('MAX', _lmax, np.maximum),
    'MIN': Op('MIN', _lmin, np.minimum),
    'LAND': Op('LAND', lambda a, b: bool(a) & bool(b), np.logical_and),
    'LOR': Op('LOR', lambda a, b: bool(a) | bool(b), np.logical_or),
    'BAND': Op('BAND', lambda a, b: a & b, np.bitwise_and),
    'BOR': Op('BOR', lambda a, b: a | b, np.bitwise_or),
    'MAXLOC': Op('MAXLOC', lambda a, b: a if (a[0] > b[0] or (a[0] == b[0] and a[1] <= b[1])) else b, None),
    'MINLOC': Op('MINLOC', lambda a, b: a if (a[0] < b[0] or (a[0] == b[0] and a[1] <= b[1])) else b, None),
}

TYPES = {
    'DOUBLE': 'f8', 'FLOAT': 'f4', 'INT': 'i4', 'LONG': 'i8', 'LONG_LONG': 'i8', 'SHORT': 'i2',
    'BOOL': '?', 'C_BOOL': '?', 'BYTE': 'u1', 'CHAR': 'i1', 'UNSIGNED': 'u4', 'UNSIGNED_LONG': 'u8',
    'INT32_T': 'i4', 'INT64_T': 'i8', 'INT8_T': 'i1', 'UINT8_T': 'u1', 'UINT64_T': 'u8',
    'DOUBLE_COMPLEX': 'c16',
}
DATATYPES = {k: Datatype(k, v) for k, v in TYPES.items()}
_BY_NP = {np.dtype('f8'): DATATYPES['DOUBLE'], np.dtype('f4'): DATATYPES['FLOAT'],
          np.dtype('i4'): DATATYPES['INT'], np.dtype('i8'): DATATYPES['LONG'],
          np.dtype('?'): DATATYPES['C_BOOL'], np.dtype('u1'): DATATYPES['BYTE'],
          np.dtype('i1'): DATATYPES['CHAR'], np.dtype('c16'): DATATYPES['DOUBLE_COMPLEX'],
          np.dtype('u8'): DATATYPES['UINT64_T'], np.dtype('i2'): DATATYPES['SHORT']}
IN_PLACE = types.SimpleNamespace(name='IN_PLACE')


def _bufspec(spec, writable=False):
    """mpi4py buffer specification -> flat numpy view of the memory in the MPI datatype."""
    dt = None
    count = None
    if isinstance(spec, (list, tuple)):
        arr = spec[0]
        rest = list(spec[1:])
        for x in rest:
            if isinstance(x, (Datatype, str)):
                dt = x
            elif isinstance(x, (int, np.integer)):
                count = int(x)
            elif x is None:
                pass
            elif isinstance(x, (tuple, list, np.ndarray)):
                count = ('v', x)
            else:
                raise CommError('bad buffer specification %r' % (x,))
    else:
        arr = spec
    if not isinstance(arr, np.ndarray):
        arr = np.asarray(memoryview(arr))
    if not (arr.flags.c_contiguous or arr.flags.f_contiguous):
        raise CommError('ndarray is not contiguous')
    if writable and not arr.flags.writeable:
        raise CommError('buffer is read-only')
    if dt is None:
        if arr.dtype not in _BY_NP:
            raise CommError('no MPI datatype for %s' % arr.dtype)
        dt = _BY_NP[arr.dtype]
    elif isinstance(dt, str):
        dt = _BY_NP[np.dtype(dt)]
    flat = arr.reshape(-1, order='A')
    nbytes = flat.nbytes
    if nbytes % dt.np.itemsize:
        raise CommError('buffer of %d bytes is not a multiple of %r' % (nbytes, dt))
    view = flat.view('u1').view(dt.np) if nbytes else np.empty(0, dt.np)
    if isinstance(count, int):
        if count > view.size:
            raise CommError('count %d exceeds buffer' % count)
        view = view[:count]
    return view, dt


class SimComm:
    """Stub of mpi4py.MPI.Comm for one rank of one simulated job."""

    def __init__(self, world, rank):
        self._w = world
        self._r = rank

    # attributes ---------------------------------------------------------
    def Get_size(self):
        return self._w.n

    def Get_rank(self):
        return self._r

    size = property(Get_size)
    rank = property(Get_rank)

    def Dup(self):
        return self

    def Abort(self, errorcode=0):
        raise RuntimeError('MPI_Abort(%s)' % errorcode)

    # object collectives --------------------------------------------------
    def _obj(self, kind, payload, root=None, extra=None):
        return self._w.collective(self._r, kind, (kind, root, extra), payload)

    @staticmethod
    def _dump(x):
        return pickle.dumps(x, protocol=5)

    def bcast(self, obj=None, root=0):
        c = self._obj('bcast', self._dump(obj) if self._r == root else None, root)
        return obj if self._r == root else pickle.loads(c.arrived[root])

    def scatter(self, sendobj=None, root=0):
        p = None
        if self._r == root:
            items = list(sendobj)
            if len(items) != self._w.n:
                raise ValueError('expecting %d items, got %d' % (self._w.n, len(items)))
            p = [self._dump(x) for x in items]
        c = self._obj('scatter', p, root)
        return pickle.loads(c.arrived[root][self._r])

    def gather(self, sendobj, root=0):
        c = self._obj('gather', self._dump(sendobj), root)
        if self._r != root:
            return None
        return [pickle.loads(c.arrived[i]) for i in range(self._w.n)]

    def allgather(self, sendobj):
        c = self._obj('allgather', self._dump(sendobj))
        return [pickle.loads(c.arrived[i]) for i in range(self._w.n)]

    def alltoall(self, sendobj):
        items = list(sendobj)
        if len(items) != self._w.n:
            raise ValueError('expecting %d items' % self._w.n)
        c = self._obj('alltoall', [self._dump(x) for x in items])
        return [pickle.loads(c.arrived[i][self._r]) for i in range(self._w.n)]

    def _opname(self, op):
        op = OPS['SUM'] if op is None else op
        return op, getattr(op, 'name', 'user')

    def reduce(self, sendobj, op=None, root=0):
        op, nm = self._opname(op)
        c = self._obj('reduce', self._dump(sendobj), root, nm)
        if self._r != root:
            return None
        return self._fold(op, c, self._w.n)

    def _fold(self, op, c, upto):
        acc = pickle.loads(c.arrived[0])
        for i in range(1, upto):
            acc = op(acc, pickle.loads(c.arrived[i]))
        return acc

    def allreduce(self, sendobj, op=None):
        op, nm = self._opname(op)
        c = self._obj('allreduce', self._dump(sendobj), None, nm)
        return self._fold(op, c, self._w.n)

    def scan(self, sendobj, op=None):
        op, nm = self._opname(op)
        c = self._obj('scan', self._dump(sendobj), None, nm)
        return self._fold(op, c, self._r + 1)

    def exscan(self, sendobj, op=None):
        op, nm = self._opname(op)
        c = self._obj('exscan', self._dump(sendobj), None, nm)
        return self._fold(op, c, self._r) if self._r else None

    def barrier(self):
        self._obj('barrier', None)

    Barrier = barrier

    # buffer collectives --------------------------------------------------
    def _buf(self, kind, view, dt, root=None, extra=None, same=True):
        sig = (kind, root, extra, dt.name, view.size if same else None)
        return self._w.collective(self._r, kind, sig, view.copy())

    def Bcast(self, buf, root=0):
        view, dt = _bufspec(buf, writable=self._r != root)
        c = self._buf('Bcast', view, dt, root)
        if self._r != root:
            view[...] = c.arrived[root]

    def _sr(self, sendbuf, recvbuf):
        rv, rt = _bufspec(recvbuf, writable=True)
        if sendbuf is IN_PLACE:
            return rv.copy(), rt, rv, rt
        sv, st = _bufspec(sendbuf)
        return sv, st, rv, rt

    def Allreduce(self, sendbuf, recvbuf, op=None):
        op, nm = self._opname(op)
        sv, st, rv, rt = self._sr(sendbuf, recvbuf)
        if sv.size != rv.size or st.np != rt.np:
            raise CommError('Allreduce: mismatched send/receive buffers (%d, %d)' % (sv.size, rv.size))
        c = self._buf('Allreduce', sv, st, None, nm)
        rv[...] = self._reduced(c, op)

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        op, nm = self._opname(op)
        if self._r == root:
            sv, st, rv, rt = self._sr(sendbuf, recvbuf)
        else:
            sv, st = _bufspec(sendbuf)
        c = self._buf('Reduce', sv, st, root, nm)
        if self._r == root:
            rv[...] = self._reduced(c, op)

    def _reduced(self, c, op):
        """MPI leaves the association/order of a reduction to the implementation."""
        if c.reduced is None:
            parts = [c.arrived[i] for i in range(self._w.n)]
            mode = c.redmode
            if mode == 1:
                parts = parts[::-1]
            elif mode == 2:
                random.Random(c.index).shuffle(parts)
            if mode == 3:
                while len(parts) > 1:
                    nxt = [op.buf(parts[i], parts[i + 1]) for i in range(0, len(parts) - 1, 2)]
                    if len(parts) % 2:
                        nxt.append(parts[-1])
                    parts = nxt
                acc = parts[0]
            else:
                acc = parts[0]
                for p in parts[1:]:
                    acc = op.buf(acc, p)
            c.reduced = np.array(acc, dtype=c.arrived[0].dtype)
        return c.reduced

    def Allgather(self, sendbuf, recvbuf):
        rv, rt = _bufspec(recvbuf, writable=True)
        sv, st = _bufspec(sendbuf)
        c = self._buf('Allgather', sv, st)
        n = self._w.n
        if rv.size != sv.size * n:
            raise CommError('Allgather: receive buffer holds %d, needs %d' % (rv.size, sv.size * n))
        rv[...] = np.concatenate([c.arrived[i] for i in range(n)])

    def Allgatherv(self, sendbuf, recvbuf):
        spec = recvbuf if isinstance(recvbuf, (list, tuple)) else [recvbuf]
        rv, rt = _bufspec([spec[0]] + [x for x in spec[1:] if isinstance(x, (Datatype, str))], True)
        sv, st = _bufspec(sendbuf)
        c = self._buf('Allgatherv', sv, st, same=False)
        counts = displs = None
        for x in spec[1:]:
            if isinstance(x, tuple) and len(x) == 2 and not np.isscalar(x[0]):
                counts, displs = x
            elif isinstance(x, (list, tuple, np.ndarray)):
                if counts is None:
                    counts = x
                else:
                    displs = x
        n = self._w.n
        parts = [c.arrived[i] for i in range(n)]
        if counts is None:
            counts = [p.size for p in parts]
        if displs is None:
            displs = np.concatenate(([0], np.cumsum(counts)[:-1]))
        for i in range(n):
            if parts[i].size != int(counts[i]):
                raise CommError('Allgatherv: rank %d sent %d, expected %d' % (i, parts[i].size, counts[i]))
            rv[int(displs[i]):int(displs[i]) + int(counts[i])] = parts[i]

    def Gather(self, sendbuf, recvbuf, root=0):
        sv, st = _bufspec(sendbuf)
        c = self._buf('Gather', sv, st, root)
        if self._r == root:
            rv, rt = _bufspec(recvbuf, writable=True)
            allv = np.concatenate([c.arrived[i] for i in range(self._w.n)])
            if rv.size != allv.size:
                raise CommError('Gather: receive buffer holds %d, needs %d' % (rv.size, allv.size))
            rv[...] = allv

    def Scatter(self, sendbuf, recvbuf, root=0):
        rv, rt = _bufspec(recvbuf, writable=True)
        p = None
        if self._r == root:
            p, _ = _bufspec(sendbuf)
            p = p.copy()
        c = self._w.collective(self._r, 'Scatter', ('Scatter', root, rt.name, rv.size), p)
        src = c.arrived[root]
        if src.size != rv.size * self._w.n:
            raise CommError('Scatter: send buffer holds %d, needs %d' % (src.size, rv.size * self._w.n))
        rv[...] = src[self._r * rv.size:(self._r + 1) * rv.size]

    # point to point -------------------------------------------------------
    def send(self, obj, dest, tag=0):
        self._w.post(self._r, dest, tag, self._dump(obj))

    isend = ssend = send

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        return pickle.loads(self._w.fetch(self._r, source, tag))

    def Send(self, buf, dest, tag=0):
        v, dt = _bufspec(buf)
        self._w.post(self._r, dest, tag, v.copy())

    def Recv(self, buf, source=-1, tag=-1, status=None):
        v, dt = _bufspec(buf, writable=True)
        m = self._w.fetch(self._r, source, tag)
        v[:m.size] = m


def make_mpi4py(world, rank):
    pkg = types.ModuleType('mpi4py')
    pkg.__path__ = []
    m = types.ModuleType('mpi4py.MPI')
    for k, v in OPS.items():
        setattr(m, k, v)
    for k, v in DATATYPES.items():
        setattr(m, k, v)
    m.IN_PLACE = IN_PLACE
    m.COMM_WORLD = SimComm(world, rank)
    m.COMM_SELF = None
    m.ANY_SOURCE = -1
    m.ANY_TAG = -1
    m.Comm = m.Intracomm = SimComm
    m.Op = Op
    m.Datatype = Datatype
    m.Exception = CommError
    m.ROOT = -3
    m.PROC_NULL = -2
    pkg.MPI = m
    return {'mpi4py': pkg, 'mpi4py.MPI': m}


class Coll:
    __slots__ = ('index', 'kind', 'sig', 'root', 'arrived', 'eager', 'redmode', 'reduced', 'n', 'who')

    def __init__(self, index, kind, sig, n, who):
        self.index, self.kind, self.sig, self.n, self.who = index, kind, sig, n, who
        self.arrived = {}
        self.reduced = None
        self.eager = 0
        self.redmode = 0
        self.root = sig[1] if kind in ('bcast', 'Bcast', 'scatter', 'Scatter', 'gather', 'Gather',
                                       'reduce', 'Reduce') else None

    def done_for(self, rank):
        if len(self.arrived) == self.n:
            return True
        if not self.eager:
            return False
        k = self.kind
        if k in ('bcast', 'Bcast', 'scatter', 'Scatter'):
            return self.root in self.arrived
        if k in ('gather', 'Gather', 'reduce', 'Reduce'):
            return rank != self.root
        return False


# --------------------------------------------------------------------------- ranks / world
class Rank:
    def __init__(self, world, rank):
        self.world, self.rank = world, rank
        self.baton = threading.Lock()
        self.baton.acquire()
        self.state = 'ready'      # ready | blocked | done | failed | killed
        self.wait = None          # predicate
        self.what = 'start'
        self.nc = 0               # collectives entered
        self.modules = {} if world.no_mpi else make_mpi4py(world, rank)
        self.np_state = None
        self.py_state = None
        self.figs = None
        self.value = None
        self.exc = None
        self.tb = None
        self.thread = None
        self.dead = False
        self.stalled = 0


class RankCtx:
    """What a workload program sees of the simulator."""

    def __init__(self, world, rank):
        self.world, self.rank, self.size = world, rank, world.n

    def mod(self, name):
        import importlib
        return importlib.import_module(name)

    def pause(self, what='user'):
        self.world.yield_point(what)

    def note(self, *what):
        self.world.log(('note', self.rank) + what)


_tls = threading.local()
_SWAP = ['mpi4py', 'mpi4py.MPI']


CPU_CAP = 60.0    # seconds of processor time between two points of a rank


class StepCap(Exception):
    pass


class World:
    njobs = 0

    def __init__(self, n, choices, rng_seed=0, rng_mode='distinct', no_mpi=False, fs=None,
                 faults=(), step_cap=200000, stats=None, eager=True, stalls=()):
        install_finders()
        self.n = n
        self.choices = choices
        self.no_mpi = no_mpi
        self.fs = fs
        self.step = 0
        self.step_cap = step_cap
        self.colls = []
        self.mail = []
        self.events = []
        self.violation = None
        self.crashed = False
        self.current = None
        self.main = threading.Lock()
        self.main.acquire()
        self.eager = eager
        self.stats = stats if stats is not None else {}
        self.faults = list(faults)
        self.stalls = list(stalls)
        self.ranks = [Rank(self, i) for i in range(n)]
        for i, r in enumerate(self.ranks):
            s = rng_seed if rng_mode == 'identical' else (rng_seed * 1000003 + 7919 * (i + 1)) % (2 ** 32)
            r.np_state = np.random.RandomState(s % (2 ** 32)).get_state(legacy=False)
            r.py_state = random.Random(s).getstate()
        self.fsops = 0
        self.last = None

    # -- logging
    def log(self, ev):
        self.events.append(ev)

    def count(self, key, k=1):
        self.stats[key] = self.stats.get(key, 0) + k

    def digest(self):
        return hashlib.sha1(repr(self.events).encode()).hexdigest()

    def schedule_digest(self):
        return hashlib.sha1(repr([e[:3] for e in self.events if e[0] in ('coll', 'fs', 'pause')]).encode()).hexdigest()[:16]

    # -- context swapping
    def _swap_in(self, r):
        sm = sys.modules
        for k in _NAMES:
            sm.pop(k, None)
        for k in _SWAP:
            sm.pop(k, None)
        sm.update(r.modules)
        np.random.set_state(r.np_state)
        random.setstate(r.py_state)
        g = _gcf()
        if g is not None:
            g.figs = r.figs if r.figs is not None else type(g.figs)()
        self.current = r

    def _swap_out(self, r):
        sm = sys.modules
        mods = {}
        for k in _NAMES:
            m = sm.pop(k, None)
            if m is not None:
                mods[k] = m
        for k in _SWAP:
            m = sm.pop(k, None)
            if m is not None:
                mods[k] = m
        r.modules = mods
        r.np_state = np.random.get_state(legacy=False)
        r.py_state = random.getstate()
        g = _gcf()
        if g is not None:
            r.figs = g.figs
            g.figs = type(g.figs)()
        self.current = None

    # -- called on rank threads
    def me(self):
        r = getattr(_tls, 'rank', None)
        if r is None or r.world is not self:
            return None
        return r

    def _park(self, r):
        """Hand the baton back to the scheduler and wait to be chosen again."""
        if r.dead:
            raise RankKilled()
        self.main.release()
        r.baton.acquire()
        if r.dead:
            raise RankKilled()

    def yield_point(self, what):
        r = self.me()
        if r is None:
            return
        if r.dead:
            raise RankKilled()
        r.what = what
        r.state = 'ready'
        self.log(('pause', r.rank, what))
        self._park(r)

    def block(self, r, pred, what):
        r.what = what
        if pred():
            return
        r.wait = pred
        r.state = 'blocked'
        self._park(r)
        r.wait = None

    def collective(self, rank, kind, sig, payload):
        r = self.ranks[rank]
        if self.me() is not r:
            raise RuntimeError('communicator of rank %d used from elsewhere' % rank)
        if self.n > 1:
            self.yield_point('enter ' + kind)
        idx = r.nc
        r.nc += 1
        if idx == len(self.colls):
            c = Coll(idx, kind, sig, self.n, rank)
            if self.n > 1:
                c.eager = self.choices.choose(2) if (self.eager and c.root is not None) else 0
                if kind in ('Allreduce', 'Reduce'):
                    c.redmode = self.choices.choose(4)
            self.colls.append(c)
        else:
            c = self.colls[idx]
            if c.sig != sig:
                self.fail('collective-mismatch',
                          'collective #%d: rank %d called %r while rank %d called %r'
                          % (idx, c.who, c.sig, rank, sig))
        c.arrived[rank] = payload
        self.log(('coll', rank, kind, idx))
        self.count('collectives')
        self.block(r, lambda: c.done_for(rank), 'in %s #%d' % (kind, idx))
        return c

    def post(self, src, dst, tag, payload):
        self.yield_point('send')
        self.mail.append((src, dst, tag, payload))

    def fetch(self, rank, source, tag):
        r = self.ranks[rank]

        def find():
            for i, (s, d, t, p) in enumerate(self.mail):
                if d == rank and source in (-1, s) and tag in (-1, t):
                    return i
            return None
        self.yield_point('recv')
        self.block(r, lambda: find() is not None, 'recv')
        return self.mail.pop(find())[3]

    def fail(self, kind, msg):
        if self.violation is None:
            self.violation = Violation(kind, msg)
        for r in self.ranks:
            r.dead = True
        raise RankKilled()

    def crash(self, why):
        """Kill the whole job here: only what the disk already holds survives."""
        self.crashed = True
        self.log(('crash', why))
        for r in self.ranks:
            r.dead = True
        raise RankKilled()

    # -- scheduler
    def _body(self, r, program):
        _tls.rank = r
        r.baton.acquire()
        try:
            if not r.dead:
                r.value = program(RankCtx(self, r.rank))
                r.state = 'done'
            else:
                r.state = 'killed'
        except RankKilled:
            r.state = 'killed'
        except BaseException as e:  # noqa - the outcome of the rank's process
            r.exc = e
            r.tb = _short_tb(e)
            r.state = 'killed' if r.dead else 'failed'
            if not r.dead:
                self.log(('raise', r.rank, type(e).__name__))
        finally:
            _tls.rank = None
            self.main.release()

    def run(self, program):
        """program: callable(RankCtx) or list of callables."""
        progs = program if isinstance(program, list) else [program] * self.n
        host_np = np.random.get_state(legacy=False)
        host_py = random.getstate()
        gc.disable()
        prev = _hooks.world
        _hooks.world = self
        _hooks.install()
        try:
            for r in self.ranks:
                r.thread = threading.Thread(target=self._body, args=(r, progs[r.rank]), daemon=True)
                r.thread.start()
            self._loop()
        finally:
            if self.current is not None:
                self._swap_out(self.current)
            _hooks.world = prev
            if prev is None:
                _hooks.remove()
            np.random.set_state(host_np)
            random.setstate(host_py)
        return self

    def _resume(self, r):
        if self.current is not r:
            if self.current is not None:
                self._swap_out(self.current)
            self._swap_in(r)
        r.baton.release()
        if self.main.acquire(timeout=5):
            return
        # a rank that neither communicates, touches a file nor ends: judged by the processor time it burns, not by the clock
        t0, clk = time.time(), time.pthread_getcpuclockid(r.thread.ident)
        c0, told = time.clock_gettime(clk), 0
        while not self.main.acquire(timeout=2):
            if time.clock_gettime(clk) - c0 > CPU_CAP * (told + 1):
                told += 1
                if self.violation is None:
                    self.violation = Violation('no-progress', 'rank %d computes without end after %s' % (r.rank, r.what))
                r.dead = True
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(r.thread.ident), ctypes.py_object(RankKilled))
            if time.time() - t0 > 600 or told > 5:
                raise RuntimeError('rank %d does not return to the scheduler' % r.rank)

    def _loop(self):
        live = lambda: [r for r in self.ranks if r.state in ('ready', 'blocked')]
        while True:
            if self.violation is not None or self.crashed:
                break
            if self.step > self.step_cap:
                self.violation = Violation('no-progress', 'step cap %d exceeded' % self.step_cap)
                break
            rs = live()
            if not rs:
                break
            ready = [r for r in rs if r.state == 'ready' or r.wait()]
            if not ready:
                break  # deadlock: blocked ranks remain
            if self.stalls and len(ready) > 1:
                ok = [r for r in ready if not any(s['rank'] == r.rank and s['from'] <= self.step < s['to']
                                                  for s in self.stalls)]
                if ok and len(ok) < len(ready):
                    self.count('fault:stalled_rank')
                    ready = ok
            ready.sort(key=lambda r: (0 if r is self.last else 1, r.rank))
            r = ready[self.choices.choose(len(ready))]
            self.last = r
            self.step += 1
            r.state = 'ready'
            self._resume(r)
        # unwind whatever is still parked (killed process / stuck rank)
        self.leftover = [(r.rank, r.what) for r in live()]
        for r in live():
            r.dead = True
            guard = 0
            while r.state in ('ready', 'blocked') and guard < 1000:
                guard += 1
                self._resume(r)
        for r in self.ranks:
            r.thread.join(30)
            if r.thread.is_alive():
                raise RuntimeError('rank thread did not unwind')
        World.njobs += 1
        if self.fs is not None or World.njobs % 20 == 0:
            gc.collect()

    # -- verdicts shared by all workloads
    @property
    def failed(self):
        return [r for r in self.ranks if r.state == 'failed']

    def require_clean(self, what='job'):
        """Fault-free job: every rank must return, no exception, no deadlock, no mismatch."""
        if self.violation is not None:
            raise self.violation
        f = self.failed
        if f:
            r = f[0]
            raise Violation('exception', '%s: rank %d of %d raised %s: %s at %s%s' % (
                what, r.rank, self.n, type(r.exc).__name__, str(r.exc)[:300], r.tb,
                '; ranks %s left waiting' % self.leftover if self.leftover else ''))
        if self.leftover:
            raise Violation('deadlock', '%s: ranks stuck forever: %s' % (what, self.leftover))
        if self.crashed:
            raise RuntimeError('crash in a fault-free job')
        return [r.value for r in self.ranks]


def _short_tb(e):
    out = []
    tb = e.__traceback__
    while tb is not None:
        c = tb.tb_frame.f_code
        fn = c.co_filename
        if '/bet/' in fn or fn.startswith(REPO):
            out.append('%s:%s' % (os.path.basename(fn), c.co_name))
        tb = tb.tb_next
    e.__traceback__ = None
    return ' > '.join(out[-4:]) or 'workload'


def _gcf():
    m = sys.modules.get('matplotlib._pylab_helpers')
    return m.Gcf if m is not None else None


# --------------------------------------------------------------------------- disk
class SimFile(io.FileIO):
    """Raw file of the simulated disk: every call is a scheduling and fault point."""

    def __init__(self, fs, path, mode, opener=None):
        self._fs = fs
        self._path = path
        fs.op('open', path, mode=mode)
        super().__init__(path, mode, opener=opener) if opener else super().__init__(path, mode)
        fs.opened(path, mode)

    def _dead(self):
        r = getattr(_tls, 'rank', None)
        return r is not None and r.dead

    def write(self, b):
        mv = memoryview(b).cast('B')
        if self._dead():
            return len(mv)
        f = self._fs.op('write', self._path, size=len(mv))
        if self._fs.chunk and len(mv) > self._fs.chunk:     # the kernel may accept less than offered
            mv = mv[:self._fs.chunk]
        if f is None:
            return super().write(mv)
        k = f['kind']
        keep = int(len(mv) * f.get('frac', 0.5))
        if k == 'short_write':
            return super().write(mv[:max(1, min(len(mv), keep))])
        if k in ('enospc', 'eio_write', 'edquot'):
            if keep:
                super().write(mv[:keep])
            raise OSError({'enospc': errno.ENOSPC, 'eio_write': errno.EIO, 'edquot': errno.EDQUOT}[k],
                          'injected ' + k)
        if k == 'torn_crash':
            if keep:
                super().write(mv[:keep])
            self._fs.world().crash('torn write %s' % os.path.basename(self._path))
        raise RuntimeError('fault %r on write' % k)

    def readinto(self, b):
        if self._dead():
            raise RankKilled()
        f = self._fs.op('read', self._path, size=len(b))
        if f is not None:
            k = f['kind']
            if k == 'eio_read':
                raise OSError(errno.EIO, 'injected eio_read')
            if k == 'short_read':
                mv = memoryview(b)
                return super().readinto(mv[:max(1, int(len(mv) * f.get('frac', 0.5)))])
        return super().readinto(b)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        k = self.readinto(buf)
        return bytes(buf[:k])

    def readall(self):
        out = bytearray()
        while True:
            buf = bytearray(65536)
            k = self.readinto(buf)
            if not k:
                return bytes(out)
            out += buf[:k]

    def close(self):
        if self.closed:
            return
        err = None
        if not self._dead():
            try:
                f = self._fs.op('close', self._path)
                if f is not None and f['kind'] == 'eio_close':
                    err = OSError(errno.EIO, 'injected eio_close')
            except RankKilled:
                super().close()
                raise
        super().close()
        if err:
            raise err


class SimFS:
    """The scratch directory of a run, seen by the simulated jobs as their disk."""

    def __init__(self, root, bufsize=None, chunk=0):
        self.root = os.path.realpath(root)
        self.bufsize = bufsize
        self.chunk = chunk
        self.count = 0
        self.log = []       # (kind, basename) of every operation in order
        self.fired = []
        self.pre = {}       # path -> bytes before its last non-synced modification

    def world(self):
        return _hooks.world

    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p:
            return False
        p = p if os.path.isabs(p) else os.path.join(os.getcwd(), p)
        return os.path.realpath(os.path.dirname(p) or '.').startswith(self.root)

    def opened(self, path, mode):
        pass

    def op(self, kind, path, size=0, mode=''):
        """One disk operation by the current rank: yield, then maybe inject a fault.

        Returns the fault for the caller to apply (partial effects), or None."""
        w = self.world()
        if w is None or w.me() is None:
            return None
        w.yield_point('fs ' + kind)
        r = w.me()
        n = self.count
        self.count += 1
        name = os.path.basename(os.fspath(path)) if path else ''
        self.log.append((kind, name, size))
        w.log(('fs', r.rank, kind, name, size))
        w.count('fs_ops')
        for f in w.faults:
            if f.get('done') or n < f['at']:
                continue
            k = f['kind']
            want = FAULT_SITES[k]
            if want is not None and kind not in want:
                continue
            f['done'] = True
            self.fired.append(k)
            w.count('fault:' + k)
            w.log(('fault', k, n))
            if k == 'crash':
                w.crash('before %s %s' % (kind, name))
            if k == 'enoent_open' or k == 'eacces_open' or k == 'emfile_open':
                code = {'enoent_open': errno.ENOENT, 'eacces_open': errno.EACCES,
                        'emfile_open': errno.EMFILE}[k]
                raise OSError(code, 'injected ' + k)
            if k in ('eio_rename', 'eio_unlink'):
                raise OSError(errno.EIO, 'injected ' + k)
            return f
        return None


FAULT_SITES = {
    'crash': None,
    'torn_crash': ('write',),
    'short_write': ('write',), 'enospc': ('write',), 'eio_write': ('write',), 'edquot': ('write',),
    'eio_read': ('read',), 'short_read': ('read',),
    'eio_close': ('close',),
    'emfile_open': ('open',), 'eacces_open': ('open',),
    'eio_rename': ('rename',), 'eio_unlink': ('remove',),
}


def _importing():
    """Is this thread inside an import? Loading a library is not part of the run: no yield, no fault, no log entry."""
    f = sys._getframe(2)
    while f is not None:
        if f.f_code.co_filename.startswith('<frozen importlib'):
            return True
        f = f.f_back
    return False


class _Hooks:
    def __init__(self):
        self.world = None
        self.on = False
        self.saved = {}

    def fs(self):
        w = self.world
        if w is None or w.fs is None or w.me() is None or _importing():
            return None
        return w.fs

    def install(self):
        if self.on:
            return
        self.on = True
        real_open = io.open
        H = self

        def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
                     closefd=True, opener=None):
            fs = H.fs()
            if fs is None or isinstance(file, int) or opener is not None or not fs.inside(file):
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            rawmode = mode.replace('b', '').replace('t', '')
            binary = 'b' in mode
            raw = SimFile(fs, os.fspath(file), rawmode)
            size = fs.bufsize or io.DEFAULT_BUFFER_SIZE
            if buffering > 1:
                size = buffering
            if binary and buffering == 0:
                return raw
            if '+' in rawmode:
                buf = io.BufferedRandom(raw, size)
            elif rawmode[0] in 'wax':
                buf = io.BufferedWriter(raw, size)
            else:
                buf = io.BufferedReader(raw, size)
            if binary:
                return buf
            return io.TextIOWrapper(buf, encoding, errors, newline)

        self.saved = {'open': real_open}
        builtins.open = sim_open
        io.open = sim_open

        def wrap(mod, name, kind, nargs=1):
            real = getattr(mod, name)
            self.saved[(mod, name)] = real

            def f(*a, **k):
                fs = H.fs()
                if fs is not None and a and not isinstance(a[0], int) and fs.inside(a[0]):
                    fs.op(kind, a[0])
                return real(*a, **k)
            f.__name__ = name
            setattr(mod, name, f)

        wrap(os.path, 'exists', 'stat')
        wrap(os.path, 'isfile', 'stat')
        wrap(os, 'remove', 'remove')
        wrap(os, 'unlink', 'remove')
        wrap(os, 'rename', 'rename')
        wrap(os, 'replace', 'rename')
        wrap(os, 'listdir', 'list')
        wrap(_glob, 'glob', 'list')
        real_fsync = os.fsync
        self.saved[(os, 'fsync')] = real_fsync

        def fsync(fd):
            w = H.world
            if w is not None and w.fs is not None and w.me() is not None:
                w.yield_point('fs fsync')
            return None
        os.fsync = fsync

    def remove(self):
        if not self.on:
            return
        self.on = False
        real = self.saved.pop('open')
        builtins.open = real
        io.open = real
        for (mod, name), f in self.saved.items():
            setattr(mod, name, f)
        self.saved = {}


_hooks = _Hooks()
