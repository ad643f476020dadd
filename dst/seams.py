"""Seams: everything outside the library that its behaviour may depend on.

Installed before composipy is imported, so names the library binds at import
time are bound to the simulated versions.  No hook in /repo is needed.
"""
import io
import os
import random
import sys
import threading
import time
import types

os.environ.setdefault('MPLBACKEND', 'Agg')
import numpy as np
import scipy.sparse.linalg as sla
import scipy.optimize
import scipy.linalg
import pandas as pd
import matplotlib
matplotlib.use('Agg', force=True)
import matplotlib.pyplot as plt
from matplotlib.axes import Axes
from mpl_toolkits.mplot3d import Axes3D

from . import kernel

REAL = {'time': time.time, 'perf': time.perf_counter, 'mono': time.monotonic,
        'eigsh': sla.eigsh, 'default_rng': np.random.default_rng, 'urandom': os.urandom,
        'show': plt.show, 'figure': plt.figure, 'plot_surface': Axes3D.plot_surface,
        'contour': Axes.contour, 'contourf': Axes.contourf, 'plot': Axes.plot,
        'stdout': sys.stdout}

_ready = False


def _clock(real):
    def now():
        s, th = kernel.current()
        if s is None:
            return real()
        s.clock_reads += 1
        kind = s.clock.get('kind', 'steady')
        d = s.crng.uniform(0, 2)
        if kind == 'jumps' and s.crng.random() < 0.5:
            d = s.crng.choice([-1e6, -3600.0, 0.0, 3600.0, 1e9])
            k = 'clock:jump'
            s.faults_fired[k] = s.faults_fired.get(k, 0) + 1
        elif kind == 'frozen':
            d = 0.0
        s.now += d
        s.simtime += abs(d)
        return s.now
    return now


def _eigsh(*a, **k):
    s, th = kernel.current()
    if s is None:
        return REAL['eigsh'](*a, **k)
    try:
        s.seam(th, 'solver')
    except sla.ArpackNoConvergence as e:          # carries the pairs that did converge: none, some, or all but one
        how = kernel.derive(th.uid, th.seam_calls['solver']) % 3
        if how and k.get('return_eigenvectors', True):
            w, V = REAL['eigsh'](*a, **k)
            i = slice(1, None) if how == 1 else slice(len(w) // 2, None)
            e.eigenvalues, e.eigenvectors = w[i], V[:, i]
        raise
    r = REAL['eigsh'](*a, **k)
    s.seam(th, 'solved')
    return r


def _default_rng(seed=None):
    if seed is None:
        s, th = kernel.current()
        if s is not None:
            s.entropy_draws += 1
            return REAL['default_rng'](s.erng.getrandbits(64))
    return REAL['default_rng'](seed)


def _urandom(n):
    s, th = kernel.current()
    if s is not None:
        s.entropy_draws += 1
        return s.erng.randbytes(n)
    return REAL['urandom'](n)


class SimStdout(io.TextIOBase):
    """Per-caller standard output; may fail on the n-th write."""

    def write(self, text):
        s, th = kernel.current()
        if s is None:
            return REAL['stdout'].write(text)
        s.seam(th, 'stdout')
        if th.out is not None:
            th.out.append(text)
        return len(text)

    def flush(self):
        s, th = kernel.current()
        if s is None:
            REAL['stdout'].flush()

    def fileno(self):
        return REAL['stdout'].fileno()

    def isatty(self):
        return False

    @property
    def encoding(self):
        return 'utf-8'


def _show(*a, **k):
    s, th = kernel.current()
    if s is not None:
        s.seam(th, 'show')
        return None
    return None


def _figure(*a, **k):
    s, th = kernel.current()
    if s is not None:
        s.seam(th, 'figure')
    return REAL['figure'](*a, **k)


def _plot_surface(self, X, Y, Z, *a, **k):
    s, th = kernel.current()
    if s is not None:
        s.seam(th, 'surface')
        th.drawn.append(('surface', self, np.array(X, float), np.array(Y, float), np.array(Z, float)))
    return REAL['plot_surface'](self, X, Y, Z, *a, **k)


def _contour(real):
    def contour(self, *a, **k):
        s, th = kernel.current()
        if s is not None:
            s.seam(th, 'contour')
            xyz = [np.ma.filled(np.ma.array(v, dtype=float), np.nan) for v in a[:3]]
            th.drawn.append(('contour', self, *xyz))
        return real(self, *a, **k)
    return contour


def _plot(self, *a, **k):
    s, th = kernel.current()
    if s is not None:
        th.drawn.append(('line', self, *[np.array(v, float) for v in a if not isinstance(v, str)]))
    return REAL['plot'](self, *a, **k)


def install():
    """Take over the seams, then import the library from REPO."""
    global _ready
    if _ready:
        return
    _ready = True
    sys.dont_write_bytecode = True
    sys.path.insert(0, kernel.REPO)
    for m in [m for m in sys.modules if m == 'composipy' or m.startswith('composipy.')]:
        del sys.modules[m]
    time.time = _clock(REAL['time'])
    time.perf_counter = _clock(REAL['perf'])
    sla.eigsh = _eigsh
    for name, mod in list(sys.modules.items()):
        if name.startswith('scipy.') and isinstance(mod, types.ModuleType) and mod.__dict__.get('eigsh') is REAL['eigsh']:
            mod.eigsh = _eigsh
    np.random.default_rng = _default_rng
    os.urandom = _urandom
    random._urandom = _urandom
    plt.show = _show
    plt.figure = _figure
    Axes3D.plot_surface = _plot_surface
    Axes.contour, Axes.contourf = _contour(REAL['contour']), _contour(REAL['contourf'])
    Axes.plot = _plot
    sys.stdout = SimStdout()
    threading.Lock = kernel._lock
    threading.RLock = kernel._rlock
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        import composipy
        import composipy.optimize
        import composipy.nastranapi
    here = os.path.realpath(os.path.dirname(composipy.__file__))
    want = os.path.join(os.path.realpath(kernel.REPO), 'composipy')
    if here != want:
        raise RuntimeError(f'composipy imported from {here}, expected {want}')


def quiet_world(seed):
    """Known global random state at the start of a run."""
    random.seed(seed)
    np.random.seed(seed % (2 ** 32))
